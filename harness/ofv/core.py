"""Concrete documents for abstract ones, and the replay of Lifecycle
behaviours on the real handlers.

A *binding* renders an abstract document (sequence of entry kinds) in the
concrete syntax of one format.  The rendering is a list of pieces: literal
text and slots.  The template the specification predicts is the rendering
with placeholders in the slots; the compiled file it predicts is the rendering
with the edited texts in the slots.
"""
import copy, hashlib, random, re, traceback

RULES = {0: "zero", 1: "one", 2: "two", 3: "few", 4: "many", 5: "other"}
RULENO = {v: k for k, v in RULES.items()}
RULESETS = {"pl5": (5,), "pl15": (1, 5), "pl135": (1, 3, 5), "plall": (0, 1, 2, 3, 4, 5)}
SG_KINDS = ("sg", "sgC", "sgX", "sgM", "fz")
PL_KINDS = ("pl", "plA", "plC", "plX", "plM", "fzP")
KIND_RULES = {"fzP": (1, 5), "pl": (1, 5), "plC": (1, 5), "plX": (1, 5), "plM": (1, 5), "plA": (0, 1, 2, 3, 4, 5)}
TR = set(SG_KINDS + PL_KINDS)


class Skip(Exception):
    """The binding cannot express this abstract document."""


class Ent(object):
    """A translatable entry of a concrete document."""
    def __init__(self, id, kind, key, forms, context="", comment="", limit=None, **kw):
        self.id, self.kind, self.key, self.forms = id, kind, key, forms
        self.context, self.comment, self.limit = context, comment, limit
        self.pl = kind in PL_KINDS
        self.attrs = kw           # further OpenString attributes that must hold
        self.frag = None          # (prefix literal, suffix literal) of the entry

    @property
    def hash(self):
        # independent statement of the identity of a string
        return hashlib.md5((self.key + ":" + (self.context or "")).encode("utf-8")).hexdigest()

    @property
    def placeholder(self):
        return self.hash + ("_pl" if self.pl else "_tr")


class Slot(object):
    """Place of a string.  fmt renders forms (plural bodies), src renders the
    body in the source file where it differs from the format's normal form,
    tmpl renders what the template has in its place."""
    def __init__(self, ent, fmt=None, src=None, tmpl=None):
        self.ent, self.fmt, self.src, self.tmpl = ent, fmt, src, tmpl

    def source(self):
        return self.src() if self.src else self.ent.rendered(self, self.ent.forms)

    def template(self):
        return self.tmpl(self.ent) if self.tmpl else self.ent.placeholder


class Alt(object):
    """Literal text that the format rewrites: src in the source, out after."""
    def __init__(self, src, out):
        self.src, self.out = src, out


class Doc(object):
    def __init__(self, pieces, ents, nl="UNIX", **kw):
        self.pieces, self.ents, self.nl = pieces, ents, nl
        self.out_nl = nl          # some formats always write UNIX line ends
        self.__dict__.update(kw)
        self.by_id = {e.id: e for e in ents}

    def text(self, slot, source=False):
        out = "".join(p if isinstance(p, str) else (p.src if source else p.out) if isinstance(p, Alt) else slot(p) for p in self.pieces)
        return to_nl(out, self.nl if source else self.out_nl)

    def source(self):
        return self.text(lambda s: s.source(), True)

    def template(self):
        return self.text(lambda s: s.template())

    def compiled(self, forms):
        return self.text(lambda s: s.ent.rendered(s, forms[s.ent.id]))


def _rendered(self, slot, forms):
    if slot.fmt is not None:
        return slot.fmt(forms)
    return forms[5]
Ent.rendered = _rendered


def to_nl(text, nl):
    return text.replace("\n", "\r\n") if nl == "DOS" else text


class Binding(object):
    """Interface of a format binding."""
    name = None
    dos_strings_unix = True   # strings of a DOS file are reported with \n
    parse_kwargs = {}
    compile_kwargs = {}
    has_sync = False
    ordered = True            # handler sets `order`
    exact_drop = False

    def handler(self):
        raise NotImplementedError

    def build(self, kinds, nl, rng):
        raise NotImplementedError

    def other_source(self, rng):
        """An unrelated well-formed file (for histories)."""
        d = self.build(self.other_kinds, "UNIX", rng)
        return d

    other_kinds = ["sg", "sg"]

    def bad_source(self, rng):
        """A file the handler rejects."""
        return None

    def new_text(self, ent, rng):
        return self.text(rng)

    def translate(self, ent, rules, rng):
        return {r: self.new_text(ent, rng) for r in rules}

    def wellformed(self, content):
        pass

    def new_ent(self, id, kind, rng):
        """A string that is not in the document (for additions)."""
        raise Skip()

    def read(self, handler, content):
        return handler.parse(content, **self.parse_kwargs)

    def openstring(self, ent, forms, order):
        from openformats.strings import OpenString
        kw = dict(order=order)
        kw.update({k: v for k, v in ent.attrs.items()})
        kw["context"] = ent.context
        kw["developer_comment"] = ent.comment
        if ent.limit is not None:
            kw["character_limit"] = ent.limit
        if ent.pl:
            return OpenString(ent.key, dict(forms), pluralized=True, **kw)
        return OpenString(ent.key, forms[5], **kw)

    def retranslate(self, os, forms):
        """What a client does: same string, other texts."""
        from openformats.strings import OpenString
        kw = {k: getattr(os, k) for k in OpenString.DEFAULTS}
        if os.pluralized:
            return OpenString(os.key, dict(forms), pluralized=True, **kw)
        return OpenString(os.key, forms[5], **kw)

    # after dropping: literal fragments that must survive / be gone
    def fragments(self, doc, ent):
        return []

    def back_context(self, doc, e, keep):
        """context expected when the compiled file is read again"""
        return e.context

    def back_key(self, doc, ent, keep):
        """key expected when the compiled file is read again (lists re-index)."""
        return ent.key

    def compare(self, doc, out, forms):
        """None, or how the compiled file differs from the expected one; absent
        strings keep their placeholder"""
        eo = doc.text(lambda s: s.ent.rendered(s, forms[s.ent.id]) if s.ent.id in forms else s.template())
        return None if eo == out else diff(eo, out)

    def settled(self, out, again):
        """is the compiled file a fixed point?"""
        return out == again

    def back_handler(self, doc, forms):
        """handler that reads the compiled file"""
        return self.handler()

    def check_forms(self, os, forms):
        return dict(os.strings) == dict(forms)


# ---------------------------------------------------------------------------

def snapshot(os):
    d = dict(os.__dict__)
    d.pop("_string_hash", None)
    d["_strings"] = dict(os._strings)
    return d


class Failure(object):
    def __init__(self, props, what, detail):
        self.props, self.what, self.detail = set(props), what, detail


def short(s, n=1500):
    s = repr(s)
    return s if len(s) <= n else s[:n] + "..."


def diff(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        return "expected %s got %s" % (short(a), short(b))
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return "differs at %d: expected ...%s got ...%s" % (i, short(a[max(0, i-30):i+60]), short(b[max(0, i-30):i+60]))


def apply_history(b, h, hist, rng):
    """Bring a handler instance into a used state."""
    for step in hist:
        if step == "parse":
            d = b.other_source(rng)
            b.read(h, d.source())
        elif step == "cycle":
            d = b.other_source(rng)
            t, s = b.read(h, d.source())
            s = list(s)
            if b.has_sync:
                t = h.sync_template(t, b.sync_list(s[:-1]))
                h.compile(t, s[:-1], **b.compile_kwargs)
            else:
                h.compile(t, s, **b.compile_kwargs)
        elif step == "fail":
            bad = b.bad_source(rng)
            if bad is None:
                continue
            for one in (bad if isinstance(bad, (list, tuple)) else [bad]):
                try:
                    b.read(h, one)
                except Exception:
                    pass
        elif step == "partial":
            # compile with a string missing, with whatever result
            d = b.other_source(rng)
            t, s = b.read(h, d.source())
            try:
                h.compile(t, list(s)[1:], **b.compile_kwargs)
            except Exception:
                pass


def replay(b, case, rng, props=None):
    """Replays one behaviour of Lifecycle on the real handler; returns failures
    and the number of steps compared."""
    from openformats.exceptions import ParseError
    fails = []
    steps = 0

    def bad(p, what, detail):
        fails.append(Failure(p, what, detail))

    doc = b.build(case["doc"], case["nl"], rng)
    src = doc.source()
    ctx = lambda: "source=%s" % short(src)
    h = b.handler()
    hist = case["hist"]
    H = {"C08"} if hist else set()
    try:
        apply_history(b, h, hist, rng)
    except Exception as e:
        bad({"C08", "C01"}, "history step failed", "%s: %s" % (type(e).__name__, e))
        return fails, steps

    # -- Parse
    steps += 1
    try:
        tmpl, strset = b.read(h, src)
        strset = list(strset)
    except ParseError as e:
        if not case["rejected"]:
            bad({"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C12", "C13", "C11", "C24", "C15", "C16", "C20", "C21"} | H, "well-formed file rejected",
                "%s; %s" % (e, ctx()))
        return fails, steps
    except Exception as e:
        bad({"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C11", "C12", "C13", "C24", "C15", "C16", "C20", "C21"} | H, "parse crashed",
            "%s: %s; %s" % (type(e).__name__, e, ctx()))
        return fails, steps
    if case["rejected"]:
        bad({"C11"} | H, "file without strings accepted", ctx())
        return fails, steps

    N = {"C06"} if case["nl"] == "DOS" else set()
    exp = [doc.by_id[s["id"]] for s in case["strs"]]
    got_keys = [(o.key, o.context or "") for o in strset]
    exp_keys = [(e.key, e.context or "") for e in exp]
    if got_keys != exp_keys:
        p = {"C02", "C03", "C12"} | H | N
        if len(got_keys) == len(exp_keys):
            p |= {"C13"}
        else:
            p |= {"C04", "C01"}
        bad(p, "extracted strings differ", "expected %s got %s; %s" % (short(exp_keys), short(got_keys), ctx()))
        return fails, steps
    for e, o in zip(exp, strset):
        steps += 1
        if bool(o.pluralized) != e.pl:
            bad({"C02", "C09"} | H, "plural mark differs", "%s: %s; %s" % (e.key, o.pluralized, ctx()))
        if not b.check_forms(o, e.forms):
            p = {"C02", "C04", "C06"} | H
            if e.pl:
                p |= {"C09"}
            bad(p, "extracted text differs", "%s: expected %s got %s; %s" % (e.key, short(e.forms), short(o.strings), ctx()))
        if (o.developer_comment or "") != e.comment:
            bad({"C13"} | H | N, "developer comment differs", "%s: expected %s got %s; %s" % (e.key, short(e.comment), short(o.developer_comment), ctx()))
        if e.limit != o.character_limit and e.limit is not None or (e.limit is None and o.character_limit is not None):
            bad({"C13"} | H, "character limit differs", "%s: %r %r" % (e.key, e.limit, o.character_limit))
        for a, v in e.attrs.items():
            if getattr(o, a) != v:
                bad({"C13", "C24"} | H, "%s differs" % a, "%s: expected %s got %s; %s" % (e.key, short(v), short(getattr(o, a)), ctx()))
        if o.string_hash != e.hash:
            bad({"C03"} | H, "identity is not that of key and context", "%s %r" % (e.key, e.context))
    if b.ordered:
        orders = [o.order for e, o in zip(exp, strset) if e.kind not in ("fz", "fzP")]
        if any(x is None for x in orders) or any(x >= y for x, y in zip(orders, orders[1:])):
            bad({"C03"} | H, "orders not increasing", "%s; %s" % (orders, ctx()))
    if len({o.template_replacement for o in strset}) != len(strset):
        bad({"C03"}, "identities collide", ctx())

    # -- template
    steps += 1
    et = doc.template()
    if tmpl != et:
        bad({"C02", "C12", "C01"} | H | N, "template differs", "%s; %s" % (diff(et, tmpl), ctx()))
    if fails:
        return fails, steps

    # -- Edit
    forms = {}
    new = []
    ei = 0
    dropped = []
    for e, o, ed in zip(exp, strset, case["edits"]):
        if ed == "drop":
            dropped.append(e)
            continue
        if ed == "keep":
            forms[e.id] = e.forms
            new.append(o)
            continue
        rules = RULESETS[ed] if ed in RULESETS else tuple(sorted(e.forms))
        f = b.translate(e, rules, rng)
        if not e.pl and b.placeholder_texts and rng.random() < .06:
            # a translation that looks like the placeholder of a present string
            f = {5: rng.choice([x.placeholder for x, xe in zip(exp, case["edits"]) if xe != "drop"])}
        forms[e.id] = f
        if case["nl"] == "DOS" and b.literal_newlines:
            # translations may use either line end, even both
            f = {r: re.sub("\n", lambda m: rng.choice(["\n", "\r\n"]), t) for r, t in f.items()}
        new.append(b.retranslate(o, f))
    added = []
    for n, k in enumerate(case["adds"]):
        e = b.new_ent(len(case["doc"]) + 1 + n, k, rng, doc, n)
        f = b.translate(e, tuple(sorted(e.forms)), rng)
        e.forms = f
        forms[e.id] = f
        new.append(b.openstring(e, f, len(strset) + n))
        added.append(e)
    ents = {e.id: e for e in exp}
    ents.update({e.id: e for e in added})
    before = [snapshot(o) for o in new]
    untouched = all(x == "keep" for x in case["edits"]) and not added

    # -- Sync
    T = tmpl
    if b.has_sync:
        steps += 1
        try:
            T = h.sync_template(tmpl, b.sync_list(new))
        except Exception as e:
            bad({"C07", "C05"} | H, "sync crashed", "%s: %s; %s" % (type(e).__name__, e, ctx()))
            return fails, steps
        if not dropped and not added and T != tmpl:
            bad({"C07"} | H | N, "sync with all strings changed the template", "%s; %s" % (diff(tmpl, T), ctx()))
        slots = b.slots_in(T)
        eslots = [ents[i].placeholder for i in case["stmpl"]]
        if slots != eslots:
            bad({"C07", "C05"} | H, "placeholders after sync differ", "expected %s got %s; template=%s %s" % (short(eslots), short(slots), short(T), ctx()))
        try:
            T2 = b.handler().sync_template(T, b.sync_list(new))
            if T2 != T:
                bad({"C07"}, "sync is not idempotent", "%s; %s" % (diff(T, T2), ctx()))
        except Exception as e:
            bad({"C07"}, "second sync crashed", "%s: %s; synced=%s %s" % (type(e).__name__, e, short(T), ctx()))

        if added and b.added_contiguous:
            what = added_wrongly(b, tmpl, T, new[:len(new) - len(added)])
            if what:
                bad({"C07"} | H, "the added entries are not put after the others", "%s; %s" % (what, ctx()))

    # -- Compile
    steps += 1
    try:
        out = h.compile(T, list(new), **b.compile_kwargs)
    except Exception as e:
        p = {"C01", "C04", "C09"} if not dropped else {"C05"}
        bad(p | H | ({"C07"} if added or (dropped and b.has_sync) else set()), "compile crashed",
            "%s: %s; template=%s strings=%s" % (type(e).__name__, e, short(T), short([(o.key, o.strings) for o in new])))
        return fails, steps
    after = [snapshot(o) for o in new]
    if before != after:
        bad({"C08"}, "compile modified the strings given to it", "%s -> %s" % (short(before), short(after)))
    # compiling again with the same and with a fresh handler gives the same file
    if "C08" in (props or {"C08"}):
        try:
            again = h.compile(T, list(new), **b.compile_kwargs)
            fresh = b.handler().compile(T, list(new), **b.compile_kwargs)
            if again != out or fresh != out:
                bad({"C08"}, "compile is not repeatable", diff(out, again if again != out else fresh))
            ft, fs = b.read(b.handler(), src)
            if ft != tmpl or [snapshot(o) for o in fs] != [snapshot(o) for o in strset]:
                bad({"C08"}, "parse with a fresh handler differs", "%s; %s" % (diff(tmpl, ft), ctx()))
            rt, rs = b.read(h, src)
            if rt != tmpl or [snapshot(o) for o in rs] != [snapshot(o) for o in strset]:
                bad({"C08"}, "second parse with the same handler differs", "%s; %s" % (diff(tmpl, rt), ctx()))
        except Exception as e:
            bad({"C08"}, "repeated operation crashed", "%s: %s; %s" % (type(e).__name__, e, ctx()))

    if not dropped and not added:
        differs = b.compare(doc, out, forms)
        if differs:
            p = {"C01", "C12"} if untouched else {"C04"}
            if any(e.pl for e in exp):
                p |= {"C09"}
            if case["nl"] == "DOS" or "\r" in out or any("\n" in t for f in forms.values() for t in f.values()):
                p |= {"C06"}
            bad(p | H, "compiled file differs", "%s; template=%s strings=%s" % (differs, short(T), short(forms)))
    else:
        if b.drop_mode == "keep" and not added:
            # absent strings keep their placeholder
            differs = b.compare(doc, out, forms)
            if differs:
                bad({"C04", "C05", "C12"} | ({"C07"} if b.has_sync else set()) | H, "file compiled without some strings differs", "%s; %s" % (differs, ctx()))
            return fails, steps
        D = {"C05"} if dropped else set()
        if b.has_sync:
            D |= {"C07"}
        surv = [ents[i] for i in case["keep"] if i in ents and i in forms]
        at = 0
        for i in case["keep"]:
            for fr in b.kept_fragments(doc, i, forms):
                fr = to_nl(fr, doc.out_nl)
                j = out.find(fr, at)
                if j < 0:
                    bad(D | H | ({"C12"} if i not in ents else set()), "surviving entry damaged", "entry %s: %s not found in order in %s; %s" % (i, short(fr), short(out), ctx()))
                    break
                at = j + len(fr)
        if b.drop_mode == "remove":
            for e in dropped:
                if e.hash in out:
                    bad(D | H, "placeholder of an absent string left", "%s in %s" % (e.key, short(out)))
                for fr in b.gone_fragments(doc, e):
                    if fr in out:
                        bad(D | H, "removed entry left a trace", "%s in %s; %s" % (short(fr), short(out), ctx()))
        if b.exact_drop:
            eo = b.dropped_text(doc, set(case["keep"]), forms)
            if eo is not None and eo != out:
                bad(D | H, "file after removal differs", "%s; %s" % (diff(eo, out), ctx()))
    if case["nl"] == "DOS" and b.newline_check:
        # a file of which nothing is left has no convention left either
        emptied = added and not any(i <= len(case["doc"]) for i in case["keep"]) and "\r" not in out
        if re.search(r"(?<!\r)\n", out) and not emptied:
            bad({"C06"}, "UNIX newline in DOS output", short(out))
    elif b.newline_check and "\r" in out:
        bad({"C06"}, "carriage return in UNIX output", short(out))
    try:
        b.wellformed(out)
    except Skip:
        pass
    except Exception as e:
        bad(({"C05"} if dropped else {"C04", "C01"}) | ({"C07"} if b.has_sync else set()) | H, "compiled file is not well-formed", "%s: %s; %s" % (type(e).__name__, e, short(out)))

    if b.check_struct is not None and not (dropped and b.drop_mode == "keep"):
        try:
            b.check_struct(doc, out, set(case["keep"]), forms, added)
        except Exception as e:
            bad(({"C05"} if dropped else {"C04", "C12"}) | ({"C07"} if b.has_sync else set()) | H, "structure of the compiled file differs", "%s: %s; out=%s %s" % (type(e).__name__, e, short(out), ctx()))

    # -- Reparse
    if b.drop_mode == "keep" and dropped:
        return fails, steps
    steps += 1
    R = {"C04"} | ({"C05"} if dropped else set()) | ({"C07"} if b.has_sync else set()) | H
    ebs = [ents[i] for i in case["back"]]
    try:
        t2, s2 = b.read(b.back_handler(doc, forms), out)
        s2 = list(s2)
    except Skip:
        return fails, steps
    except ParseError as e:
        if not ebs and b.needsome:
            return fails, steps
        bad(R, "compiled file is rejected", "%s; out=%s" % (e, short(out)))
        return fails, steps
    except Exception as e:
        bad(R, "reading the compiled file crashed", "%s: %s; out=%s" % (type(e).__name__, e, short(out)))
        return fails, steps
    got = [(o.key, o.context or "", dict(o.strings)) for o in s2]
    want = []
    keepset = set(case["keep"])
    for e in ebs:
        f = forms[e.id]
        c = b.back_context(doc, e, keepset)
        want.append((b.back_key(doc, e, keepset), c or "", dict(f)))
    if got != want:
        if any(e.pl for e in ebs):
            R |= {"C09"}
        bad(R, "compiled file reads back differently", "expected %s got %s; out=%s" % (short(want), short(got), short(out)))
    else:
        if untouched:
            # the file just written is a fixed point
            try:
                again = b.back_handler(doc, forms).compile(t2, list(s2), **b.compile_kwargs)
            except Exception as ex:
                again = "%s: %s" % (type(ex).__name__, ex)
            if not b.settled(out, again):
                bad({"C01"} | H, "compiled file is not a fixed point", diff(out, again))
        for e, o in zip(ebs, s2):
            if e.id in doc.by_id and (o.developer_comment or "") != e.comment and b.comments_survive and not (dropped and b.comments_move):
                bad({"C13"} | ({"C05"} if dropped else set()), "comment lost in the compiled file", "%s: %s; out=%s" % (e.key, short(o.developer_comment), short(out)))
    return fails, steps


def added_wrongly(b, tmpl, T, kept):
    """Additions are one piece of text inserted after the last entry there is;
    what was in the template stays as it was, white space included."""
    T0 = b.handler().sync_template(tmpl, b.sync_list(kept))
    T0, T = T0.replace("\r\n", "\n"), T.replace("\r\n", "\n")
    if re.match(r"\s*[{\[]\s*[}\]]\s*$", T0):
        return None
    end = len(T0.rstrip()) - 1                  # the closing bracket
    last = len(T0[:end].rstrip())               # after the last entry
    if not (T.startswith(T0[:last]) and T.endswith(T0[end:])):
        return "%s became %s" % (short(T0), short(T))
    gap = T0[last:end]
    if "\n" in gap.rstrip(" \t") and gap.strip(" \t") == "\n":
        # the last line only holds the bracket: it stays that way
        if not (T[last:].startswith(",") or T[last:].startswith(gap.split("\n")[0] + ",")) or not T.endswith("\n" + gap.split("\n")[1] + T0[end:]):
            return "layout: %s became %s" % (short(T0), short(T))
    return None


Binding.drop_mode = "none"
Binding.comments_move = False       # comments of dropped strings stay and go to the next one
Binding.added_contiguous = False
Binding.check_struct = None
Binding.newline_check = True
Binding.placeholder_texts = True
Binding.needsome = False
Binding.literal_newlines = False
Binding.sync_list = lambda self, strings: list(strings)
Binding.comments_survive = True
Binding.kept_fragments = lambda self, doc, i, forms: []
Binding.gone_fragments = lambda self, doc, e: []
Binding.slots_in = lambda self, t: re.findall(r"[0-9a-f]{32}_(?:tr|pl)", t)


# ---------------------------------------------------------------------------
# text generation

class Texts(object):
    """Random texts from a token alphabet, with a pool of hard cases."""
    def __init__(self, tokens, hard, strip=True, avoid=None, maxlen=6):
        self.tokens, self.hard, self.strip, self.avoid, self.maxlen = tokens, hard, strip, avoid, maxlen

    def __call__(self, rng):
        for _ in range(100):
            if self.hard and rng.random() < 0.35:
                t = rng.choice(self.hard)
            else:
                t = "".join(rng.choice(self.tokens) for _ in range(rng.randint(1, self.maxlen)))
            if self.strip:
                t = t.strip()
            if t.strip() and not (self.avoid and self.avoid(t)):
                return t
        return "text"


WORDS = ["Hello", "world", "foo", "bar", "a", "b", "0", "1", "42", " ", " ", "é", "ü", "日本", "😀", "-", "_", "x", "\u00a0", "ß"]
# characters that some libraries take for line ends, and other odd ones
ODD = ["a\x0bb", "a\x0cb", "a\x1cb", "a\x1db", "a\x1eb", "a\x85b", "a\u2028b", "a\u2029b", "\u200b", "a\ufeffb", "\x7f", "a\x00b"]
# those that XML, JSON and YAML allow in a text
ODD_OK = ["a\x85b", "a\u2028b", "a\u2029b", "\u200b", "a\ufeffb", "\x7f", "\u0301"]
