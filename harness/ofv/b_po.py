"""Bindings: gettext PO and POT files.

polib, a dependency, defines the normal form of a field; everything around the
fields is written out here."""
import polib
from .core import *

ESC = {"\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", '"': '\\"'}


def esc(t):
    return "".join(ESC.get(c, c) for c in t)


def field(name, text, index=""):
    """normal form of a field (text short enough not to be wrapped)"""
    lines = text.splitlines(True)
    if len(lines) > 1:
        return '%s%s ""\n' % (name, index) + "".join('"%s"\n' % esc(l) for l in lines)
    return '%s%s "%s"\n' % (name, index, esc(text))


def wild(name, text, rng, index=""):
    """some other spelling of the same field"""
    if rng.random() < .5:
        return field(name, text, index)
    parts, rest = [], text
    while rest:
        n = rng.randint(1, max(1, len(rest)))
        parts.append(rest[:n])
        rest = rest[n:]
    head = "" if rng.random() < .6 or not parts else parts.pop(0)
    ind = rng.choice(["", "", " "])
    return '%s%s "%s"\n' % (name, index, esc(head)) + "".join('%s"%s"\n' % (ind, esc(p)) for p in parts)


TOK = WORDS + ["\n", "\t", '"', "\\", "%s", "%(x)d", "{0}", "'", "\\n", ":", "#", "~", "<b>", "&", "[0]", "msgid", "|", ","]
HARD = ["\\", '"', "a\nb", "a\n", "\nb", '\\"', "\\\\", "\\n", "a\\\nb", "%d files", "msgstr \"x\"", "#, fuzzy", "#~ x", ":", "a:b", "a\\:b", "a\\", "\\:", "\t", "x\r", "12"]
TEXT = Texts(TOK, HARD, strip=False, avoid=lambda t: len(t) > 50)
META = Texts(WORDS + ["\"", ":", "#", "\\", ",", "(", ")"], ["see #12", "note: x", "a, b", "\\n", "fuzzy"], avoid=lambda t: len(t) > 50)
IDS = Texts(TOK, HARD, strip=False, avoid=lambda t: len(t) > 40)


def po_key(*parts):
    return ":".join(p.replace("\\", "\\\\").replace(":", "\\:") for p in parts)


class _Proxy(object):
    """The handler as clients use it: the template is kept as text or as the
    object parse returned."""
    def __init__(self):
        from openformats.formats.po import PoHandler
        self.h = PoHandler()
        self.known = {}

    def parse(self, source, **kw):
        po, strs = self.h.parse(source, **kw)
        text = self.h.pofile_to_str(po)
        self.known[text] = po
        return text, strs

    def compile(self, template, strings, **kw):
        return self.h.compile(self.known.get(template, template), strings, **kw)

    def sync_template(self, template, strings, **kw):
        r = self.h.sync_template(self.known.get(template, template), strings, **kw)
        return r if isinstance(r, str) else self.h.pofile_to_str(r)


class Po(Binding):
    name = "PO"
    has_sync = True
    drop_mode = "remove"
    exact_drop = True
    newline_check = False
    source_kind = "po"
    parse_kwargs = {"is_source": True}
    other_kinds = ["sg", "pl", "fz", "sg"]

    def handler(self):
        return _Proxy()

    def text(self, rng):
        return TEXT(rng)

    def translate(self, ent, rules, rng):
        if not ent.pl:
            return {5: self.text(rng)}
        return {n: self.text(rng) for n in range(len(rules))}

    def sync_list(self, strings):
        # fuzzy strings have no order, so no place in a template
        return [o for o in strings if not o.fuzzy]

    def ids(self, rng, used, pl, ctx):
        for _ in range(200):
            a = IDS(rng)
            b = IDS(rng) if pl else None
            if rng.random() < .3 and used:
                # same text with another context or plural
                a = rng.choice(sorted(used, key=repr))[0]
            k = (a, b, ctx or "")
            if a and k not in used and (b is None or b.strip()):
                key = po_key(a, b) if pl else po_key(a)
                # identities join key and context with a colon
                if key + ":" + (ctx or "") not in {u[3] for u in used}:
                    used.add(k + (key + ":" + (ctx or ""),))
                    return a, b, key
        raise Skip()

    def entry(self, id, kind, rng, used):
        pl = kind in PL_KINDS
        ctx = META(rng) if kind in ("sgX", "sgM", "plX", "plM") else None
        if ctx is None and rng.random() < .05:
            ctx = ""
        a, b, key = self.ids(rng, used, pl, ctx)
        e = Ent(id, kind, key, {}, context=ctx or "")
        e.msgid, e.msgid_plural, e.msgctxt = a, b, ctx
        e.com = META(rng) if kind in ("sgC", "sgM", "plM") and rng.random() < .8 else ""
        e.tcom = META(rng) if kind in ("sgC", "sgM", "plM") and (not e.com or rng.random() < .6) else ""
        if e.com and rng.random() < .3:
            e.com += "\n" + META(rng)
        e.occ = [(rng.choice(["a.py", "b/c.js", "x-y.c"]), str(rng.randint(1, 400))) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
        e.flags = [f for f in ("python-format", "c-format", "no-wrap") if rng.random() < .2]
        if kind in ("fz", "fzP"):
            e.flags.insert(rng.randint(0, len(e.flags)), "fuzzy")
        e.prev = META(rng) if rng.random() < .1 else ""
        e.comment = e.com + "\n" + e.tcom
        e.attrs = dict(occurrences=", ".join("%s:%s" % o for o in e.occ) or None, flags=", ".join(e.flags), fuzzy="fuzzy" in e.flags)
        e.forms = self.forms(e, rng)
        return e

    def forms(self, e, rng):
        if self.source_kind == "pot":
            return {0: e.msgid, 1: e.msgid_plural} if e.pl else {5: e.msgid}
        if not e.pl:
            return {5: self.text(rng)}
        return {n: self.text(rng) for n in range(rng.choice([1, 2, 2, 3, 6]))}

    def head(self, e, rng=None):
        """everything before msgstr: (source spelling, normal form)"""
        out = []
        w = lambda *a: wild(*a, rng=rng)
        if e.com:
            out += ["#. %s\n" % l for l in e.com.split("\n")]
        if e.tcom:
            out += ["# %s\n" % l for l in e.tcom.split("\n")]
        if e.occ:
            out.append("#: " + " ".join("%s:%s" % o for o in e.occ) + "\n")
        if e.flags:
            out.append("#, " + ", ".join(e.flags) + "\n")
        if e.prev:
            out += ["#| " + l + "\n" for l in field("msgid", e.prev).rstrip("\n").split("\n")]
        normal = "".join(out) + self.idpart(e, field)
        if rng is None:
            return normal
        src = []
        blocks = [["#. %s\n" % l for l in e.com.split("\n")] if e.com else [], ["# %s\n" % l for l in e.tcom.split("\n")] if e.tcom else []]
        rng.shuffle(blocks)
        src += blocks[0] + blocks[1]
        if rng.random() < .5:
            src += ["#: %s:%s\n" % o for o in e.occ]
        elif e.occ:
            src.append("#: " + " ".join("%s:%s" % o for o in e.occ) + "\n")
        if e.flags:
            src.append("#, " + ", ".join(e.flags) + "\n")
        if e.prev:
            src += ["#| " + l + "\n" for l in field("msgid", e.prev).rstrip("\n").split("\n")]
        return "".join(src) + self.idpart(e, w), normal

    def idpart(self, e, w):
        return (w("msgctxt", e.msgctxt) if e.msgctxt is not None else "") + w("msgid", e.msgid) + (w("msgid_plural", e.msgid_plural) if e.pl else "")

    def body(self, e, forms):
        if e.pl:
            return "".join(field("msgstr", t, "[%d]" % n) for n, t in sorted(forms.items()))
        return field("msgstr", forms[5])

    def srcbody(self, e, rng):
        if self.source_kind == "pot":
            if e.pl:
                return "".join('msgstr[%d] ""\n' % n for n in range(rng.choice([1, 2, 3])))
            return 'msgstr ""\n'
        if e.pl:
            return "".join(wild("msgstr", t, rng, "[%d]" % n) for n, t in sorted(e.forms.items()))
        return wild("msgstr", e.forms[5], rng)

    def build(self, kinds, nl, rng):
        used = set()
        comment = [META(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
        meta = [("Project-Id-Version", "x 1"), ("Content-Type", "text/plain; charset=UTF-8"), ("Language", "en"), ("Plural-Forms", "nplurals=2; plural=(n != 1);")]
        meta = [m for m in meta if rng.random() < .7]
        comment = [c for c in comment if c[:1] not in ",:.~|#"]
        normal = "".join("# %s\n" % c for c in comment or [""])
        normal += ('msgid ""\nmsgstr ""\n' + "".join('"%s: %s\\n"\n' % m for m in meta)) if len(meta) > 1 else 'msgid ""\nmsgstr "%s"\n' % "".join("%s: %s\\n" % m for m in meta)
        src = "".join("# %s\n" % c for c in comment)
        src += 'msgid ""\nmsgstr ""\n' + "".join('"%s: %s\\n"\n' % m for m in meta)
        if not meta and not comment and kinds and kinds[0] in ("sg", "sgX", "pl", "plX", "fz") and rng.random() < .5:
            src = ""
        if meta and comment == [] and rng.random() < .2:
            src = "#, fuzzy\n" + src
            normal = "# \n#, fuzzy\n" + normal[len("# \n"):]
        pieces = [Alt(src, normal)]
        ents, frag = [], {}
        for i, k in enumerate(kinds, 1):
            if k == "skip":
                e = self.entry(i, rng.choice(["sg", "sgC", "sgX", "pl"]), rng, used)
                s, _ = self.head(e, rng)
                s += 'msgstr[0] ""\nmsgstr[1] ""\n' if e.pl else 'msgstr ""\n'
                pieces.append(Alt("\n" + s, ""))
                continue
            e = self.entry(i, k, rng, used)
            ents.append(e)
            s, n = self.head(e, rng)
            sb = self.srcbody(e, rng)
            gap = rng.choice(["\n", "\n", "\n\n", "\n \n"])
            if i == 1 and not src:
                gap = ""
            if k in ("fz", "fzP"):
                pieces.append(Alt(gap + s + sb, ""))
                continue
            pieces.append(Alt(gap + s, "\n" + n))
            pieces.append(Slot(e, fmt=lambda f, e=e: self.body(e, f), src=lambda sb=sb: sb,
                               tmpl=lambda e: field("msgstr", e.placeholder, "[0]" if e.pl else "")))
            frag[i] = n
        d = Doc(pieces, ents, nl)
        d.out_nl = "UNIX"
        d.frag, d.normal_head, d.used, d.added = frag, normal, used, []
        return d

    def new_ent(self, id, kind, rng, doc, nth):
        e = self.entry(id, kind, rng, doc.used)
        e.prev, e.tcom = "", ""
        e.msgctxt = e.msgctxt or None
        e.comment = e.com
        doc.added.append(e)
        if e.pl:
            e.forms = {0: self.text(rng), 1: self.text(rng)}
        elif self.source_kind == "pot":
            e.forms = {5: self.text(rng)}
        return e

    def dropped_text(self, doc, keep, forms):
        out = [doc.normal_head]
        for e in doc.ents + doc.added:
            if e.id in keep:
                out.append("\n" + self.head(e) + self.body(e, forms[e.id]))
        return "".join(out)

    def wellformed(self, content):
        polib.pofile(content)

    def bad_source(self, rng):
        return ['msgid "a"\nmsgstr "b"\n\nmsgid "a"\nmsgstr "c"\n', 'msgid "a\n', 'msgid "a"\nmsgid_plural "b"\nmsgstr "x"\n']


class PoDirect(Po):
    """compiled without synchronising first"""
    name = "PO_DIRECT"
    has_sync = False
    drop_mode = "keep"
    exact_drop = False


class Pot(Po):
    name = "POT"
    source_kind = "pot"

    other_kinds = ["sg", "pl", "sg"]

    def read(self, handler, content):
        # what compilation writes is a PO file
        return handler.parse(content, is_source=True)


class PoTarget(Po):
    """a translation file"""
    name = "PO_TARGET"
    parse_kwargs = {}


BINDINGS = [Po, PoDirect, Pot, PoTarget]
