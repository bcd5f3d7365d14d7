"""C15: PO and POT files."""
import itertools
import polib
from . import tlc, engine, core
from .b_po import field, wild, esc, po_key, TEXT, META, IDS

SHAPES = [("e",), ("s",), ("t",), ("e", "e"), ("t", "t"), ("t", "e"), ("e", "t"), ("s", "e"), ("s", "t"), ("s", "s"), ("t", "t", "t"), ("t", "t", "e"), ("t",)]


def text_of(ch, rng):
    if ch == "e":
        return ""
    if ch == "s":
        return rng.choice([" ", "  ", "\n", "\t", " \n "])
    for _ in range(50):
        t = TEXT(rng)
        if t.strip():
            return t
    return "x"


def render(c, rng):
    """file text and, per entry, id, plural id, context, forms"""
    out, info = [], []
    used = set()
    # (without a header polib takes the first empty message id for it)
    if rng.random() < .7 or any(e["fault"] == "noid" for e in c["doc"]):
        out.append('# \nmsgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n')
    elif rng.random() < .5:
        out.append('msgid ""\nmsgstr "Project: x\\n"\n')
    for i, e in enumerate(c["doc"]):
        if e["fault"] == "dup":
            cand = [x for x in info if (x["b"] is not None) == e["pl"]]
            src = rng.choice(cand)
            a, b, ctx = src["a"], src["b"], src["ctx"]
            if not ctx and rng.random() < .3:
                ctx = None if ctx == "" else ""      # no context and an empty one are the same
        else:
            for _ in range(100):
                a = IDS(rng)
                b = IDS(rng) if e["pl"] else None
                ctx = META(rng) if rng.random() < .3 else (None if rng.random() < .9 else "")
                if used and rng.random() < .4:
                    # the same text in another context or with another plural
                    a = rng.choice(sorted(used, key=repr))[0]
                if b is not None and not b.strip():
                    continue
                if a and (a, b, ctx or "") not in used:
                    break
            used.add((a, b, ctx or ""))
        forms = [text_of(ch, rng) for ch in e["f"]]
        flags = [f for f in ("python-format", "no-wrap") if rng.random() < .2]
        if e["fz"]:
            flags.insert(rng.randint(0, len(flags)), "fuzzy")
        s = ""
        if rng.random() < .2:
            s += "#. note\n"
        if flags:
            s += "#, %s\n" % ", ".join(flags)
        if ctx is not None:
            s += wild("msgctxt", ctx, rng)
        if e["fault"] == "noid":
            # an empty id with a context is an entry, without one the header
            s = "#, fuzzy\n" if e["fz"] else ""
            s += field("msgctxt", ctx or "some context")
            s += 'msgid ""\n'
        else:
            s += wild("msgid", a, rng)
        if b is not None:
            s += wild("msgid_plural", b, rng)
        if b is None:
            if e["fault"] == "wrongkind":
                s += 'msgstr[0] "%s"\n' % esc(text_of("t", rng))
            else:
                s += wild("msgstr", forms[0], rng)
        else:
            if e["fault"] == "wrongkind":
                s += 'msgstr "%s"\n' % esc(text_of("t", rng))
                if rng.random() < .5:
                    s += "".join(field("msgstr", t, "[%d]" % n) for n, t in enumerate(forms))
            else:
                each = [wild("msgstr", t, rng, "[%d]" % n) for n, t in enumerate(forms)]
                if rng.random() < .1:
                    rng.shuffle(each)
                s += "".join(each)
        out.append(s)
        info.append(dict(a=a, b=b, ctx=ctx, forms=forms))
    return "\n".join(out), info


def run(rep, deep):
    from openformats.formats.po import PoHandler
    from openformats.exceptions import ParseError
    # every combination of empty, blank and filled forms
    every = set(f for n in range(1, 5 if not deep else 7) for f in itertools.product("est", repeat=n))
    jobs = [(dict(MAXLEN=1, FORMS=every, FAULTS=set(), EMIT=True), None, None),
            (dict(MAXLEN=2, FORMS=set(SHAPES), FAULTS=set(), EMIT=True), None, 6000 if not deep else None),
            (dict(MAXLEN=2, FORMS={("t",), ("e",), ("t", "t"), ("e", "e")}, FAULTS={"dup", "noid", "wrongkind"}, EMIT=True), None, 2000 if not deep else None),
            (dict(MAXLEN=3, FORMS={("t",), ("e",), ("s",), ("t", "t")}, FAULTS=set(), EMIT=True), None, 3000 if not deep else None),
            (dict(MAXLEN=7, FORMS={("t",), ("t", "t"), ("s",), ("t", "t", "t")}, FAULTS={"dup", "wrongkind"}, EMIT=True), 400 if not deep else 4000, 3000 if not deep else 30000),
            (dict(MAXLEN=7, FORMS={("e",), ("e", "e"), ("s",), ("s", "e"), ("t",)}, FAULTS={"dup"}, EMIT=True), 300 if not deep else 4000, 2000 if not deep else 30000)]
    for defs, sim, cap in jobs:
        r = tlc.run("PoClass", defs, invariants=["InvNoLeak", "InvAllOfTemplate", "InvComplete", "Emit"], simulate=sim, depth=20, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cases = r.cases
        by = {}
        for c in cases:
            by.setdefault(c["verdict"], []).append(c)
        cases = []
        for v, cs in sorted(by.items()):
            rng = engine.rng_for(rep.seed, "po", v)
            cases += cs if not cap or len(cs) <= cap // 2 else rng.sample(cs, cap // 2)
        rep.distinct += len(cases)
        for n, c in enumerate(cases):
            if n % 2000 == 1:
                rep.sample(c)
            one(rep, c, PoHandler, ParseError)


def one(rep, c, PoHandler, ParseError):
    rng = engine.rng_for(rep.seed, "poc", c)
    src, info = render(c, rng)
    rep.count(c["verdict"], 1, 1 + len(c["extracted"]))
    ids = [(i["a"], i["b"], i["ctx"] or "") for i in info]
    h = PoHandler()
    try:
        po, ss = h.parse(src, is_source=True) if c["source"] else h.parse(src)
        ss, got = list(ss), "ok"
    except ParseError as e:
        got = "error"
    except Exception as e:
        got = "%s: %s" % (type(e).__name__, e)
    want = "error" if c["verdict"] == "error" else "ok"
    if got != want:
        rep.fail("file classified differently", "expected %s got %s; is_source=%s %r" % (c["verdict"], got, c["source"], src), case=c)
        return
    if got == "error":
        return
    exp = []
    for x in c["extracted"]:
        i = info[x["i"] - 1]
        key = po_key(i["a"], i["b"]) if i["b"] is not None else po_key(i["a"])
        if i["b"] is None:
            f = {5: i["a"] if x["from"] == "id" else i["forms"][0]}
        else:
            f = {0: i["a"], 1: i["b"]} if x["from"] == "id" else dict(enumerate(i["forms"]))
        exp.append((key, i["ctx"] or "", i["b"] is not None, f, x["fuzzy"]))
    gots = [(s.key, s.context or "", bool(s.pluralized), dict(s.strings), bool(s.fuzzy)) for s in ss]
    # blank strings are kept or left out by the rules above, so compare all
    if gots != exp:
        rep.fail("extracted strings differ", "expected %s got %s; is_source=%s %r" % (core.short(exp), core.short(gots), c["source"], src), case=c)
        return
    # what is left in the template, and what compiling it without any string says
    left = [exp[n] for n, x in enumerate(c["extracted"]) if not x["fuzzy"]]
    tm = [(po_key(e.msgid, e.msgid_plural) if e.msgid_plural else po_key(e.msgid), e.msgctxt or "", e.msgstr_plural.get("0") or e.msgstr_plural.get(0) if e.msgid_plural else e.msgstr) for e in po]
    import hashlib
    et = [(k, x, hashlib.md5((k + ":" + x).encode()).hexdigest() + ("_pl" if p else "_tr")) for k, x, p, f, z in left]
    if tm != et:
        rep.fail("template entries differ", "expected %s got %s; %r" % (core.short(et), core.short(tm), src), case=c)
        return
    try:
        out = h.compile(po, ss)
        back = polib.pofile(out)
        b = [(e.msgid, e.msgid_plural or None, e.msgctxt or "", dict((int(k), v) for k, v in e.msgstr_plural.items()) if e.msgid_plural else {5: e.msgstr}) for e in back]
        eb = [(info[x["i"] - 1]["a"], info[x["i"] - 1]["b"], exp[n][1], exp[n][3]) for n, x in enumerate(c["extracted"]) if not x["fuzzy"]]
        if b != eb:
            rep.fail("compiled file differs", "expected %s got %s" % (core.short(eb), core.short(b)), case=c)
    except Exception as e:
        rep.fail("compile fails", "%s: %s; %r" % (type(e).__name__, e, src), case=c)
