"""C10: escaping and unescaping."""
import json
from xml.parsers import expat
from . import tlc, engine, u_xmlreader

UNI = ["é", "日", "\u00a0", "ß", "\u2028", "\u0085", "\x7f", "\ufeff", "ä"]
CTL = [chr(i) for i in range(32) if chr(i) not in "\n\t\r\b\f"]
FIXED = {"NL": "\n", "TAB": "\t", "CR": "\r", "BS": "\b", "FF": "\f"}


class Words:
    """ what each symbol of one case stands for, the same on both sides """
    def __init__(self, c, rng):
        self.rng, self.c = rng, c
        self.queues = {}

    def text(self, seq):
        return "".join(self.word(x, n) for n, x in enumerate(seq))

    def word(self, x, n):
        raise NotImplementedError


def sides(c, rng):
    """ (text, body) """
    if c["fmt"] != "json":
        uni, let = rng.choice(UNI), rng.choice(["x", "a b", "N", "0", "%1$s", "#"])
        m = dict(FIXED, UNI=uni, x=let)
        return "".join(m.get(x, x) for x in c["text"]), "".join(m.get(x, x) for x in c["body"])
    ctl, uni, ast = rng.choice(CTL), rng.choice(UNI), rng.choice(["\U0001f600", "\U00010000", "\U0010ffff"])
    bmp = rng.choice(["é", "A", "\u2028", "\ufffe", "\u0000", "日", "\ud7ff", "\ue000"])
    hi, lo = rng.choice(["d83d", "D800", "dbff"]), rng.choice(["de00", "DC00", "dfff"])
    u = rng.choice(["{:04x}", "{:04X}"])
    m = dict(FIXED, CTL=ctl, UNI=uni, AST=ast, PAIR=json.loads('"\\u%s\\u%s"' % (hi, lo)))
    m.update({"hex": "{:04x}".format(ord(ctl)), "\\uBMP": bmp, "\\uHI": chr(int(hi, 16)), "\\uLO": chr(int(lo, 16))})
    text = "".join(m.get(x, x) for x in c["text"])
    m.update({"\\uBMP": "\\u" + u.format(ord(bmp)), "\\uHI": "\\u" + hi, "\\uLO": "\\u" + lo})
    return text, "".join(m.get(x, x) for x in c["body"])


def xml_text(body):
    out = []
    p = expat.ParserCreate()
    p.CharacterDataHandler = out.append
    try:
        p.Parse(("<s>%s</s>" % body).encode("utf-8"), True)
    except expat.ExpatError as e:
        return None
    return "".join(out)


def handlers(fmt):
    from openformats.formats import json as j, android, android_unescaped, stringsdict
    return dict(json=[j.JsonHandler, j.ArbHandler, j.StructuredJsonHandler, j.ChromeI18nHandler, j.ChromeI18nHandlerV3],
                android=[android.AndroidHandler], unescaped=[android_unescaped.AndroidUnescapedHandler],
                sax=[stringsdict.StringsDictHandler])[fmt]


def run(rep, deep):
    from openformats.formats import json as j
    jobs = []
    for fmt in ("json", "android", "unescaped", "sax"):
        jobs.append((dict(FMT=fmt, BODY=False, MAXLEN=3 if not deep else 4), None, 5000 if not deep else None))
        jobs.append((dict(FMT=fmt, BODY=False, MAXLEN=14), 60 if not deep else 3000, 2500 if not deep else 60000))
    jobs.append((dict(FMT="json", BODY=True, MAXLEN=3 if not deep else 4), None, 6000 if not deep else None))
    jobs.append((dict(FMT="json", BODY=True, MAXLEN=14), 60 if not deep else 3000, 2500 if not deep else 60000))
    for defs, sim, cap in jobs:
        r = tlc.run("Escape", dict(defs, EMIT=True), invariants=["InvInverse", "InvClosed", "InvUntouched", "Emit"], simulate=sim, depth=16, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cases = r.cases
        if cap and len(cases) > cap:
            cases = engine.rng_for(rep.seed, "esc", defs["FMT"]).sample(cases, cap)
        rep.distinct += len(cases)
        for n, c in enumerate(cases):
            if n % 4000 == 1:
                rep.sample(c)
            one(rep, c, defs["BODY"])
    u_xmlreader.run(rep, deep, "escape")
    android_tags(rep, deep)


def one(rep, c, body_only):
    rng = engine.rng_for(rep.seed, "esc", c)
    text, body = sides(c, rng)
    rep.count("texts (%s)" % c["fmt"], 1, 1)

    def fail(what, detail):
        rep.fail("%s: %s" % (c["fmt"], what), detail, case=c)

    hs = handlers(c["fmt"])
    H = hs[rng.randrange(len(hs))]
    try:
        if not body_only:
            got = H.escape(text)
            if got != body:
                return fail("escaped text differs", "%r: expected %r got %r" % (text, body, got))
        if c["ok"]:
            got = H.unescape(body)
            if got != text:
                return fail("unescaped text differs", "%r: expected %r got %r" % (body, text, got))
    except Exception as e:
        return fail("crashed", "%r: %s: %s" % (text, type(e).__name__, e))
    # the format's own reader
    if c["fmt"] == "json":
        if json.loads('"%s"' % body) != text:
            fail("JSON reads the escaped text differently", "%r: %r" % (text, body))
    elif c["fmt"] in ("sax", "unescaped"):
        read = xml_text(body)
        want = text if c["fmt"] == "sax" else None
        if read is None:
            fail("the escaped text is not well-formed XML", repr(body))
        elif want is not None and read != want:
            fail("XML reads the escaped text differently", "%r: %r" % (want, read))


def android_tags(rep, deep):
    """ texts with inline and foreign markup, well-formed or not """
    from openformats.formats.android import AndroidHandler
    from openformats.formats.android_unescaped import AndroidUnescapedHandler
    r = tlc.run("XmlReader", dict(MAXLEN=6, EMIT=True), invariants=["Emit"], workers=4)
    rep.tlc(r)
    cases = r.cases
    if not deep:
        cases = engine.rng_for(rep.seed, "tags").sample(cases, min(len(cases), 4000))
    for c in cases:
        rng = engine.rng_for(rep.seed, "tags", c)
        src, pos, names, txt, attrs = markup(c, rng)
        rep.count("texts with markup", 1, 2)
        for H in (AndroidHandler, AndroidUnescapedHandler):
            try:
                e = H.escape(src)
                u = H.unescape(e)
            except Exception as x:
                rep.fail("escaping crashed", "%s: %s: %s; %r" % (H.__name__, type(x).__name__, x, src), case=c)
                continue
            if u != src:
                rep.fail("unescaping does not invert escaping", "%s: %r: %r: %r" % (H.__name__, src, e, u), case=c)
            elif H is AndroidUnescapedHandler:
                if xml_text(e) is None:
                    rep.fail("the escaped text is not well-formed XML", "%r: %r" % (src, e), case=c)
            elif (xml_text(src) is None) != (xml_text(e) is None):
                rep.fail("escaping changed whether the text is well-formed", "%r: %r" % (src, e), case=c)


TXT = ["x", " ", "@", "?", "'", '"', "@string/a", "é", "\t", "a b", "it's", "x@y", "%1$s"]
OUT = TXT + ["\n", "&", ">", "&lt;", "<"]


def markup(c, rng):
    """ renders a document without anything Android leaves to the author inside of inline tags """
    names, txt, stack, out = {}, [""], [], ""
    from openformats.formats.android import AndroidHandler
    for n, t in enumerate(c["toks"], 1):
        top = not stack
        if t in "OE":
            names[n] = rng.choice(["b", "i", "a", "xliff:g", "x", "y", "br"])
            s = "<" + names[n] + ("" if names[n] in "xy" else rng.choice(["", "", ' id="1"', ' href="u"'])) + (">" if t == "O" else "/>")
            if t == "O":
                stack.append(n)
        elif t == "C":
            s = "</" + names[stack.pop()] + ">"
        elif t == "T":
            inline = any(names[o] in AndroidHandler.INLINE_TAGS for o in stack)
            s = rng.choice(TXT if inline else OUT)
        elif t == "D":
            s = "<![CDATA[" + rng.choice(["", "x", "<b>", "it's", '"q"', "a & b"]) + "]]>"
        else:
            s = "<!--" + rng.choice(["", "x", "'"]) + "-->"
        out += s
    if c["fault"]:
        out += rng.choice(["", "</zz>", "<", "<b", "</", "<!--", '<a href="u'])
    lead = rng.choice(["", "", "@", "x", "'", "@string/"])
    return lead + out + rng.choice(["", "", "@", " '", "</x>"]), None, names, txt, None
