"""C23: the positional XML reader.  Also the inline-tag escaping of C10, which is built on it."""
from xml.parsers import expat
from . import tlc, engine

NAMES = ["a", "b", "ab", "string", "string-array", "strings", "item", "xliff:g", "a.b", "é", "x", "_", "B"]
KEYS = ["name", "id", "quantity", "k", "xml:lang", "é", "a-b"]
VALS = ["", "x", "a b", ">", "/>", "a=b", "&quot;", "-->", "é", "日", "]]>", "/", "' ", "\n", "</a>", "=", "<!-- "]
TEXTS = ["x", " ", "\n", "hello", "a > b", "&lt;b&gt;", "é日", "]]", "-->", "'", '"', "/", "=", "a/b", "\t", "&amp;", "\U0001f600", "\n\n  y\n", "/>", "!--"]
CDATA = ["", "x", "<a>", "</a>", "]", "]]", "[0]><b/>", "a]>b", "]] >", "<", "a > b", "<!-- ", "]>", "\n", "</string>", "<![CDATA["]
COMMENTS = ["", " x ", "- >", "a->b", "<a>", "</a>", ">", " - ", "\n", "a=b", '"', "<![CDATA[", "]]>"]
WS = ["", "", "", " ", "\n", " \n\t"]
GAP = [" ", "  ", "\n", "\t "]


def tag(rng, name):
    """ (text of the tag up to its end bracket, attributes with offsets in it) """
    out, attrs, seen = "<" + name, [], set()
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        key = rng.choice(KEYS)
        if key in seen:
            continue
        seen.add(key)
        q = rng.choice("\"'")
        val = rng.choice(VALS).replace("<", "&lt;")
        val = val.replace(q, "")
        out += rng.choice(GAP)
        kp = len(out)
        out += key + rng.choice(WS) + "=" + rng.choice(WS) + q
        attrs.append((kp, key, len(out), val))
        out += val + q
    return out + rng.choice(WS), attrs


def render(c, rng):
    names, txt, attrs, tpos = {}, [""], {}, {}
    stack = []
    for n, t in enumerate(c["toks"], 1):
        s = ""
        if t in "OE":
            names[n] = rng.choice(NAMES)
            s, attrs[n] = tag(rng, names[n])
            s += ">" if t == "O" else "/" + rng.choice(WS) + ">"
            if t == "O":
                stack.append(n)
        elif t == "C":
            s = "</" + names[stack.pop()] + rng.choice(WS) + ">"
        elif t == "T":
            s = rng.choice(TEXTS)
            if not stack:
                s = rng.choice(["\n", " ", " \n"])
        elif t == "D":
            s = "<![CDATA[" + rng.choice(CDATA) + "]]>"
        elif t == "M":
            s = "<!--" + rng.choice(COMMENTS) + "-->"
        txt.append(s)
    # "]]>" may not appear in text; a text run is joined from several tokens
    pos, out = [0], ""
    for s in txt[1:]:
        pos.append(len(out))
        out += s
    pos.append(len(out))
    return out, pos, names, txt, attrs


def fault_tail(c, rng, names):
    f, top = c["fault"], c["open"][-1]
    if f == "ends":
        return ""
    if f == "wrong-close":
        name = names[top]
        other = rng.choice([n for n in NAMES + [name + "s", name + "x", name[:-1] or "zz", name.upper() + "q"] if n != name])
        return "</" + other + ">" + "".join("</%s>" % names[o] for o in reversed(c["open"][:-1] if rng.random() < .5 else c["open"]))
    if f == "open-tag":
        return tag(rng, rng.choice(NAMES))[0]
    if f == "comment":
        return "<!--" + rng.choice(["", " x", " --", " -- >"])
    if f == "attribute":
        q = rng.choice("\"'")
        return "<" + rng.choice(NAMES) + " k=" + q + rng.choice(VALS).replace(q, "")
    if f == "cdata":
        return "<![CDATA[" + rng.choice(["", "x", "]]", "<a>", "</%s>" % names[top]])
    if f == "close-tag":
        return "</" + names[top] + rng.choice(WS)
    raise AssertionError(f)


def run(rep, deep, what="reader"):
    jobs = [(dict(MAXLEN=7 if not deep else 8, EMIT=True), None, 14000 if not deep else 90000, 1 if not deep else 2),
            (dict(MAXLEN=26, EMIT=True), 12000 if not deep else 40000, 12000 if not deep else 60000, 1)]
    if what != "reader" and not deep:
        jobs = [(dict(MAXLEN=6, EMIT=True), None, 3000, 1), (dict(MAXLEN=26, EMIT=True), 3000, 3000, 1)]
    for defs, sim, cap, reps in jobs:
        r = tlc.run("XmlReader", defs, invariants=["InvNested", "InvParent", "InvTiles", "Emit"], simulate=sim, depth=40, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cases = r.cases
        if cap and len(cases) > cap:
            whole = [c for c in cases if not c["fault"]]
            broken = [c for c in cases if c["fault"]]
            g = engine.rng_for(rep.seed, "xml")
            whole = g.sample(whole, min(len(whole), cap * 2 // 3))
            cases = whole + g.sample(broken, min(len(broken), cap - len(whole)))
        rep.distinct += len(cases)
        for n, c in enumerate(cases):
            if n % 3000 == 1:
                rep.sample(c)
            for k in range(reps):
                if what == "reader":
                    one(rep, c, k)
                else:
                    escaping(rep, c, k)


def well_formed(src):
    p = expat.ParserCreate()
    try:
        p.Parse(src.encode("utf-8"), True)
    except expat.ExpatError:
        return False
    return True


def one(rep, c, k):
    from openformats.utils.xml import NewDumbXml, DumbXmlSyntaxError
    rng = engine.rng_for(rep.seed, "xml", c, k)
    src, pos, names, txt, attrs = render(c, rng)

    def fail(what, detail):
        rep.fail(what, "%s; %r" % (detail, src), case=c)

    if c["fault"]:
        src = src + fault_tail(c, rng, names)
        if well_formed(src):
            return
        rep.count("faulty documents", 1, 1)
        try:
            dx = NewDumbXml(src)
            list(dx.find_descendants())
            dx.content, dx.attrib, dx.tail
        except DumbXmlSyntaxError:
            return
        except Exception as e:
            return fail("a malformed document crashed the reader (%s)" % c["fault"], "%s: %s" % (type(e).__name__, e))
        return fail("a malformed document was accepted (%s)" % c["fault"], "")

    if "]]>" in "".join(t if x in "T" else "|" for x, t in zip(c["toks"], txt[1:])):
        return
    if not well_formed(src):
        return                     # adjacent texts that add up to something special
    rep.count("documents", 1, len(c["nodes"]))
    by = {}
    for i in c["nodes"]:
        by.setdefault(i["p"], []).append(i)

    def tagname(n):
        return "!--" if n["kind"] == "comment" else names[n["o"]]

    def checks(dx, n):
        o, e, le = n["o"], n["c"], n["le"]
        tail = src[pos[e] + len(txt[e]):pos[le]]
        if n["kind"] == "comment":
            t0, t1 = pos[o] + 4, pos[o] + len(txt[o]) - 3
            want = [("tag", "!--"), ("text", src[t0:t1]), ("text_position", t0), ("content", src[t0:t1]), ("content_end", t1), ("attrib", {})]
        elif n["kind"] == "single":
            want = [("tag", names[o]), ("text", None), ("text_position", None), ("content", None), ("content_end", None)]
        else:
            t0 = pos[o] + len(txt[o])
            want = [("tag", names[o]), ("text", src[t0:pos[n["te"]]]), ("text_position", t0), ("content", src[t0:pos[e]]), ("content_end", pos[e])]
        if n["kind"] != "comment":
            at = [(pos[o] + a, key, pos[o] + v, val) for a, key, v, val in attrs[o]]
            want += [("attributes", at), ("attrib", {key: val for _, key, _, val in at})]
        want += [("position", pos[o]), ("tail", tail), ("tail_position", pos[e] + len(txt[e])), ("end", pos[le])]
        rng.shuffle(want)          # the properties are computed lazily: any order must do
        for name, val in want:
            got = getattr(dx, name)
            if got != val:
                fail("%s differs" % name, "%s: expected %r got %r" % (tagname(n), val, got))
                return False
        return True

    def walk(dx, n):
        early = rng.random() < .5
        if early and not checks(dx, n):
            return False
        kids, got = by.get(n["o"], []) if n["kind"] == "element" else [], []
        for kid in dx:
            got.append(kid)
            if len(got) > len(kids):
                break
            if not walk(kid, kids[len(got) - 1]):
                return False
        if len(got) != len(kids):
            fail("children differ", "%s: expected %d got %d" % (tagname(n), len(kids), len(got)))
            return False
        if not early and not checks(dx, n):
            return False
        ask = rng.sample(NAMES + ["!--"], rng.randint(0, 3))
        want = [(tagname(x), pos[x["o"]]) for x in kids if not ask or tagname(x) in ask]
        if [(x.tag, x.position) for x in dx.find_children(*ask)] != want:
            fail("find_children differs", repr((ask, want)))
            return False
        deep = [(tagname(x), pos[x["o"]]) for x in c["nodes"]
                if n["o"] < x["o"] < n["c"] and (not ask or tagname(x) in ask)]
        if [(x.tag, x.position) for x in dx.find_descendants(*ask)] != deep:
            fail("find_descendants differs", repr((ask, deep)))
            return False
        return True

    try:
        lead = rng.choice(["", "", "\n", "junk ", "<![CDATA[<a>]]>"])
        if lead:
            shift = len(lead)
            src = lead + src
            pos[1:] = [p + shift for p in pos[1:]]
        if walk(NewDumbXml(src, 0 if rng.random() < .5 else len(lead)), c["nodes"][0]):
            n = rng.choice([n for n in c["nodes"]])
            walk(NewDumbXml(src, pos[n["o"]]), n)
    except Exception as e:
        fail("a well-formed document crashed the reader", "%s: %s" % (type(e).__name__, e))


def escaping(rep, c, k):
    """ utils.xml.escape: the text and the foreign tags are escaped, the inline tags are left alone """
    from openformats.utils.xml import escape
    rng = engine.rng_for(rep.seed, "xmlesc", c, k)
    src, pos, names, txt, attrs = render(c, rng)
    esc = lambda s: s.replace("\\", "\\\\").replace('"', '\\"').replace("'", "\\'").replace("\n", "\\n")
    inline = rng.sample(NAMES, rng.randint(0, 6))
    if c["fault"]:
        string = src + fault_tail(c, rng, names)
        if well_formed("<x>%s</x>" % string):
            return
        want = esc(string)
    else:
        string = src
        if not well_formed("<x>%s</x>" % string) or "]]>" in "".join(t if x in "T" else "|" for x, t in zip(c["toks"], txt[1:])):
            return
        own = {}
        for n in c["nodes"]:
            own[n["o"]] = own[n["c"]] = n["kind"] != "comment" and names[n["o"]] in inline
        want = "".join(txt[i] if own.get(i) else esc(txt[i]) for i in range(1, len(txt)))
    rep.count("strings with inline tags", 1, 1)
    try:
        got = escape(string, inline, esc)
    except Exception as e:
        return rep.fail("escaping crashed", "%s: %s; %r" % (type(e).__name__, e, string), case=c)
    if got != want:
        rep.fail("escaping differs", "expected %r got %r; %r inline %r" % (want, got, string, inline), case=c)
