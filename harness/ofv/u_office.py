"""C17: paragraphs and cells of office documents."""
import io, re, zipfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr
from . import tlc, engine

W = "http://schemas.openxmlformats.org/wordprocessingml/2006/main"
R = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
A = "http://schemas.openxmlformats.org/drawingml/2006/main"
P = "http://schemas.openxmlformats.org/presentationml/2006/main"
S = "http://schemas.openxmlformats.org/spreadsheetml/2006/main"
PR = "http://schemas.openxmlformats.org/package/2006/relationships"
CT = "http://schemas.openxmlformats.org/package/2006/content-types"
XSPACE = "{http://www.w3.org/XML/1998/namespace}space"
HEAD = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
LINK = R + "/hyperlink"

WORDS = ["word", "a & b", "x < y", "<b>bold</b>", "&amp; &lt;", '"q"', "it's", "né 中文", "in\tside", "two  blanks", "trailing ", "]]>",
         "<txt>", "tx>", "100%", "\U0001f600", "-->", "&#65;", "a/b\\c", "<tex", "</t>"]


def token(rng, sym, n):
    """ the text of a symbol: not empty, no white space in front, unique """
    w = rng.choice(WORDS) if rng.random() < .45 else "word"
    if rng.random() < .5 or w[0].isspace():
        return "%s%d%s" % (sym, n, " " + w if rng.random() < .5 else w)
    return "%s %s%d" % (w, sym, n)


def url(sym, n, style=0):
    """ the address of a link symbol; the addresses of a style differ little """
    if sym == "":
        return ""
    k = int("".join(c for c in sym if c.isdigit()) or 0)
    if style == 1:          # in letter case only
        return "https://example.com/%d/" % n + "".join(c.upper() if (k + 1) >> i & 1 else c for i, c in enumerate("pqrs"))
    if style == 2:          # one begins with the other
        return "https://example.com/%d" % n + "/a" * k
    if style == 3:          # in the query or the anchor
        return "http://example.com/%d%s" % (n, ["", "?", "#", "?x=%20", "#a"][k % 5] + "z" * (k // 5))
    if style == 4:
        return "mailto:%s@example.com?subject=a%%20b%d" % (sym, n)
    if style == 5:          # in the end of the address only
        return "file:///c:/%d/it's%s" % (n, "/" if k == 1 else " " if k == 2 else k)
    return "https://example.com/%s/%d?a=1&b=%s" % (sym, n, sym)


class Piece(object):
    """ one generated paragraph: source, translation and expectation """

    def __init__(self, case, n, rng, dialect):
        self.c, self.n, self.rng, self.d = case, n, rng, dialect
        self.map = {}
        self.ws = {}
        for i, r in enumerate(case["par"]):
            if r["k"] == "sp":
                self.ws[i] = "".join(rng.choice("   \t\u00a0" if rng.random() < .3 else " ") for _ in range(r["n"]))
        self.merging = dialect in ("docx", "pptx")
        self.style = rng.choice([0, 0, 0, 1, 2, 3, 4, 5])

    def tok(self, sym):
        if sym == "":
            return ""
        if sym not in self.map:
            self.map[sym] = token(self.rng, sym, self.n)
        return self.map[sym]

    def url(self, sym):
        return url(sym, self.n, self.style)

    def source_text(self, i):
        r = self.c["par"][i]
        if r["k"] == "sp":
            return self.ws[i]
        return " " * r["n"] + self.tok(r["b"])

    def part_text(self, p, slot=None, changed=True):
        if p["b"] == "" and not self.merging and slot is not None and not changed:
            return self.ws[slot]
        return " " * p["n"] + self.tok(p["b"])

    def extracted(self):
        out = []
        for s, p in zip(self.c["slots"], self.c["parts"]):
            i = s - 1
            out.append((self.part_text(p, i, False), self.url(p["h"])))
        return out

    def translation(self):
        out = []
        for k, p in enumerate(self.c["tr"]):
            same = k < len(self.c["parts"]) and self.c["parts"][k] == p
            out.append((self.part_text(p, self.c["slots"][k] - 1 if same else None, not same), self.url(p["h"])))
        return out

    def after(self):
        """ expected text of every run, with its original index """
        out = []
        tr = self.c["tr"]
        for i, a in enumerate(self.c["after"]):
            r = self.c["par"][i]
            if r["k"] == "sp" and self.merging:
                out.append(self.ws[i] if a["text"] else "")
                continue
            t = ""
            for p in a["text"]:
                t += " " * p["n"] + self.tok(p["b"])
            if r["k"] == "sp" and i + 1 in self.c["slots"]:
                k = self.c["slots"].index(i + 1)
                if k < len(tr) and tr[k] == self.c["parts"][k] and a["text"]:
                    t = self.ws[i] + t[r["n"]:]
            out.append(t)
        return out


def markers(parts, shape, rng):
    """ a translation with markers """
    def esc(u):
        return u
    if shape == "bare":
        return "".join(t for t, _ in parts)
    if shape in ("each", "extra-close", "extra-open"):
        out = [('<tx href="%s">%s</tx>' % (esc(u), t) if u else "<tx>%s</tx>" % t) for t, u in parts]
        if shape == "extra-close":
            out.insert(rng.randint(0, len(out)), "</tx>")
        elif shape == "extra-open":
            out.insert(rng.randint(0, len(out)), "<tx>")
        return "".join(out)
    out, i, bare = [], 0, False
    while i < len(parts):
        t, u = parts[i]
        if not u:
            if bare or (shape == "source" and rng.random() < .5):
                out.append("<tx>%s</tx>" % t)
                bare = False
            else:
                out.append(t)
                bare = True
            i += 1
            continue
        j = i
        while j < len(parts) and parts[j][1] == u:
            j += 1
        inner = []
        for k in range(i, j):
            inner.append(parts[k][0] if k == i and shape == "source" else "<tx>%s</tx>" % parts[k][0])
        out.append('<tx href="%s">%s</tx>' % (esc(u), "".join(inner)))
        bare = False
        i = j
    return "".join(out)


MARK = re.compile(r"""(<tx>|<tx href="[^"]*">|<tx href='[^']*'>|</tx>)""")


def read_markers(s):
    """ the parts of an extracted string; None when the markers are not balanced """
    stack, out = [], []
    for tok in MARK.split(s):
        if tok == "</tx>":
            if not stack:
                return None
            stack.pop()
        elif MARK.match(tok):
            m = re.search(r"""href=["'](.*)["']>$""", tok)
            stack.append(m.group(1) if m else (stack[-1] if stack else ""))
        elif tok:
            out.append((tok, stack[-1] if stack else ""))
    return None if stack else out


# ---------------------------------------------------------------- packages
def zipped(members):
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
        for name, data in members:
            z.writestr(name, data.encode("utf-8") if not isinstance(data, bytes) else data)
    return buf.getvalue()


def member(data, name):
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        return z.read(name).decode("utf-8")


def rels_xml(rels):
    return HEAD + '<Relationships xmlns="%s">%s</Relationships>' % (PR, "".join(
        "<Relationship Id=%s Type=%s Target=%s%s/>" % (quoteattr(i), quoteattr(t), quoteattr(u), ' TargetMode="External"' if ext else "")
        for i, t, u, ext in rels))


def space(t):
    return ' xml:space="preserve"' if t != t.strip() or "  " in t else ""


class Docx(object):
    part, relpart = "word/document.xml", "word/_rels/document.xml.rels"

    def __init__(self, pieces, rng):
        self.pieces, self.rng = pieces, rng
        self.rels = [("rId1", R + "/styles", "styles.xml", False)]
        self.xml = "".join(self.paragraph(p) for p in pieces)

    def link(self, p, l):
        rid = "rId%d" % (len(self.rels) + 1)
        sym = {1: "u1", 2: "u2", 3: "u1"}[l]
        self.rels.append((rid, LINK, p.url(sym), True))
        return rid

    def paragraph(self, p):
        out, cur, runs = [], 0, p.c["par"]
        out.append('<w:p><w:pPr><w:jc w:val="left"/></w:pPr>' if self.rng.random() < .5 else "<w:p>")
        out.append('<w:bookmarkStart w:id="%d" w:name="b%d"/>' % (p.n, p.n))
        i = 0
        while i < len(runs):
            r = runs[i]
            if r["l"] != cur:
                if cur:
                    out.append("</w:hyperlink>")
                if r["l"]:
                    out.append('<w:hyperlink r:id="%s">' % self.link(p, r["l"]))
                cur = r["l"]
            j = i + 1
            while j < len(runs) and runs[j]["j"]:
                j += 1
            out.append('<w:r w:rsidR="%d.%d">' % (p.n, i))
            if r["f"]:
                out.append('<w:rPr><w:sz w:val="%d"/></w:rPr>' % (r["f"] + 10))
            for k in range(i, j):
                if k > i:
                    out.append("<w:br/>")
                t = p.source_text(k)
                out.append("<w:t%s>%s</w:t>" % (space(t), escape(t)) if t else self.rng.choice(["<w:t/>", "<w:t></w:t>"]))
            out.append("</w:r>")
            if self.rng.random() < .1 and not cur:
                out.append('<w:proofErr w:type="spellStart"/>')
            i = j
        if cur:
            out.append("</w:hyperlink>")
        out.append('<w:bookmarkEnd w:id="%d"/></w:p>' % p.n)
        return "".join(out)

    def package(self):
        doc = HEAD + '<w:document xmlns:w="%s" xmlns:r="%s"><w:body>%s<w:sectPr/></w:body></w:document>' % (W, R, self.xml)
        return zipped([
            ("[Content_Types].xml", HEAD + '<Types xmlns="%s"><Default Extension="xml" ContentType="application/xml"/></Types>' % CT),
            ("_rels/.rels", rels_xml([("rId1", R + "/officeDocument", "word/document.xml", False)])),
            (self.part, doc), (self.relpart, rels_xml(self.rels)), ("word/styles.xml", "<w/>")])

    def handler(self):
        from openformats.formats.docx import DocxHandler
        return DocxHandler()

    def paragraphs(self, data):
        root = ET.fromstring(member(data, self.part))
        body = root.find("{%s}body" % W)
        kids = [k.tag.split("}")[1] for k in body]
        if kids != ["p"] * (len(kids) - 1) + ["sectPr"]:
            raise Damaged("the body of the document has other children: %r" % kids)
        return list(body)[:-1], rels_of(member(data, self.relpart))

    def observe(self, par, rels):
        """ [(index, text, link target or '', format or 0)] of the runs """
        out, other = [], []

        def go(e, link):
            for k in e:
                tag = k.tag.split("}")[1]
                if tag == "hyperlink":
                    rid = k.get("{%s}id" % R)
                    if rid not in rels:
                        raise Damaged("link to an unknown relationship %s" % rid)
                    go(k, rels[rid])
                elif tag == "r":
                    sz = k.find("{%s}rPr/{%s}sz" % (W, W))
                    text = "".join(text_of(t, k) for t in k.iter("{%s}t" % W))
                    out.append((int(k.get("{%s}rsidR" % W).split(".")[1]), text, link, int(sz.get("{%s}val" % W)) - 10 if sz is not None else 0))
                    other.extend("br" for _ in k.iter("{%s}br" % W))
                elif tag == "t":
                    raise Damaged("text outside of a run")
                else:
                    other.append(tag)
        go(par, "")
        return out, other


def text_of(t, run):
    s = t.text or ""
    if len(t):
        raise Damaged("elements inside a text")
    return s


class Damaged(Exception):
    pass


def rels_of(xml):
    out = {}
    for e in ET.fromstring(xml):
        if e.get("Id") in out:
            raise Damaged("relationship %s is declared twice" % e.get("Id"))
        out[e.get("Id")] = e.get("Target")
    return out


class Pptx(object):
    v2 = False

    def __init__(self, pieces, rng):
        self.pieces, self.rng = pieces, rng
        # two slides, one of which has notes
        k = max(1, len(pieces) // 3)
        self.parts = [("slide1", pieces[:k]), ("slide2", pieces[k:2 * k]), ("notes", pieces[2 * k:])]
        self.rels = {"slide1": [("rId1", R + "/slideLayout", "../slideLayouts/slideLayout1.xml", False)],
                     "slide2": [("rId1", R + "/slideLayout", "../slideLayouts/slideLayout1.xml", False), ("rId2", R + "/notesSlide", "../notesSlides/notesSlide1.xml", False)],
                     "notes": [("rId1", R + "/slide", "../slides/slide2.xml", False)]}
        self.xml = {n: self.slide(n, ps) for n, ps in self.parts}

    FILES = {"slide1": ("ppt/slides/slide1.xml", "ppt/slides/_rels/slide1.xml.rels"),
             "slide2": ("ppt/slides/slide2.xml", "ppt/slides/_rels/slide2.xml.rels"),
             "notes": ("ppt/notesSlides/notesSlide1.xml", "ppt/notesSlides/_rels/notesSlide1.xml.rels")}

    def slide(self, name, ps):
        out, root = [], "notes" if name == "notes" else "sld"
        for n, p in enumerate(ps):
            x = self.paragraph(p, name)
            if n % 5 == 4:
                x = '<p:graphicFrame><a:tbl><a:tr><a:tc><a:txBody>%s</a:txBody></a:tc></a:tr></a:tbl></p:graphicFrame>' % x
            else:
                x = "<p:sp><p:txBody>%s</p:txBody></p:sp>" % x
            out.append(x)
        return HEAD + '<p:%s xmlns:a="%s" xmlns:r="%s" xmlns:p="%s"><p:cSld><p:spTree>%s</p:spTree></p:cSld></p:%s>' % (root, A, R, P, "".join(out), root)

    def paragraph(self, p, part):
        out, rid, cur = ['<a:p><a:pPr lvl="0"/>'], None, 0
        for i, r in enumerate(p.c["par"]):
            t = p.source_text(i)
            if r["l"] != cur:
                cur = r["l"]
                if cur:
                    rid = "rId%d" % (len(self.rels[part]) + 1)
                    self.rels[part].append((rid, LINK, p.url({1: "u1", 2: "u2", 3: "u1"}[cur]), True))
            if r["k"] == "fld":
                out.append('<a:fld id="{%d.%d}" type="slidenum" xid="%d.%d"><a:rPr lang="en-US"/><a:t>%s</a:t></a:fld>' % (p.n, i, p.n, i, escape(t)))
                continue
            out.append('<a:r xid="%d.%d">' % (p.n, i))
            if r["f"] or cur:
                click = '<a:hlinkClick r:id="%s"/>' % rid if cur else ""
                out.append('<a:rPr lang="en-US" sz="%d">%s</a:rPr>' % (r["f"] + 10, click) if click or self.rng.random() < .5 else '<a:rPr lang="en-US" sz="%d"/>' % (r["f"] + 10))
            out.append("<a:t>%s</a:t></a:r>" % escape(t) if t else "<a:t/></a:r>")
            if self.rng.random() < .1:
                out.append("<a:br/>")
        out.append('<a:endParaRPr lang="en-US"/></a:p>')
        return "".join(out)

    def package(self):
        t = "application/vnd.openxmlformats-officedocument.presentationml."
        over = [("/ppt/slides/slide2.xml", t + "slide+xml"), ("/ppt/slides/slide1.xml", t + "slide+xml"), ("/ppt/notesSlides/notesSlide1.xml", t + "notesSlide+xml")]
        mem = [("[Content_Types].xml", HEAD + '<Types xmlns="%s">%s</Types>' % (CT, "".join('<Override PartName="%s" ContentType="%s"/>' % o for o in over)))]
        for n, _ in self.parts:
            mem.append((self.FILES[n][0], self.xml[n]))
            mem.append((self.FILES[n][1], rels_xml(self.rels[n])))
        return zipped(mem)

    def handler(self):
        from openformats.formats import pptx
        return pptx.PptxHandlerV2() if self.v2 else pptx.PptxHandler()

    def paragraphs(self, data):
        out, rels = [], {}
        for n, ps in self.parts:
            root = ET.fromstring(member(data, self.FILES[n][0]))
            rl = rels_of(member(data, self.FILES[n][1]))
            pars = list(root.iter("{%s}p" % A))
            if len(pars) != len(ps):
                raise Damaged("%s has %d paragraphs instead of %d" % (n, len(pars), len(ps)))
            for p in pars:
                out.append(p)
                rels[id(p)] = rl
        return out, rels

    def observe(self, par, rels):
        out, other, rels = [], [], rels[id(par)]
        for k in par:
            tag = k.tag.split("}")[1]
            if tag in ("r", "fld"):
                text = "".join(text_of(t, k) for t in k.findall("{%s}t" % A))
                pr = k.find("{%s}rPr" % A)
                kids = [q.tag.split("}")[1] for q in k]
                if "rPr" in kids and kids.index("rPr") != 0:
                    raise Damaged("the properties of a run come after its text")
                link, f = "", 0
                if pr is not None:
                    f = int(pr.get("sz", 10)) - 10
                    cl = pr.findall("{%s}hlinkClick" % A)
                    if len(cl) > 1:
                        raise Damaged("a run has two links")
                    if cl:
                        rid = cl[0].get("{%s}id" % R)
                        if rid not in rels:
                            raise Damaged("link to an unknown relationship %s" % rid)
                        link = rels[rid]
                out.append((int(k.get("xid").split(".")[1]), text, link, f))
            elif tag == "t":
                raise Damaged("text outside of a run")
            else:
                other.append(tag)
        return out, other


class Pptx2(Pptx):
    v2 = True


DIALECTS = {"docx": ("DOCX", Docx), "pptx": ("PPTX", Pptx), "pptx2": ("PPTX_V2", Pptx2)}


def canon(e):
    """ an element without the identifiers the handler adds """
    return (e.tag, tuple(sorted((k, v) for k, v in e.attrib.items() if k != "txid")), e.text or "", tuple((canon(k), k.tail or "") for k in e))


def documents(rep, dialect, cases, size=8):
    for at in range(0, len(cases), size):
        document(rep, dialect, cases[at:at + size])


def document(rep, dialect, cases):
    from openformats.strings import OpenString
    name, cls = DIALECTS[dialect]
    rng = engine.rng_for(rep.seed, "office", dialect, cases)
    pieces = [Piece(c, n, rng, dialect) for n, c in enumerate(cases)]
    doc = cls(pieces, rng)
    data = doc.package()
    rep.count("documents (%s)" % name, 1, len(pieces))

    def fail(what, detail, p=None):
        src = ET.tostring(doc.paragraphs(data)[0][p.n], encoding="unicode")[:1500] if p is not None else ""
        rep.fail("%s: %s" % (name, what), "%s; paragraph %s" % (detail, src), case=dict(dialect=dialect, cases=cases), seed=rep.seed)

    try:
        template, strings = doc.handler().parse(data)
    except Exception as e:
        return fail("parsing crashed", "%s: %s" % (type(e).__name__, e))
    want = [p.extracted() for p in pieces]
    got = [read_markers(s.string) for s in strings]
    if len(got) != len(want):
        return fail("the number of strings differs", "%d instead of %d: %r" % (len(got), len(want), [s.string for s in strings]))
    bad = [n for n in range(len(want)) if got[n] != want[n]]
    if bad:
        n = bad[0]
        return fail("a paragraph is read differently", "expected parts %r, got %r" % (want[n], strings[n].string), pieces[n])
    if [s.order for s in strings] != list(range(len(strings))):
        return fail("the order of the strings differs", "")

    before, brels = doc.paragraphs(data)
    # compiled as it is: the same document
    try:
        same = doc.handler().compile(template, [OpenString(s.key, s.string, order=s.order) for s in strings])
        pars, rels = doc.paragraphs(same)
        for p, b, a in zip(pieces, before, pars):
            if canon(b) != canon(a):
                return fail("compiling the document as it is changes a paragraph", "expected %r got %r" % (doc.observe(b, brels), doc.observe(a, rels)), p)
            if doc.observe(b, brels) != doc.observe(a, rels):
                return fail("compiling the document as it is changes a link", "expected %r got %r" % (doc.observe(b, brels), doc.observe(a, rels)), p)
    except Damaged as e:
        return fail("compiling the document as it is damages it", str(e))
    except Exception as e:
        return fail("compiling the document as it is crashed", "%s: %s" % (type(e).__name__, e))

    # translated
    skip = set(n for n in range(len(pieces)) if rng.random() < .15)
    trans, texts = [], {}
    for n, (p, s) in enumerate(zip(pieces, strings)):
        if n in skip:
            continue
        texts[n] = s.string if p.c["same"] and p.c["shape"] == "source" else markers(p.translation(), p.c["shape"], rng)
        trans.append(OpenString(s.key, texts[n], order=s.order))
    try:
        out = doc.handler().compile(template, trans)
        pars, rels = doc.paragraphs(out)
    except Damaged as e:
        return fail("compiling a translation damages the document", str(e))
    except Exception as e:
        return fail("compiling a translation crashed", "%s: %s; %r" % (type(e).__name__, e, texts))
    if len(pars) != len(before):
        return fail("compiling a translation changes the number of paragraphs", "%d" % len(pars))
    for n, p in enumerate(pieces):
        try:
            obs, other = doc.observe(pars[n], rels)
            old, oldother = doc.observe(before[n], brels)
        except Damaged as e:
            return fail("compiling a translation damages the document", "%s; %r" % (e, texts.get(n)), p)
        if n in skip:
            if canon(pars[n]) != canon(before[n]) or obs != old:
                return fail("a paragraph without a translation changed", "expected %r got %r" % (old, obs), p)
            continue
        judge(p, texts[n], obs, other, old, oldother, fail)


def groups(p):
    """ indices of the runs that share a run element, by its first """
    out = {}
    for i, r in enumerate(p.c["par"]):
        if r["j"]:
            out[max(out)].append(i)
        else:
            out[i] = [i]
    return out


def judge(p, text, obs, other, old, oldother, fail):
    c = p.c
    detail = ("translation %r" % text).replace("%", "%%") + ": expected %r got %r"
    ids = [i for i, _, _, _ in obs]
    if ids != sorted(set(ids)) or not set(ids) <= set(i for i, _, _, _ in old):
        return fail("runs change their places", detail % ([o[0] for o in old], ids), p)
    if other != oldother and [o for o in oldother if o != "br"] != [o for o in other if o != "br"]:
        return fail("other elements of the paragraph change", detail % (oldother, other), p)
    after = p.after()
    got = {i: t for i, t, _, _ in obs}
    total = "".join(t for _, t, _, _ in obs)
    if c["shape"] in ("bare", "extra-close", "extra-open"):
        flds = set(i for i, r in enumerate(c["par"]) if r["k"] == "fld")
        mine = "".join(t for i, t, _, _ in obs if i not in flds)
        said = "".join(t for t, _ in p.translation())
        if not squeeze(mine) == squeeze(said):
            return fail("the translation's text is not in the paragraph as it is", detail % (said, mine), p)
        for i in flds:
            if got.get(i) != after[i]:
                return fail("text outside of the runs changes", detail % (after[i], got.get(i)), p)
        return
    for g, mem in groups(p).items():
        t = "".join(after[i] for i in mem)
        if got.get(g, "") != t:
            return fail("the text is distributed differently", detail % ([(k, "".join(after[i] for i in m)) for k, m in groups(p).items()], [(i, t) for i, t, _, _ in obs]), p)
    if total != "".join(after):
        return fail("the text of the paragraph differs", detail % ("".join(after), total), p)
    for i, t, link, f in obs:
        mem = groups(p)[i]
        a = c["after"][i]
        ls = set(c["after"][k]["link"] for k in mem)
        if len(ls) == 1 and "?" not in ls and link != p.url(a["link"]):
            return fail("a link differs", detail % ((i, p.url(a["link"])), (i, link)), p)
        if a["f"] != 99 and f != a["f"]:
            return fail("a format differs", detail % ((i, a["f"]), (i, f)), p)


def squeeze(s):
    """ text without the white space between words """
    return re.sub(r"\s+", "", s)


# ------------------------------------------------------------ spreadsheets
SHEET = "application/vnd.openxmlformats-officedocument.spreadsheetml."
XURLS = ["https://example.com/%s/%d?a=1&b=2", "mailto:x@example.com?subject=%s%d", "https://example.com/it's/%s/%d", "file:///c:/a%%20b/%s/%d"]
FURLS = XURLS + ["#'My Sheet'!%s%d"]


class Cell(object):
    """ a generated cell """

    def __init__(self, p, rng):
        self.p, par = p, p.c["par"]
        kinds = ["shared", "shared", "inline", "shared+link", "inline+link"]
        if len(par) == 1 and p.c["shape"] not in ("extra-close", "extra-open") and len(p.c["tr"]) == 1:
            kinds += ["formula"] * 3
        self.kind = rng.choice(kinds)
        self.link = ""
        if "link" in self.kind:
            self.link = rng.choice(XURLS) % ("l", p.n)
        elif self.kind == "formula":
            self.link = rng.choice(FURLS) % ("l", p.n)
        self.newlink = self.link
        if self.link and rng.random() < .4:
            self.newlink = rng.choice(XURLS) % ("n", p.n)
        self.twice = self.kind == "shared" and rng.random() < .3
        self.named = False

    def texts(self):
        return [self.p.source_text(i) for i in range(len(self.p.c["par"]))]

    def rich(self):
        """ the runs as XML """
        out, par = [], self.p.c["par"]
        if len(par) == 1 and not par[0]["f"]:
            t = self.texts()[0]
            return "<t%s>%s</t>" % (space(t), escape(t))
        for r, t in zip(par, self.texts()):
            f = '<rPr><sz val="%d"/></rPr>' % (r["f"] + 10) if r["f"] else ""
            out.append("<r>%s<t%s>%s</t></r>" % (f, space(t), escape(t)))
        return "".join(out)

    def translation(self, rng):
        parts = [(t, "") for t, _ in self.p.translation()]
        shape = self.p.c["shape"]
        if not self.link:
            return markers(parts, shape, rng)
        if self.kind == "formula" or (len(parts) == 1 and rng.random() < .5):
            inner = markers(parts, "bare", rng)
        else:
            inner = markers(parts, shape if shape in ("bare", "extra-open") else "each", rng)
        q = '"' if "'" in self.newlink else rng.choice("\"'")
        return "<tx href=%s%s%s>%s</tx>" % (q, self.newlink, q, inner)


class Xlsx(object):
    def __init__(self, pieces, rng):
        self.rng = rng
        self.cells = [Cell(p, rng) for p in pieces]
        k = rng.randint(0, len(pieces))
        self.sheets = [self.cells[:k], self.cells[k:]]
        self.names = ["Sheet %d" % rng.randint(1, 9), "Sheet & <%d>" % rng.randint(10, 99)]
        self.newnames = [n if rng.random() < .5 else "New " + n for n in self.names]
        self.shared = ["<t>not used</t>"]
        self.use_shared = any("shared" in c.kind for c in self.cells) or rng.random() < .5

    def package(self):
        over = [("/xl/workbook.xml", SHEET + "sheet.main+xml")]
        mem, refs = [], self.refs()
        for n, cells in enumerate(self.sheets):
            rows, rels, links = [], [], []
            for m, (ref, c) in enumerate(refs[n]):
                if "shared" in c.kind:
                    if not c.named:
                        c.named = len(self.shared)
                        self.shared.append(c.rich())
                    x = '<c r="%s" s="2" t="s"><v>%d</v></c>' % (ref, c.named)
                elif "inline" in c.kind:
                    x = '<c r="%s" s="3" t="inlineStr"><is>%s</is></c>' % (ref, c.rich())
                else:
                    t = c.texts()[0]
                    f = 'HYPERLINK("%s","%s")' % (c.link, t.replace('"', '""'))
                    x = '<c r="%s" t="str"><f>%s</f><v>%s</v></c>' % (ref, escape(f), escape(t))
                if c.link and c.kind != "formula":
                    rid = "rId%d" % (len(rels) + 1)
                    rels.append((rid, LINK, c.link, True))
                    links.append('<hyperlink ref="%s" r:id="%s"/>' % (ref, rid))
                rows.append('<row r="%d">%s<c r="B%d"><v>%d.5</v></c></row>' % (m + 1, x, m + 1, m))
            over.append(("/xl/worksheets/sheet%d.xml" % (n + 1), SHEET + "worksheet+xml"))
            mem.append(("xl/worksheets/sheet%d.xml" % (n + 1), HEAD + '<worksheet xmlns="%s" xmlns:r="%s"><sheetViews><sheetView workbookViewId="0"/></sheetViews><sheetData>%s</sheetData>%s</worksheet>' % (
                S, R, "".join(rows), "<hyperlinks>%s</hyperlinks>" % "".join(links) if links else "")))
            if rels:
                mem.append(("xl/worksheets/_rels/sheet%d.xml.rels" % (n + 1), rels_xml(rels)))
        if self.use_shared:
            over.append(("/xl/sharedStrings.xml", SHEET + "sharedStrings+xml"))
            mem.append(("xl/sharedStrings.xml", HEAD + '<sst xmlns="%s">%s</sst>' % (S, "".join("<si>%s</si>" % x for x in self.shared))))
        mem.append(("xl/workbook.xml", HEAD + '<workbook xmlns="%s" xmlns:r="%s"><sheets>%s</sheets></workbook>' % (
            S, R, "".join('<sheet name=%s sheetId="%d" r:id="rId%d"/>' % (quoteattr(n), i + 1, i + 1) for i, n in enumerate(self.names)))))
        mem.append(("[Content_Types].xml", HEAD + '<Types xmlns="%s">%s</Types>' % (CT, "".join('<Override PartName="%s" ContentType="%s"/>' % o for o in over))))
        return zipped(mem[::-1])

    def refs(self):
        """ where each cell is; some shared strings are used twice """
        out = []
        for cells in self.sheets:
            row = []
            for c in cells:
                row.append(c)
                if c.twice:
                    row.append(c)
            out.append([("A%d" % (m + 1), c) for m, c in enumerate(row)])
        return out

    def read(self, data):
        """ sheet names and, by sheet and cell, (texts, formats, link, formula, value, attributes) """
        q = "{%s}" % S
        names = [e.get("name") for e in ET.fromstring(member(data, "xl/workbook.xml")).iter(q + "sheet")]
        sst = list(ET.fromstring(member(data, "xl/sharedStrings.xml"))) if self.use_shared else []
        out = []
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            have = set(z.namelist())
        for n in range(len(self.sheets)):
            root = ET.fromstring(member(data, "xl/worksheets/sheet%d.xml" % (n + 1)))
            rname = "xl/worksheets/_rels/sheet%d.xml.rels" % (n + 1)
            rels = rels_of(member(data, rname)) if rname in have else {}
            links = {e.get("ref"): rels[e.get("{%s}id" % R)] for e in root.iter(q + "hyperlink")}
            cells = {}
            for c in root.iter(q + "c"):
                t, v, f = c.get("t"), c.find(q + "v"), c.find(q + "f")
                src = c
                if t == "s":
                    src = sst[int(v.text)]
                if t in ("s", "inlineStr"):
                    runs = []
                    for e in src.iter():
                        if e.tag == q + "r":
                            sz = e.find(q + "rPr/" + q + "sz")
                            runs.append(("".join(x.text or "" for x in e.findall(q + "t")), int(sz.get("val")) - 10 if sz is not None else 0))
                    if not runs:
                        runs = [("".join(x.text or "" for x in src.iter(q + "t")), 0)]
                else:
                    runs = []
                cells[c.get("r")] = (runs, links.get(c.get("r"), ""), f.text if f is not None else None, v.text if v is not None and t != "s" else None, c.get("s"))
            out.append(cells)
        return names, out


def workbook(rep, cases):
    from openformats.strings import OpenString
    from openformats.formats.xlsx_unstructured import XlsxUnstructuredHandler
    rng = engine.rng_for(rep.seed, "xlsx", cases)
    pieces = [Piece(c, n, rng, "xlsx") for n, c in enumerate(cases)]
    doc = Xlsx(pieces, rng)
    data = doc.package()
    rep.count("workbooks", 1, len(pieces))

    def fail(what, detail, c=None):
        rep.fail("XLSX_UNSTRUCTURED: %s" % what, "%s; cell %s" % (detail, "%s %r link %r" % (c.kind, c.rich(), c.link) if c is not None else "-"), case=dict(dialect="xlsx", cases=cases), seed=rep.seed)

    try:
        template, strings = XlsxUnstructuredHandler().parse(data)
    except Exception as e:
        return fail("parsing crashed", "%s: %s" % (type(e).__name__, e))
    want = [(n, [(n, "")]) for n in doc.names]
    for c in doc.cells:
        parts = [(t, c.link) for t, _ in c.p.extracted()]
        want.append((c, parts))
    if len(strings) != len(want):
        return fail("the number of strings differs", "%d instead of %d: %r" % (len(strings), len(want), [s.string for s in strings]))
    for (c, parts), s in zip(want, strings):
        got = read_markers(s.string)
        if got != parts:
            return fail("a cell is read differently", "expected parts %r got %r" % (parts, s.string), c if isinstance(c, Cell) else None)
    before = doc.read(data)
    for what, handed in (("as it is", lambda c, s: s), ("translated", None)):
        new, texts, skip = [], {}, set()
        for n, ((c, parts), s) in enumerate(zip(want, strings)):
            if handed:
                t = s.string
            elif n < 2:
                t = doc.newnames[n]
            elif rng.random() < .15:
                skip.add(c)
                continue
            else:
                t = s.string if c.p.c["same"] and c.p.c["shape"] == "source" and c.newlink == c.link else c.translation(rng)
                texts[c] = t
            new.append(OpenString(s.key, t, order=s.order))
        try:
            out = XlsxUnstructuredHandler().compile(template, new)
            names, sheets = doc.read(out)
            with zipfile.ZipFile(io.BytesIO(out)) as z:
                left = [n for n in z.namelist() if n.startswith("xl/") and handed and any("txid" in e.attrib for e in ET.fromstring(z.read(n)).iter())]
            if left:
                return fail("identifiers of the handler are left in the file", repr(left))
        except Damaged as e:
            return fail("compiling it %s damages it" % what, str(e))
        except Exception as e:
            return fail("compiling it %s crashed" % what, "%s: %s" % (type(e).__name__, e))
        if names != (doc.names if handed else doc.newnames):
            return fail("the names of the sheets differ (%s)" % what, repr(names))
        for n, refs in enumerate(doc.refs()):
            old, now = before[1][n], sheets[n]
            if set(old) != set(now):
                return fail("cells come or go", "%r" % sorted(set(old) ^ set(now)))
            mine = dict(refs)
            for ref in old:
                c = mine.get(ref)
                if c is None or c in skip or (handed and c.kind != "formula"):
                    if old[ref] != now[ref]:
                        return fail("a cell without a translation changed" if not handed else "compiling the workbook as it is changes a cell", "expected %r got %r" % (old[ref], now[ref]), c)
                    continue
                res = one_cell(c, old[ref], now[ref], texts.get(c), c.link if handed else c.newlink, handed)
                if res:
                    return fail(res[0] + " (%s)" % what, "translation %r: %s" % (texts.get(c), res[1]), c)


def one_cell(c, old, now, text, link, asis):
    runs, target, formula, value, style = now
    p = c.p
    if c.kind == "formula":
        said = p.extracted()[0][0] if asis else "".join(t for t, _ in p.translation())
        m = re.match(r'HYPERLINK\("(.*?)","((?:[^"]|"")*)"\)$', formula or "")
        if not m:
            return "a formula is damaged", repr(formula)
        if m.group(2).replace('""', '"') != said:
            return "the text of a formula differs", "expected %r got %r" % (said, formula)
        if m.group(1) != link:
            return "the link of a formula differs", "expected %r got %r" % (link, formula)
        if value != said:
            return "the value shown for a formula differs", "expected %r got %r" % (said, value)
        return None
    if style != old[4]:
        return "the style of a cell differs", "%r" % style
    if target != link:
        return "the link of a cell differs", "expected %r got %r" % (link, target)
    after = p.after()
    if p.c["shape"] in ("bare", "extra-close", "extra-open"):
        said = "".join(t for t, _ in p.translation())
        if squeeze("".join(t for t, _ in runs)) != squeeze(said):
            return "the translation's text is not in the cell as it is", "expected %r got %r" % (said, runs)
        return None
    if len(p.c["tr"]) > len(p.c["slots"]) and any(q["b"] == "" for q in p.c["tr"]):
        # white space between more parts than there are runs may go to either side
        if "".join(t for t, _ in runs) != "".join(after):
            return "the text of the cell differs", "expected %r got %r" % ("".join(after), runs)
    elif [t for t, _ in runs] != after:
        return "the text is distributed differently", "expected %r got %r" % (after, runs)
    if [f for _, f in runs] != [f for _, f in old[0]]:
        return "a format differs", "expected %r got %r" % (old[0], runs)
    return None


INV = ["NothingLost", "SpacesKept", "Unchanged", "FieldsKept", "Contiguous", "Emit"]


def work(args):
    """ one job in a process of its own """
    from .report import Report
    prop, tier, seed, dialect, defs, sim, cap = args
    rep = Report(prop, tier, seed)
    r = tlc.run("Ooxml", dict(dict(MOVES=False), **dict(defs, DIALECT=dialect, EMIT=True)), invariants=INV, simulate=sim, depth=30, seed=seed, workers=4 if not sim else 1)
    rep.tlc(r)
    cases = r.cases
    g = engine.rng_for(seed, "ooxml", dialect, defs)
    if len(cases) > cap:
        cases = g.sample(cases, cap)
    else:
        g.shuffle(cases)
    rep.distinct += len(cases)
    for c in cases[:2]:
        rep.sample(c)
    judge_all(rep, dialect, cases)
    return rep


def judge_all(rep, dialect, cases, size=8):
    for at in range(0, len(cases), size):
        (workbook(rep, cases[at:at + size]) if dialect == "xlsx" else document(rep, dialect, cases[at:at + size]))


def run(rep, deep):
    jobs = []
    for dialect in ("docx", "pptx", "pptx2", "xlsx"):
        jobs += [(rep.prop, rep.tier, rep.seed, dialect) + j for j in (
            (dict(MAXRUNS=2 if dialect != "xlsx" else 3, MAXEDITS=0), None, 700 if not deep else 20000),
            (dict(MAXRUNS=4, MAXEDITS=2), 300 if not deep else 6000, 700 if not deep else 30000),
            (dict(MAXRUNS=9, MAXEDITS=4), 250 if not deep else 5000, 600 if not deep else 30000))]
        if dialect != "xlsx":
            jobs.append((rep.prop, rep.tier, rep.seed, dialect, dict(MAXRUNS=4 if not deep else 5, MAXEDITS=4, MOVES=True), None, 400 if not deep else 20000))
    engine.parallel(rep, work, jobs)
