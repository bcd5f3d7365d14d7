"""C25: direction marks of office documents."""
import io, zipfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape

from . import tlc, engine
from .u_office import A, CT, HEAD, LINK, P, PR, R, S, SHEET, W, Damaged, canon, member, rels_xml, zipped

INV = ["Idempotent", "Untouched", "SameShape", "Complete", "Aligned", "Balanced", "Emit"]
ON, OFF = ("1", "true", "on"), ("0", "false", "off")


def bool_of(v, default):
    if v is None:
        return default
    if v in ON:
        return "on"
    if v in OFF:
        return "off"
    raise Damaged("%r is not a direction" % v)


def mark(rng, tag, x):
    """ an element that says on or off """
    if x not in ("on", "off"):
        return ""
    if x == "on" and rng.random() < .4:
        return "<w:%s/>" % tag
    return '<w:%s w:val="%s"/>' % (tag, rng.choice(ON if x == "on" else OFF))


def props(rng, tag, child, x, others, inside=""):
    if x == "none":
        return ""
    kids = [k for k in others if rng.random() < .5] + ([mark(rng, child, x)] if x != "plain" else [])
    rng.shuffle(kids)
    body = "".join(kids) + inside
    return "<w:%s>%s</w:%s>" % (tag, body, tag) if body else rng.choice(["<w:%s/>", "<w:%s></w:%s>"][:1]) % tag


def the_mark(e, child, first=None):
    """ what the properties `e` say """
    if e is None:
        return "none"
    found = e.findall("{%s}%s" % (W, child))
    if len(found) > 1:
        raise Damaged("%d %s marks in one place" % (len(found), child))
    return bool_of(found[0].get("{%s}val" % W), "on") if found else "plain"


def only(e, tag):
    """ the one child of its kind, which has to come first """
    kids = list(e)
    found = [n for n, k in enumerate(kids) if k.tag == tag]
    if len(found) > 1:
        raise Damaged("several %s in one place" % tag)
    if found and found[0] != 0:
        raise Damaged("%s isn't where properties have to be" % tag)
    return kids[0] if found else None


class Base(object):
    BLANK = ["", " ", "  "]
    def __init__(self, case, rng, n):
        self.c, self.rng, self.n = case, rng, n
        self.count = 0
        self.texts = []

    def text(self, t):
        """ the text of a run of paragraph `t` """
        self.count += 1
        if t["given"] == "blank":
            return self.rng.choice(self.BLANK)
        return "%stext %d.%d" % (self.rng.choice(["", "", " "]), self.n, self.count)

    def given(self):
        return [t["given"] for t in self.c["doc"] if t["k"] == "p" and t["given"] != "blank"]


class Docx(Base):
    def handler(self):
        from openformats.formats.docx import DocxHandler
        return DocxHandler()

    def package(self):
        rng, out, self.rels = self.rng, [], [("rId1", R + "/styles", "styles.xml", False)]
        for t in self.c["doc"]:
            if t["k"] == "open":
                out.append("<w:tbl>%s<w:tblGrid/><w:tr>" % props(rng, "tblPr", "bidiVisual", t["own"], ['<w:tblW w:w="0"/>', '<w:tblLook w:val="4"/>']))
                depth = out
            elif t["k"] == "close":
                out.append("</w:tr></w:tbl>")
            else:
                out.append(self.paragraph(t))
        # what stands in a table stands in a cell
        body, stack = [], 0
        for t, x in zip(self.c["doc"], out):
            if t["k"] == "open":
                body.append(("<w:tc>" if stack else "") + x)
                stack += 1
            elif t["k"] == "close":
                stack -= 1
                body.append(x + ("</w:tc>" if stack else ""))
            else:
                body.append("<w:tc>%s</w:tc>" % x if stack else x)
        doc = HEAD + '<w:document xmlns:w="%s" xmlns:r="%s"><w:body>%s<w:sectPr/></w:body></w:document>' % (W, R, "".join(body))
        return zipped([
            ("[Content_Types].xml", HEAD + '<Types xmlns="%s"><Default Extension="xml" ContentType="application/xml"/></Types>' % CT),
            ("_rels/.rels", rels_xml([("rId1", R + "/officeDocument", "word/document.xml", False)])),
            ("word/document.xml", doc), ("word/_rels/document.xml.rels", rels_xml(self.rels)), ("word/styles.xml", '<w:p xmlns:w="%s"><w:pPr/></w:p>' % W)])

    def paragraph(self, t):
        rng = self.rng
        m = props(rng, "rPr", "rtl", t["m"], ["<w:b/>", '<w:sz w:val="20"/>'])
        out = ["<w:p>", props(rng, "pPr", "bidi", t["own"], ['<w:jc w:val="left"/>', '<w:spacing w:before="1"/>'], m)]
        if rng.random() < .2:
            out.append('<w:bookmarkStart w:id="1" w:name="b"/>')
        for m, x in enumerate(t["runs"]):
            run = '<w:r w:rsidR="%d">%s<w:t xml:space="preserve">%s</w:t></w:r>' % (m, props(rng, "rPr", "rtl", x, ["<w:i/>", '<w:sz w:val="22"/>']), self.text(t))
            if rng.random() < .2:
                rid = "rId%d" % (len(self.rels) + 1)
                self.rels.append((rid, LINK, "http://e.x/%s" % rid, True))
                run = '<w:hyperlink r:id="%s">%s</w:hyperlink>' % (rid, run)
            out.append(run)
        return "".join(out) + "</w:p>"

    def read(self, data):
        out = []

        def go(e):
            for k in e:
                tag = k.tag.split("}")[1]
                if tag == "tbl":
                    out.append(dict(k="open", own=the_mark(only(k, "{%s}tblPr" % W), "bidiVisual")))
                    go(k)
                    out.append(dict(k="close"))
                elif tag == "p":
                    ppr = only(k, "{%s}pPr" % W)
                    runs = [(int(r.get("{%s}rsidR" % W)), the_mark(only(r, "{%s}rPr" % W), "rtl")) for r in k.iter("{%s}r" % W)]
                    out.append(dict(k="p", own=the_mark(ppr, "bidi"), a="", m=the_mark(ppr.find("{%s}rPr" % W), "rtl") if ppr is not None else "none", runs=runs))
                else:
                    go(k)
        go(ET.fromstring(member(data, "word/document.xml")))
        return out

    def strip(self, root):
        for e in list(root.iter()):
            for k in list(e):
                if k.tag in ["{%s}%s" % (W, x) for x in ("bidi", "rtl", "bidiVisual")]:
                    e.remove(k)
        for e in list(root.iter()):
            for k in list(e):
                if k.tag in ("{%s}pPr" % W, "{%s}tblPr" % W) and len(k) == 0:
                    e.remove(k)


class Pptx(Base):
    v2 = False

    def handler(self):
        from openformats.formats import pptx
        return pptx.PptxHandlerV2() if self.v2 else pptx.PptxHandler()

    FILES = ["ppt/slides/slide1.xml", "ppt/slides/slide2.xml", "ppt/notesSlides/notesSlide1.xml"]

    def package(self):
        rng, doc = self.rng, self.c["doc"]
        cut = sorted(rng.randint(0, len(doc)) for _ in range(2))
        t = "application/vnd.openxmlformats-officedocument.presentationml."
        kinds = ["slide", "slide", "notesSlide"]
        mem = [("[Content_Types].xml", HEAD + '<Types xmlns="%s">%s</Types>' % (CT, "".join('<Override PartName="/%s" ContentType="%s%s+xml"/>' % (f, t, k) for f, k in zip(self.FILES, kinds))))]
        for n, part in enumerate((doc[:cut[0]], doc[cut[0]:cut[1]], doc[cut[1]:])):
            rels = [[("rId1", R + "/slideLayout", "../slideLayouts/slideLayout1.xml", False)],
                    [("rId1", R + "/notesSlide", "../notesSlides/notesSlide1.xml", False)],
                    [("rId1", R + "/slide", "../slides/slide2.xml", False)]][n]
            out = []
            for tok in part:
                x = self.paragraph(tok, rels)
                out.append(rng.choice(["<p:sp><p:txBody>%s</p:txBody></p:sp>", "<p:graphicFrame><a:tbl><a:tr><a:tc><a:txBody>%s</a:txBody></a:tc></a:tr></a:tbl></p:graphicFrame>"]) % x)
            root = "notes" if n == 2 else "sld"
            mem.append((self.FILES[n], HEAD + '<p:%s xmlns:a="%s" xmlns:r="%s" xmlns:p="%s"><p:cSld><p:spTree>%s</p:spTree></p:cSld></p:%s>' % (root, A, R, P, "".join(out), root)))
            d, f = self.FILES[n].rsplit("/", 1)
            mem.append(("%s/_rels/%s.rels" % (d, f), rels_xml(rels)))
        return zipped(mem)

    def paragraph(self, t, rels):
        rng, out = self.rng, ["<a:p>"]
        if t["own"] != "none":
            atts = [' lvl="0"'] if rng.random() < .3 else []
            if t["own"] != "plain":
                atts.append(' rtl="%s"' % rng.choice((ON if t["own"] == "on" else OFF)[:2]))
            if t["a"]:
                atts.append(' algn="%s"' % t["a"])
            rng.shuffle(atts)
            out.append("<a:pPr%s%s" % ("".join(atts), rng.choice(["/>", "><a:buNone/></a:pPr>"])))
        for x in t["runs"]:
            pr = rng.choice(["", '<a:rPr lang="en-US"/>'])
            if rng.random() < .2:
                rid = "rId%d" % (len(rels) + 1)
                rels.append((rid, LINK, "http://e.x/%s" % rid, True))
                pr = '<a:rPr lang="en-US"><a:hlinkClick r:id="%s"/></a:rPr>' % rid
            out.append("<a:r>%s<a:t>%s</a:t></a:r>" % (pr, self.text(t)))
        return "".join(out) + "</a:p>"

    def read(self, data):
        out = []
        for f in self.FILES:
            for p in ET.fromstring(member(data, f)).iter("{%s}p" % A):
                ppr = only(p, "{%s}pPr" % A)
                out.append(dict(k="p", own="none" if ppr is None else bool_of(ppr.get("rtl"), "plain"), a="" if ppr is None else ppr.get("algn", ""), m="none", runs=[]))
        return out

    def strip(self, root):
        for e in root.iter("{%s}pPr" % A):
            e.attrib.pop("rtl", None)
            e.attrib.pop("algn", None)


class Pptx2(Pptx):
    v2 = True
    BLANK = [""]  # a space is a string there


class Xlsx(Base):
    def handler(self):
        from openformats.formats.xlsx_unstructured import XlsxUnstructuredHandler
        return XlsxUnstructuredHandler()

    def given(self):
        return None

    def package(self):
        rng, over, mem = self.rng, [("/xl/workbook.xml", SHEET + "sheet.main+xml")], []
        for n, t in enumerate(self.c["doc"]):
            views = []
            for m, v in enumerate(t["views"]):
                at = "" if v == "plain" else ' rightToLeft="%s"' % rng.choice((ON if v == "on" else OFF)[:2])
                views.append('<sheetView%s workbookViewId="%d"%s' % (at, m, rng.choice(["/>", '><selection activeCell="A1"/></sheetView>'])))
            sv = "<sheetViews>%s</sheetViews>" % "".join(views) if views else ""
            over.append(("/xl/worksheets/sheet%d.xml" % (n + 1), SHEET + "worksheet+xml"))
            mem.append(("xl/worksheets/sheet%d.xml" % (n + 1), HEAD + '<worksheet xmlns="%s">%s<sheetData><row r="1"><c r="A1" t="inlineStr"><is><t>text %d.%d</t></is></c></row></sheetData></worksheet>' % (S, sv, self.n, n)))
        mem.append(("xl/workbook.xml", HEAD + '<workbook xmlns="%s" xmlns:r="%s"><bookViews><workbookView/></bookViews><sheets>%s</sheets></workbook>' % (
            S, R, "".join('<sheet name="Sheet %d" sheetId="%d" r:id="rId%d"/>' % (i, i, i) for i in range(1, len(self.c["doc"]) + 1)))))
        mem.append(("[Content_Types].xml", HEAD + '<Types xmlns="%s">%s</Types>' % (CT, "".join('<Override PartName="%s" ContentType="%s"/>' % o for o in over))))
        return zipped(mem)

    def read(self, data):
        out = []
        for n in range(len(self.c["doc"])):
            root = ET.fromstring(member(data, "xl/worksheets/sheet%d.xml" % (n + 1)))
            # a view without a mark is read from left to right
            out.append(dict(k="sheet", views=[bool_of(v.get("rightToLeft"), "off") for v in root.iter("{%s}sheetView" % S)]))
        return out

    def strip(self, root):
        for e in root.iter("{%s}sheetView" % S):
            e.attrib.pop("rightToLeft", None)


DIALECTS = {"docx": ("DOCX", [Docx]), "pptx": ("PPTX", [Pptx, Pptx2]), "xlsx": ("XLSX_UNSTRUCTURED", [Xlsx])}
FLAGS = {"yes": dict(is_rtl=True), "no": dict(is_rtl=False), "unset": {}, "none": dict(is_rtl=None)}


def wanted(tokens, dialect, plain=None):
    """ the document of the specification the way the readers put it; compiling a text with fewer
    pieces removes runs, `plain` is the document where the runs that stay are """
    out = []
    for n, t in enumerate(tokens):
        t = {k: v for k, v in t.items() if k != "given"}
        if t["k"] == "p":
            t["runs"] = list(enumerate(t["runs"])) if dialect == "docx" else []
            if plain is not None:
                t["runs"] = [t["runs"][i] for i, _ in plain[n]["runs"]]
        if t["k"] == "sheet":
            t["views"] = ["off" if v == "plain" else v for v in t["views"]]
        out.append(t)
    return out


def parts(doc, data):
    """ every part without direction marks """
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        out = {}
        for n in z.namelist():
            b = z.read(n)
            if n.endswith((".xml", ".rels")) and "styles" not in n:
                root = ET.fromstring(b)
                doc.strip(root)
                b = canon(root)
            out[n] = b
    return out


def judge(rep, dialect, cls, case, n):
    from openformats.strings import OpenString
    rng = engine.rng_for(rep.seed, "direction", dialect, cls.__name__, case)
    doc = cls(case, rng, n)
    data = doc.package()

    def fail(what, detail):
        rep.fail("%s: %s" % (cls.__name__, what), detail, case=dict(kind="direction", dialect=dialect, cls=cls.__name__, doc=case), seed=rep.seed)
    try:
        if doc.read(data) != wanted(case["doc"], dialect):
            raise AssertionError("the rendering of %r reads as %r" % (case["doc"], doc.read(data)))
    except Damaged as e:
        raise AssertionError("rendering: %s" % e)
    try:
        template, strings = doc.handler().parse(data)
    except Exception as e:
        return fail("parsing crashed", "%s: %s" % (type(e).__name__, e))
    given = doc.given()
    if given is None:
        given = ["yes"] * len(strings)
    if len(given) != len(strings):
        return fail("the number of strings differs", "%d instead of %d" % (len(strings), len(given)))
    new = []
    for g, s in zip(given, strings):
        if g == "yes":
            r = rng.random()
            t = s.string if r < .4 else s.string.replace("text", "translation") if r < .8 else "other" if r < .9 else s.string + "<tx>more %d</tx>" % s.order
            new.append((s.key, t, s.order))
    kw = FLAGS[case["flag"]]

    def compiled(**kw):
        return doc.handler().compile(template, [OpenString(a, b, order=o) for a, b, o in new], **kw)
    try:
        out, plain = compiled(**kw), compiled()
    except Exception as e:
        return fail("compiling crashed", "flag %s: %s: %s" % (case["flag"], type(e).__name__, e))
    try:
        got, kept = doc.read(out), doc.read(plain)
        if [t["k"] for t in kept] != [t["k"] for t in case["doc"]]:
            raise Damaged("paragraphs, tables or sheets come or go")
        if kept != wanted(case["doc"], dialect, kept):
            raise Damaged("directions change without a flag: %r instead of %r" % (kept, wanted(case["doc"], dialect, kept)))
        want = wanted(case["out"], dialect, kept)
    except Damaged as e:
        return fail("the document is damaged", "flag %s: %s" % (case["flag"], e))
    if [t for t in got if t["k"] != "p"] != [t for t in want if t["k"] != "p"] and len(got) == len(want):
        return fail("the direction of a table or sheet differs", "flag %s: expected %r got %r from %r" % (case["flag"], want, got, case["doc"]))
    if len(got) != len(want):
        return fail("paragraphs, tables or sheets come or go", "flag %s: %r" % (case["flag"], got))
    for s, w, g in zip(case["doc"], want, got):
        if w != g:
            return fail("the direction of a paragraph differs", "flag %s: expected %r got %r from %r" % (case["flag"], w, g, s))
    a, b = parts(doc, out), parts(doc, plain)
    if a != b:
        bad = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
        return fail("the flag changes something else", "flag %s: %s differ: %r and %r" % (case["flag"], bad, a.get(bad[0]), b.get(bad[0])))
    rep.count("%s (%s)" % (cls.__name__, case["flag"]), 1, 2 + len(got))


def work(args):
    from .report import Report
    prop, tier, seed, dialect, defs, sim, cap = args
    rep = Report(prop, tier, seed)
    r = tlc.run("Direction", dict(defs, DIALECT=dialect, EMIT=True), invariants=INV, simulate=sim, depth=30, seed=seed, workers=4 if not sim else 1)
    rep.tlc(r)
    cases = r.cases
    g = engine.rng_for(seed, "direction", dialect, defs)
    if len(cases) > cap:
        cases = g.sample(cases, cap)
    rep.distinct += len(cases)
    for c in cases[:2]:
        rep.sample(c)
    for n, c in enumerate(cases):
        for cls in DIALECTS[dialect][1]:
            judge(rep, dialect, cls, c, n)
    return rep


def again(args):
    from .report import Report
    prop, seed, case = args
    rep = Report(prop, "quick", seed)
    for cls in DIALECTS[case["dialect"]][1]:
        if cls.__name__ == case["cls"]:
            judge(rep, case["dialect"], cls, case["doc"], 0)
    return rep


def run(rep, deep):
    k = 1 if not deep else 30
    jobs = []
    for dialect in ("docx", "pptx", "xlsx"):
        jobs += [(rep.prop, rep.tier, rep.seed, dialect) + j for j in (
            (dict(MAXTOKENS=1, MAXRUNS=1 if dialect == "docx" else 2), None, 1500 if not deep else 30000),
            (dict(MAXTOKENS=4, MAXRUNS=2), 60 * k, 500 * k),
            (dict(MAXTOKENS=8, MAXRUNS=3), 60 * k, 500 * k))]
    engine.parallel(rep, work, jobs)
