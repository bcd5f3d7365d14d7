"""C26: the parts of presentations and workbooks and where their strings come from."""
import io, re, zipfile
import xml.etree.ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from . import tlc, engine
from .u_office import A, CT, HEAD, LINK, P, PR, R, S, SHEET, Damaged, member, read_markers, rels_of, rels_xml, zipped

INV = ["Covered", "Sorted", "Origins", "Alike", "Nothing", "Emit"]
WORDS = ["%s", "text %s", "%s & more", "x < %s", "né %s", "中文 %s", "it's %s", "%s; %s", "Sheet %s", "1%s", "%s.0"]


def key(s):
    return (s["b"], s["link"])


class Base(object):
    def __init__(self, case, rng):
        self.c, self.rng, self.words = case, rng, {}

    def word(self, sym):
        if sym not in self.words:
            w = self.rng.choice(WORDS)
            self.words[sym] = w.replace("%s", sym)
        return self.words[sym]

    def new(self, sym):
        return "translation & " + self.word(sym)

    def url(self, sym):
        return "https://example.com/%s?a=1&b=2" % sym

    def shown(self, t):
        """ what a text says afterwards """
        return "" if t["b"] == "" else self.new(t["b"]) if t["new"] else self.word(t["b"])


class Pptx(Base):
    FMT = "PPTX"

    def handler(self):
        from openformats.formats import pptx
        return pptx.PptxHandler()

    SLIDE, NOTES = "ppt/slides/slide%d.xml", "ppt/notesSlides/notesSlide%d.xml"

    def body(self, texts, root):
        rng, out = self.rng, []
        for t in texts:
            if t["b"] == "":
                x = rng.choice(["<a:p/>", "<a:p><a:r><a:t> </a:t></a:r></a:p>", "<a:p><a:r><a:t/></a:r></a:p>", '<a:p><a:endParaRPr lang="en-US"/></a:p>'])
            else:
                x = "<a:p><a:r><a:t>%s</a:t></a:r></a:p>" % escape(self.word(t["b"]))
            out.append(x)
        shapes, sp = [], "<p:sp><p:txBody>%s</p:txBody></p:sp>"
        while out:
            n = rng.choice([1, 1, 2])
            shapes.append(rng.choice([sp, sp, "<p:grpSp>%s</p:grpSp>" % sp, "<p:graphicFrame><a:tbl><a:tr><a:tc><a:txBody>%s</a:txBody></a:tc></a:tr></a:tbl></p:graphicFrame>"]) % "".join(out[:n]))
            out = out[n:]
        return HEAD + '<p:%s xmlns:a="%s" xmlns:r="%s" xmlns:p="%s"><p:cSld><p:spTree>%s</p:spTree></p:cSld></p:%s>' % (root, A, R, P, "".join(shapes), root)

    def package(self):
        rng, mem, over, more = self.rng, [], [], []
        t = "application/vnd.openxmlformats-officedocument.presentationml."

        def part(name, xml, rels, kind, to):
            rng.shuffle(rels)
            d, f = name.rsplit("/", 1)
            mem.append((name, xml))
            mem.append(("%s/_rels/%s.rels" % (d, f), rels_xml([("rId%d" % (i + 1),) + r for i, r in enumerate(rels)])))
            to.append((name, t + kind + "+xml"))
        for p in self.c["doc"]:
            rels = [(R + "/slideLayout", "../slideLayouts/slideLayout%d.xml" % rng.choice([1, 7, 12]), False)]
            if rng.random() < .3:
                rels.append((R + "/image", "../media/image%d.png" % rng.randint(1, 20), False))
            if p["k"] == "slide":
                if p["note"]:
                    rels.append((R + "/notesSlide", rng.choice(["../notesSlides/notesSlide%d.xml", "/ppt/notesSlides/notesSlide%d.xml"]) % p["note"], False))
                part(self.SLIDE % p["num"], self.body(p["texts"], "sld"), rels, "slide", over)
            if p["note"]:
                part(self.NOTES % p["note"], self.body(p["notes"], "notes"), [(R + "/slide", "../slides/slide%d.xml" % p["num"], False), (R + "/notesMaster", "../notesMasters/notesMaster1.xml", False)],
                     "notesSlide", rng.choice([over, more]))
        if rng.random() < .5:
            over, more = more, over
        mem.append(("[Content_Types].xml", HEAD + '<Types xmlns="%s">%s</Types>' % (CT, "".join('<Override PartName="/%s" ContentType="%s"/>' % o for o in over + more))))
        return zipped(mem)

    def wanted(self):
        return [(s["s"]["b"], s["s"]["link"], s["from"] == ["notes"]) for s in self.c["strings"]]

    def got(self, strings):
        return [(s.string, False, list(s.tags or []) == ["notes"]) for s in strings]

    def render(self, w):
        return [(self.word(b), l, o) for b, l, o in w]

    def after(self):
        out = []
        for p, o in zip(self.c["doc"], self.c["out"]):
            if p["k"] == "slide":
                out.append((self.SLIDE % p["num"], [self.shown(t) for t in o["texts"]]))
            if p["note"]:
                out.append((self.NOTES % p["note"], [self.shown(t) for t in o["notes"]]))
        return out

    def read(self, data):
        out = []
        for p in self.c["doc"]:
            for f in ([self.SLIDE % p["num"]] if p["k"] == "slide" else []) + ([self.NOTES % p["note"]] if p["note"] else []):
                root = ET.fromstring(member(data, f))
                out.append((f, ["".join(t.text or "" for t in x.iter("{%s}t" % A)).strip() for x in root.iter("{%s}p" % A)]))
        return out

    def translated(self, s, b):
        return self.new(b)


class Pptx2(Pptx):
    FMT = "PPTX_V2"

    def handler(self):
        from openformats.formats import pptx
        return pptx.PptxHandlerV2()


class Xlsx(Base):
    FMT = "XLSX_UNSTRUCTURED"

    def handler(self):
        from openformats.formats.xlsx_unstructured import XlsxUnstructuredHandler
        return XlsxUnstructuredHandler()

    FILES = {"sheet": "xl/worksheets/sheet%d.xml", "chart": "xl/chartsheets/sheet%d.xml"}

    def package(self):
        rng, mem = self.rng, []
        shared, at = [], {}
        over = [("xl/workbook.xml", SHEET + "sheet.main+xml")]
        rels = []

        def share(b):
            if b not in at or rng.random() < .2:
                at[b] = len(shared)
                shared.append("<si>%s</si>" % rng.choice(["<t>%s</t>", '<t xml:space="preserve">%s</t>', "<r><rPr><b/></rPr><t>%s</t></r>"]) % escape(self.word(b)))
            return at[b]
        if rng.random() < .5:
            shared.append("<si><t>not used</t></si>")
        for p in self.c["doc"]:
            f = self.FILES[p["k"]] % p["num"]
            rels.append((R + ("/worksheet" if p["k"] == "sheet" else "/chartsheet"), rng.choice(["/" + f, f[3:]]), False))
            if p["k"] == "chart":
                over.append((f, SHEET + "chartsheet+xml"))
                mem.append((f, HEAD + '<chartsheet xmlns="%s"/>' % S))
                continue
            over.append((f, SHEET + "worksheet+xml"))
            rows, links, lrel = [], [], []
            for n, t in enumerate(p["texts"]):
                ref, w = "B%d" % (n + 2), escape(self.word(t["b"]) if t["b"] else "")
                if t["how"] in ("shared", "linked"):
                    c = '<c r="%s" t="s"><v>%d</v></c>' % (ref, share(t["b"]))
                    if t["how"] == "linked":
                        rid = "rId%d" % (len(lrel) + 1)
                        lrel.append((rid, LINK, self.url(t["b"]), True))
                        links.append('<hyperlink ref="%s" r:id="%s"/>' % (ref, rid))
                elif t["how"] == "inline":
                    c = '<c r="%s" t="inlineStr"><is><t>%s</t></is></c>' % (ref, w) if w or rng.random() < .5 else '<c r="%s" t="inlineStr"><is/></c>' % ref
                elif t["how"] == "formula":
                    f2 = 'HYPERLINK("%s","%s")' % (self.url(t["b"]), self.word(t["b"]).replace('"', '""'))
                    c = '<c r="%s" t="str"><f>%s</f><v>%s</v></c>' % (ref, escape(f2), w)
                elif t["how"] == "other":
                    c = rng.choice(['<c r="%s"><v>5</v></c>', '<c r="%s"/>', '<c r="%s" t="str"><f>A1&amp;"x"</f><v>x</v></c>', '<c r="%s" t="b"><v>1</v></c>', '<c r="%s" t="str"><v>x</v></c>']) % ref
                else:
                    c = '<c r="%s" t="s"/>' % ref
                rows.append('<row r="%d">%s</row>' % (n + 2, c))
            mem.append((f, HEAD + '<worksheet xmlns="%s" xmlns:r="%s"><sheetData>%s</sheetData>%s</worksheet>' % (
                S, R, "".join(rows), "<hyperlinks>%s</hyperlinks>" % "".join(links) if links else "")))
            if lrel or rng.random() < .2:
                d, x = f.rsplit("/", 1)
                mem.append(("%s/_rels/%s.rels" % (d, x), rels_xml(lrel)))
        ids = list(range(1, len(rels) + 1))
        rng.shuffle(ids)
        mem.append(("xl/workbook.xml", HEAD + '<workbook xmlns="%s" xmlns:r="%s"><sheets>%s</sheets></workbook>' % (
            S, R, "".join('<sheet name=%s sheetId="%d" r:id="rId%d"/>' % (quoteattr(self.word(p["name"])), i, i) for p, i in zip(self.c["doc"], ids)))))
        both = list(zip(ids, rels)) + [(len(rels) + 1, (R + "/sharedStrings", "sharedStrings.xml", False))]
        rng.shuffle(both)
        mem.append(("xl/_rels/workbook.xml.rels", rels_xml([("rId%d" % i,) + r for i, r in both])))
        if shared or rng.random() < .3:
            over.append(("xl/sharedStrings.xml", SHEET + "sharedStrings+xml"))
            mem.append(("xl/sharedStrings.xml", HEAD + '<sst xmlns="%s">%s</sst>' % (S, "".join(shared))))
        rng.shuffle(over)
        mem.append(("[Content_Types].xml", HEAD + '<Types xmlns="%s">%s</Types>' % (CT, "".join('<Override PartName="/%s" ContentType="%s"/>' % o for o in over))))
        return zipped(mem)

    def wanted(self):
        return [(s["s"]["b"], s["s"]["link"], sorted(self.word(n) for n in s["from"])) for s in self.c["strings"]]

    def got(self, strings):
        out = []
        for s in strings:
            (t, u), = read_markers(s.string)
            if u and not u.startswith("https://example.com/"):
                raise Damaged("the link goes to %r" % u)
            out.append((t, u, sorted(s.developer_comment.split(", "))))
        return out

    def render(self, w):
        return [(self.word(b), self.url(b) if l else "", o) for b, l, o in w]

    def after(self):
        return [(self.new(p["name"]) if o["name"] else self.word(p["name"]), [self.shown(t) if t["how"] not in ("other", "void") else "-" for t in o["texts"]]) for p, o in zip(self.c["doc"], self.c["out"])]

    def read(self, data):
        q = lambda n: "{%s}%s" % (S, n)
        text = lambda e: "".join(t.text or "" for t in e.iter(q("t")))
        with zipfile.ZipFile(io.BytesIO(data)) as z:
            names = z.namelist()
        shared = [text(e) for e in ET.fromstring(member(data, "xl/sharedStrings.xml")).iter(q("si"))] if "xl/sharedStrings.xml" in names else []
        out = []
        tabs = list(ET.fromstring(member(data, "xl/workbook.xml")).iter(q("sheet")))
        if len(tabs) != len(self.c["doc"]):
            raise Damaged("%d sheets in the workbook" % len(tabs))
        for p, tab in zip(self.c["doc"], tabs):
            cells = []
            if p["k"] == "sheet":
                f = self.FILES["sheet"] % p["num"]
                found = list(ET.fromstring(member(data, f)).iter(q("c")))
                if len(found) != len(p["texts"]):
                    raise Damaged("%d cells in %s" % (len(found), f))
                for t, c in zip(p["texts"], found):
                    if t["how"] in ("other", "void"):
                        cells.append("-" if c.get("t") != "inlineStr" and text(c) == "" else text(c))
                    elif c.get("t") == "s":
                        cells.append(shared[int(c.find(q("v")).text)])
                    elif c.get("t") == "inlineStr":
                        cells.append(text(c))
                    else:
                        m = re.fullmatch(r'HYPERLINK\("[^"]*","((?:[^"]|"")*)"\)', c.find(q("f")).text)
                        cells.append(m.group(1).replace('""', '"') if m else c.find(q("f")).text)
            out.append((tab.get("name"), cells))
        return out

    def translated(self, s, b):
        # the marker stays around the text
        return s.replace(self.word(b), self.new(b)) if not s.startswith("<tx href") else s[:s.index(">") + 1] + self.new(b) + "</tx>"


DIALECTS = {"pptx": [Pptx, Pptx2], "xlsx": [Xlsx]}


def judge(rep, dialect, cls, case):
    from openformats.strings import OpenString
    doc = cls(case, engine.rng_for(rep.seed, "deck", dialect, cls.__name__, case))
    data = doc.package()

    def fail(what, detail):
        rep.fail("%s: %s" % (cls.FMT, what), detail, case=dict(kind="deck", dialect=dialect, cls=cls.__name__, doc=case), seed=rep.seed)
    asis = dict(case, out=[dict(o, name=False, texts=[dict(t, new=False) for t in o["texts"]], notes=[dict(t, new=False) for t in o["notes"]]) for o in case["out"]])
    given, doc.c = case, asis
    was = doc.after()
    if doc.read(data) != was:
        raise AssertionError("the rendering of %r reads as %r" % (case["doc"], doc.read(data)))
    doc.c = given
    try:
        template, strings = doc.handler().parse(data)
    except Exception as e:
        return fail("parsing crashed", "%s: %s; %r" % (type(e).__name__, e, case["doc"]))
    want = doc.wanted()
    try:
        got = doc.got(strings)
    except (Damaged, ValueError) as e:
        return fail("a string is read differently", "%s: %r" % (e, [s.string for s in strings]))
    if got != doc.render(want):
        what = "the origin of a string differs" if [g[:2] for g in got] == [w[:2] for w in doc.render(want)] else \
            "the order of the strings differs" if sorted(g[:2] for g in got) == sorted(w[:2] for w in doc.render(want)) else "the strings differ"
        return fail(what, "expected %r got %r from %r" % (doc.render(want), got, case["doc"]))
    if [s.order for s in strings] != list(range(len(strings))):
        return fail("the strings are numbered differently", repr([s.order for s in strings]))
    chosen = [key(g) for g in case["given"]]
    new, seen = [], set()
    for s, w in zip(strings, want):
        if w[:2] in chosen and s.string_hash not in seen:
            seen.add(s.string_hash)
            new.append(OpenString(s.key, doc.translated(s.string, w[0]), order=s.order))
    try:
        out = doc.handler().compile(template, new)
        result = doc.read(out)
    except Damaged as e:
        return fail("compiling damages the document", str(e))
    except Exception as e:
        return fail("compiling crashed", "%s: %s; %r" % (type(e).__name__, e, case["doc"]))
    if result != doc.after():
        return fail("a text is compiled differently", "expected %r got %r from %r" % (doc.after(), result, case["doc"]))
    # what was not handed over is still there to be read
    try:
        _, again = doc.handler().parse(out)
        texts = [g[:2] for g in doc.got(again)]
    except Exception as e:
        return fail("parsing what was compiled crashed", "%s: %s" % (type(e).__name__, e))
    expect = [(doc.new(b), l) if k in chosen else (t, l) for (t, l, _), (b, k) in zip(doc.render(want), [(w[0], w[:2]) for w in want])]
    if texts != expect:
        return fail("what was compiled has other strings", "expected %r got %r" % (expect, texts))
    rep.count("%s documents" % cls.FMT, 1, 2 + len(want))


def work(args):
    from .report import Report
    prop, tier, seed, dialect, defs, sim, cap = args
    rep = Report(prop, tier, seed)
    r = tlc.run("Deck", dict(defs, DIALECT=dialect, EMIT=True), invariants=INV, simulate=sim, depth=40, seed=seed, workers=4 if not sim else 1)
    rep.tlc(r)
    cases = r.cases
    if len(cases) > cap:
        cases = engine.rng_for(seed, "deck", dialect, sorted(defs.items(), key=str).__repr__()).sample(cases, cap)
    rep.distinct += len(cases)
    for c in cases[:2]:
        rep.sample(c)
    for c in cases:
        for cls in DIALECTS[dialect]:
            judge(rep, dialect, cls, c)
    return rep


def again(args):
    from .report import Report
    prop, seed, case = args
    rep = Report(prop, "quick", seed)
    for cls in DIALECTS[case["dialect"]]:
        if cls.__name__ == case["cls"]:
            judge(rep, case["dialect"], cls, case["doc"])
    return rep


def run(rep, deep):
    k = 1 if not deep else 12
    nums = {1, 2, 3, 9, 10, 11, 20, 100}
    jobs = []
    for dialect in ("pptx", "xlsx"):
        small = dict(MINPARTS=1, MAXPARTS=2, MAXTEXTS=1, NUMS={2, 10}, TEXTS={"a", "b"} if dialect == "xlsx" else {"a"})
        jobs.append((rep.prop, rep.tier, rep.seed, dialect, small, None, 500 if not deep else 30000))
        for n in range(2 if not deep else 4):
            jobs += [(rep.prop, rep.tier, rep.seed + 100 * n, dialect) + j for j in (
                (dict(MINPARTS=2, MAXPARTS=3, MAXTEXTS=3, NUMS=nums, TEXTS={"a", "b", "c"}), 40 * k, 180 * k),
                (dict(MINPARTS=4, MAXPARTS=6, MAXTEXTS=2, NUMS=nums, TEXTS={"a", "b", "c", "d", "e", "f"}), 12 * k, 90 * k))]
    engine.parallel(rep, work, jobs)
