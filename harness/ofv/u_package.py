"""C18: packages of office documents and their temporary folders."""
import contextlib, hashlib, io, os, pwd, random, shutil, tempfile, threading, zipfile
import xml.etree.ElementTree as ET

from . import tlc, engine
from .u_office import A, CT, HEAD, LINK, P, PR, R, S, SHEET, W, rels_xml

MEMBERS = ["binary", "empty", "same-in", "same-out", "folder", "unicode", "lookalike", "newlines", "dot", "up", "absolute", "many"]
INV = ["InvOwned", "InvRest", "InvKept", "InvOutcome", "Emit"]
CRASH = "a failure of the machine"


class Machine(Exception):
    pass


# ------------------------------------------------------------- packages
def extra(m, d, n, away):
    """ the members of a class """
    rng = random.Random("%s%s%d" % (m, d, n))
    ext = {"docx": "docx", "pptx": "pptx", "pptx2": "pptx", "xlsx": "xlsx"}[d]
    top = {"docx": "word", "pptx": "ppt", "pptx2": "ppt", "xlsx": "xl"}[d]
    blob = bytes(bytearray(rng.randrange(256) for _ in range(300)))
    if m == "binary":
        return [(top + "/media/image1.png", bytes(bytearray(range(256))) + blob)]
    if m == "empty":
        return [(top + "/empty.bin", b"")]
    if m == "same-in":
        return [("in.%s" % ext, blob), (top + "/in.%s" % ext, blob[::-1])]
    if m == "same-out":
        return [("out.%s" % ext, blob), ("result.%s" % ext, blob[:10]), ("template.%s" % ext, b"x")]
    if m == "folder":
        return [("docs/", b""), ("docs/inner/", b""), ("docs/inner/a.txt", b"a")]
    if m == "unicode":
        return [(u"media/\u03b5\u03b9\u03ba\u03cc\u03bd\u03b1 1.txt", blob), (u"media/a&b <c> 'd'.txt", b"&")]
    if m == "lookalike":
        return {"docx": [("word/header1.xml", para_docx("not this").encode()), ("word/document2.xml", b"<w:t>no</w:t>"), ("glossary/word/document.xml", b"<w:t>neither</w:t>")],
                "xlsx": [("xl/comments1.xml", b"<comments><t>not this</t></comments>"), ("xl/sharedStrings2.xml", b"<si><t>no</t></si>")]}.get(
                    d, [("ppt/slideLayouts/slideLayout1.xml", b"<a:t>not this</a:t>"), ("ppt/slides/slide10.xml", b"<a:t>no</a:t>")])
    if m == "newlines":
        return [("custom/crlf.xml", b"\xef\xbb\xbf<x>\r\n\t<y>&amp;</y>\r\n</x>\r"), ("custom/latin.txt", u"\xe9\xff".encode("latin-1"))]
    if m == "dot":
        return [(".hidden", blob), ("a.b.c/..d", b"d"), ("name with  blanks ", b"n")]
    if m == "up":
        return [("../neighbour%d.txt" % n, b"inside " + blob), ("docs2/../../../other%d.txt" % n, b"within")]
    if m == "absolute":
        return [("%s/host.txt" % away, b"a member, not the host's file")]
    return [("many/%d/%d.bin" % (i % 3, i), blob[:i]) for i in range(40)]


def zipped(members):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w", zipfile.ZIP_DEFLATED) as z:
        for a, b in members:
            z.writestr(a, b)
    return out.getvalue()


def para_docx(*texts):
    return "".join('<w:p><w:r><w:t xml:space="preserve">%s</w:t></w:r></w:p>' % t for t in texts)


class Package(object):
    """ the package of an operation """

    def __init__(self, op, n, away):
        self.op, self.n, self.d = op, n, op["d"]
        self.texts = ["%s text %d.%d" % (self.d, n, i) for i in range(3)]
        self.main, index, self.rels = getattr(self, "make_" + self.d[:4])()
        fault = op["fault"]
        mem = [("[Content_Types].xml", index[0].encode()), ("_rels/.rels", index[1].encode())]
        for m in sorted(op["m"]):
            mem += extra(m, self.d, n, away)
        inner = sorted(self.main.items()) + sorted(self.rels.items())
        # the members are in any order
        rng = random.Random(n + len(mem))
        for name, text in inner:
            mem.insert(rng.randint(0, len(mem)), (name, text.encode("utf-8")))
        self.clean = dict(mem)
        if op["k"] == "compile":
            template, _ = self.handler().parse(zipped(mem))
            with zipfile.ZipFile(io.BytesIO(template)) as z:
                mem = [(i.filename, z.read(i)) for i in z.infolist()]
        gone = {"noindex": ["[Content_Types].xml", "_rels/.rels"], "nodoc": sorted(self.main)[:1], "norels": sorted(self.rels)}.get(fault, [])
        if fault == "nodoc" and self.d == "xlsx":
            gone = ["xl/workbook.xml"]
        mem = [(a, b) for a, b in mem if a not in gone]
        if fault == "garbled":
            first = "xl/workbook.xml" if self.d == "xlsx" else sorted(self.main)[0]
            mem = [(a, b"\xff\xfe\xfd" + b if a == first else b) for a, b in mem]
        if fault == "clash":
            mem += [("clash", b"file"), ("clash/inside", b"file")]
        self.members = mem
        data = zipped(mem)
        if fault == "notzip":
            data = b"PK this is not an archive" * 20
        elif fault == "cut":
            data = data[:len(data) // 2]
        self.data = data

    def make_docx(self):
        body = ('<!-- note --><w:sdt><w:sdtPr><w:id w:val="7"/></w:sdtPr><w:sdtContent>%s</w:sdtContent></w:sdt>'
                '<w:tbl><w:tblPr><w:tblW w:w="0"/></w:tblPr><w:tr><w:tc><w:tcPr/>%s</w:tc></w:tr></w:tbl>'
                '<w:p><w:pPr><w:jc w:val="left"/></w:pPr><w:bookmarkStart w:id="1"/><w:r><w:rPr><w:b/></w:rPr><w:t>%s</w:t></w:r><w:bookmarkEnd w:id="1"/></w:p>'
                '<w:p/><w:p><w:r><w:t xml:space="preserve">  </w:t></w:r></w:p><x:ext xmlns:x="urn:x" x:a="&quot;&lt;&amp;"> <x:t>not this</x:t> </x:ext>'
                '<w:sectPr><w:pgSz w:w="1"/></w:sectPr>' % (para_docx(self.texts[0]), para_docx(self.texts[1]), self.texts[2]))
        rels = [("rId1", R + "/styles", "styles.xml", False), ("rId2", LINK, "https://example.com/?a=1&b=2", True)]
        return ({"word/document.xml": HEAD + '<w:document xmlns:w="%s" xmlns:r="%s"><w:body>%s</w:body></w:document>' % (W, R, body)},
                (HEAD + '<Types xmlns="%s"/>' % CT, rels_xml([("rId1", R + "/officeDocument", "word/document.xml", False)])),
                {"word/_rels/document.xml.rels": rels_xml(rels)})

    def make_pptx(self):
        t = "application/vnd.openxmlformats-officedocument.presentationml."
        slide = (HEAD + '<p:sld xmlns:a="%s" xmlns:r="%s" xmlns:p="%s"><p:cSld><!-- note --><p:spTree><p:sp><p:nvSpPr><p:cNvPr id="2" name="not this"/></p:nvSpPr>'
                 '<p:txBody><a:bodyPr/>%s</p:txBody></p:sp><p:pic><a:blip r:embed="rId1"/></p:pic></p:spTree></p:cSld></p:sld>')
        par = '<a:p><a:pPr algn="l"/><a:r><a:rPr lang="en"/><a:t>%s</a:t></a:r></a:p>'
        main = {"ppt/slides/slide1.xml": slide % (A, R, P, par % self.texts[0] + "<a:p/>" + par % self.texts[1]),
                "ppt/slides/slide2.xml": slide % (A, R, P, par % self.texts[2])}
        over = "".join('<Override PartName="/%s" ContentType="%sslide+xml"/>' % (n, t) for n in sorted(main, reverse=True))
        rels = {n.replace("slides/", "slides/_rels/") + ".rels": rels_xml([("rId1", R + "/image", "../media/image1.png", False)]) for n in main}
        return main, (HEAD + '<Types xmlns="%s">%s</Types>' % (CT, over), rels_xml([])), rels

    def make_xlsx(self):
        over = [("/xl/workbook.xml", SHEET + "sheet.main+xml"), ("/xl/worksheets/sheet1.xml", SHEET + "worksheet+xml"), ("/xl/sharedStrings.xml", SHEET + "sharedStrings+xml")]
        main = {"xl/workbook.xml": HEAD + '<workbook xmlns="%s" xmlns:r="%s"><calcPr/><sheets><sheet name="%s" sheetId="1" r:id="rId1"/></sheets></workbook>' % (S, R, self.texts[0]),
                "xl/worksheets/sheet1.xml": HEAD + ('<worksheet xmlns="%s" xmlns:r="%s"><!-- note --><sheetViews><sheetView/></sheetViews><cols><col min="1"/></cols><sheetData><row r="1">'
                                                    '<c r="A1" t="s"><v>1</v></c><c r="B1"><f>SUM(1,"2")</f><v>3</v></c><c r="C1" t="inlineStr"><is><t>%s</t></is></c></row></sheetData>'
                                                    '<hyperlinks><hyperlink ref="B1" r:id="rId1"/></hyperlinks></worksheet>') % (S, R, self.texts[2]),
                "xl/sharedStrings.xml": HEAD + '<sst xmlns="%s" count="2"><si><t>not used</t></si><si><t>%s</t><phoneticPr fontId="1"/></si></sst>' % (S, self.texts[1])}
        rels = {"xl/worksheets/_rels/sheet1.xml.rels": rels_xml([("rId1", LINK, "https://example.com/?a=1&b=2", True)])}
        return main, (HEAD + '<Types xmlns="%s">%s</Types>' % (CT, "".join('<Override PartName="%s" ContentType="%s"/>' % o for o in over)), rels_xml([])), rels

    def handler(self):
        if self.d == "docx":
            from openformats.formats.docx import DocxHandler
            return DocxHandler()
        if self.d == "xlsx":
            from openformats.formats.xlsx_unstructured import XlsxUnstructuredHandler
            return XlsxUnstructuredHandler()
        from openformats.formats import pptx
        return pptx.PptxHandlerV2() if self.d == "pptx2" else pptx.PptxHandler()

    def check(self, result, word):
        """ what is wrong with the package that came out, or None """
        if not isinstance(result, bytes):
            return "the package is of type %s" % type(result).__name__
        try:
            with zipfile.ZipFile(io.BytesIO(result)) as z:
                names = z.namelist()
                data = [z.read(i) for i in z.infolist()]
                bad = z.testzip()
        except Exception as e:
            return "the package cannot be read: %s" % e
        want = [a for a, _ in self.members]
        if names != want:
            return "the members differ: %r instead of %r" % ([n for n in names if n not in want] or names[:9], [n for n in want if n not in names] or want[:9])
        if bad:
            return "the member %s is damaged" % bad
        for (a, b), c in zip(self.members, data):
            b = self.clean[a]
            if a in self.main or a in self.rels:
                try:
                    x, y = canonical(b), canonical(c)
                except Exception as e:
                    return "the part %s cannot be read: %s" % (a, e)
                for t in self.texts:
                    x = swap(x, t, word(t))
                if self.op["rtl"] and self.op["k"] == "compile":
                    x, y = flat(x), flat(y)
                if x != y:
                    return "the part %s differs in more than its texts: %s" % (a, differs(x, y))
            elif b != c:
                return "the member %s differs: %r instead of %r" % (a, c[:60], b[:60])
        return None


def canonical(data):
    p = ET.XMLParser(target=ET.TreeBuilder(insert_comments=True, insert_pis=True))
    return tree(ET.fromstring(data, parser=p))


def tree(e):
    at = tuple(sorted((k, v) for k, v in e.attrib.items() if k not in ("txid", "rightToLeft")))
    return (e.tag if isinstance(e.tag, str) else "#", at, e.text or "", tuple((tree(k), k.tail or "") for k in e))


def swap(t, old, new):
    tag, at, text, kids = t
    at = tuple((k, new if v == old else v) for k, v in at)
    return (tag, at, new if text == old else text, tuple((swap(k, old, new), tail) for k, tail in kids))


DIRECTION = {"{%s}%s" % (W, n) for n in ("bidi", "rtl", "bidiVisual")}


def flat(t):
    """ without what says the direction of the text """
    tag, at, text, kids = t
    at = tuple((k, v) for k, v in at if k not in ("rtl", "algn"))
    out = []
    for k, tail in kids:
        if k[0] in DIRECTION:
            continue
        k = flat(k)
        if k[0] == "{%s}pPr" % W and not k[3] and not k[1]:
            continue
        out.append((k, tail))
    return (tag, at, text, tuple(out))


def differs(x, y):
    if x[:3] != y[:3]:
        return "%r became %r" % (x[:3], y[:3])
    if len(x[3]) != len(y[3]):
        return "the children of %s were %r and are %r" % (x[0], [k[0][0].split("}")[-1] for k in x[3]], [k[0][0].split("}")[-1] for k in y[3]])
    for (a, s), (b, t) in zip(x[3], y[3]):
        if a != b:
            return differs(a, b)
        if s != t:
            return "%r after %s became %r" % (s, a[0], t)


# ------------------------------------------------------------- scheduling
class Task(threading.Thread):
    """ an operation that pauses before it builds a tree or opens an archive """

    def __init__(self, board, i, fn, crash, full):
        threading.Thread.__init__(self, daemon=True)
        self.board, self.i, self.fn, self.crash, self.full = board, i, fn, crash, full
        self.go, self.ready = threading.Semaphore(0), threading.Semaphore(0)
        self.over, self.result, self.error, self.soups, self.fired = False, None, None, 0, False

    def run(self):
        self.go.acquire()
        try:
            self.result = self.fn()
        except BaseException as e:
            self.error = e
        self.over = True
        self.ready.release()

    def pause(self):
        self.ready.release()
        self.go.acquire()

    def step(self):
        self.go.release()
        self.ready.acquire()


@contextlib.contextmanager
def watched(tasks):
    import bs4
    by = {}
    soup, opened = bs4.BeautifulSoup.__init__, zipfile.ZipFile.__init__

    def me():
        return by.get(threading.current_thread())

    def soup_init(self, *a, **k):
        t = me()
        if t:
            t.pause()
            t.soups += 1
            if t.crash and t.soups == t.crash:
                t.fired = True
                raise Machine(CRASH)
        return soup(self, *a, **k)

    def zip_init(self, file, mode="r", *a, **k):
        t = me()
        if t:
            t.pause()
            if t.full and mode != "r":
                t.fired = True
                raise OSError(28, "No space left on device")
        return opened(self, file, mode, *a, **k)
    for t in tasks:
        by[t] = t
    bs4.BeautifulSoup.__init__, zipfile.ZipFile.__init__ = soup_init, zip_init
    try:
        yield
    finally:
        bs4.BeautifulSoup.__init__, zipfile.ZipFile.__init__ = soup, opened


def listing(folder):
    """ everything below a folder, with its contents """
    out = {}
    for root, dirs, files in os.walk(folder):
        for n in dirs:
            out[os.path.relpath(os.path.join(root, n), folder)] = None
        for n in files:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, folder)] = hashlib.md5(f.read()).hexdigest()
    return out


class Bad(object):
    """ a text that cannot be read """

    def __init__(self, s):
        self.s = s

    def __getattr__(self, name):
        if name == "string":
            raise Machine("a string that cannot be read")
        return getattr(self.s, name)


def unprivileged():
    """ what escapes from a folder here can reach nothing real """
    if os.geteuid() == 0:
        try:
            nobody = pwd.getpwnam("nobody")
            os.setgroups([])
            os.setresgid(nobody.pw_gid, nobody.pw_gid, nobody.pw_gid)
            os.setresuid(nobody.pw_uid, nobody.pw_uid, nobody.pw_uid)
        except (KeyError, OSError):
            # the names of the members only lead to the scratch folder anyway
            pass


def history(rep, case):
    """ one history of operations """
    from openformats.strings import OpenString
    scratch = tempfile.mkdtemp(prefix="ofv-pkg-")
    away, temp = os.path.join(scratch, "away"), os.path.join(scratch, "a", "b", "temp")
    saved = tempfile.tempdir

    def fail(what, detail, n=None):
        rep.fail(what if n is None else "%s: %s" % (case["ops"][n]["d"], what), "%s; history %r" % (detail, case), case=dict(package=True, history=case), seed=rep.seed)
    try:
        os.makedirs(temp)
        os.mkdir(away)
        with open(os.path.join(away, "host.txt"), "wb") as f:
            f.write(b"a file of the host")
        for n in range(len(case["ops"])):
            with open(os.path.join(scratch, "a", "b", "neighbour%d.txt" % n), "wb") as f:
                f.write(b"a file of the host")
        tempfile.tempdir = temp
        ops = [dict(o, rtl=bool((len(case["sched"]) + n) % 3 == 2)) for n, o in enumerate(case["ops"])]
        try:
            packs = [Package(o, n, away) for n, o in enumerate(ops)]
        except Exception as e:
            return fail("a template cannot be made", "%s: %s" % (type(e).__name__, e))
        tasks, words = [], []
        for n, (o, p) in enumerate(zip(ops, packs)):
            words.append((lambda t: t) if o["k"] == "parse" else (lambda t: "new " + t))
            tasks.append(start(n, o, p, OpenString))
        outside = {k: v for k, v in listing(scratch).items() if not k.startswith("a/b/temp/")}
        own = [set() for _ in tasks]
        left = {i: case["sched"].count(i + 1) for i in range(len(tasks))}
        with watched(tasks):
            for t in tasks:
                t.start()
            for i in case["sched"]:
                i -= 1
                left[i] -= 1
                t = tasks[i]
                while not t.over:
                    before = listing(temp)
                    t.step()
                    after = listing(temp)
                    new = {k.split("/")[0] for k in after} - {k.split("/")[0] for k in before}
                    own[i] |= new
                    for k, v in before.items():
                        if k.split("/")[0] not in own[i] and after.get(k, "gone") != v:
                            return fail("an operation changes the temporary data of another one", "%s" % k, i)
                    if left[i] > 0:
                        break
                if t.over:
                    still = sorted(k for k in os.listdir(temp) if k in own[i])
                    if still:
                        return fail("temporary data is left when it has %s" % ("failed" if t.error else "ended"), "%r" % still, i)
        rep.count("histories of %d" % len(ops), 1, len(case["sched"]))
        if os.listdir(temp):
            return fail("temporary data is left", "%r" % os.listdir(temp))
        now = listing(scratch)
        if now != dict(outside, **{"a/b/temp": None}):
            return fail("files outside of the temporary folder change", "%r" % sorted(set(now.items()) ^ set(outside.items())))
        for n, (o, p, t) in enumerate(zip(ops, packs, tasks)):
            what = "%s %s" % (o["d"], o["k"])
            fault = o["fault"]
            if fault in ("crash", "full") and not t.fired:
                fault = ""
            if o["d"] == "docx" and fault == "norels":
                fault = ""
            if fault:
                if t.error is None and fault != "badstring":
                    return fail("%s accepts a package with a fault" % o["k"], fault, n)
                continue
            if t.error is not None:
                return fail("%s fails" % o["k"], "%s: %s" % (type(t.error).__name__, t.error), n)
            out = t.result
            if o["k"] == "parse":
                out, strings = t.result
                if [s.string for s in strings] != p.texts:
                    return fail("parse reads other strings", "%r instead of %r" % ([s.string for s in strings], p.texts), n)
            res = p.check(out, words[n])
            if res:
                return fail("%s changes more than the texts of the package" % o["k"], res, n)
            if hashlib.md5(p.data).hexdigest() != t.given:
                return fail("%s modifies its input" % o["k"], "", n)
    finally:
        tempfile.tempdir = saved
        shutil.rmtree(scratch, ignore_errors=True)


def start(n, o, p, OpenString):
    """ the task of an operation """
    data = p.data
    handler = p.handler()
    strings = [OpenString(t, t, order=i) for i, t in enumerate(p.texts)]
    if o["k"] == "compile":
        new = [OpenString(t, "new " + t, order=i) for i, t in enumerate(p.texts)]
        if o["fault"] == "badstring":
            new[1] = Bad(new[1])
        fn = lambda: handler.compile(data, new, **(dict(is_rtl=True) if o["rtl"] else {}))
    else:
        fn = lambda: handler.parse(data)
    crash = 0
    if o["fault"] == "crash":
        crash = 1 + (n + len(o["m"])) % 2 if o["step"] == 2 else 3 + (n + len(o["m"])) % 3
    t = Task(None, n, fn, crash, o["fault"] == "full")
    t.given = hashlib.md5(data).hexdigest()
    return t


def work(args):
    from .report import Report
    from openformats.formats import docx, pptx, xlsx_unstructured  # noqa: before the privileges go
    prop, tier, seed, cases = args
    unprivileged()
    rep = Report(prop, tier, seed)
    for c in cases:
        history(rep, c)
        rep.distinct += 1
    return rep


def again(args):
    """ a recorded history """
    prop, seed, case = args
    return work((prop, "quick", seed, [case]))


def run(rep, deep):
    cases = []
    dia = {"docx", "pptx", "pptx2", "xlsx"}
    for defs, sim, cap in ((dict(MINOPS=1, MAXOPS=1, MAXMEM=1), None, 10 ** 6),
                           (dict(MINOPS=2, MAXOPS=2, MAXMEM=2), 2500 if not deep else 25000, 1000 if not deep else 20000),
                           (dict(MINOPS=3, MAXOPS=4, MAXMEM=3), 2500 if not deep else 25000, 600 if not deep else 15000)):
        members = set(MEMBERS)
        r = tlc.run("Workdir", dict(defs, DIALECTS=dia, MEMBERS=members, EMIT=True), invariants=INV, properties=() if sim else ("InvApart",), simulate=sim, depth=40, seed=rep.seed,
                    workers=4 if not sim else 1)
        rep.tlc(r)
        g = engine.rng_for(rep.seed, "workdir", defs)
        cs = r.cases if len(r.cases) <= cap else g.sample(r.cases, cap)
        for c in cs[:2]:
            rep.sample(c)
        cases += cs
    n = 24
    engine.rng_for(rep.seed, "workdir").shuffle(cases)
    engine.parallel(rep, work, [(rep.prop, rep.tier, rep.seed, cases[k::n]) for k in range(n)])
    rep.notes.append("one operation alone: every dialect, kind, fault and class of members; several operations: simulated interleavings")
