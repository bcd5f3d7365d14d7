"""Known findings: genuine defects recorded rather than repaired.

known-findings.txt lists them (and the repaired ones, as "fixed").  Each
recorded finding names a reproduction below, which runs the specific failing
input on the real code; while it fails the check prints a KNOWN-FINDING line.
Generators leave out exactly the inputs the findings describe, so any other
violation is still reported.
"""
import os, re

from .report import VERIF

REPRO = {}


def repro(f):
    REPRO[f.__name__] = f
    return f


def entries():
    p = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(p):
        return []
    out = []
    for l in open(p, encoding="utf-8"):
        m = re.match(r"finding: property=(\S+) repro=(\S+) (.*)", l.strip())
        if m:
            out.append(m.groups())
    return out


def run(prop, rep):
    for p, name, what in entries():
        if p != prop:
            continue
        try:
            still = REPRO[name]()
        except Exception as ex:
            still = "%s: %s" % (type(ex).__name__, ex)
        if still:
            rep.known.append("%s (%s)" % (what, name))


@repro
def unescaped_inline_entity():
    from openformats.formats.android_unescaped import AndroidUnescapedHandler as H
    text = "<b>&lt;</b>"
    got = H.unescape(H.escape(text))
    return got != text and got


@repro
def vtt_unexpected_timing_line():
    from openformats.formats.vtt import VttHandler
    from openformats.exceptions import ParseError
    try:
        VttHandler().parse("WEBVTT\n\n28.797 --> 30.297\nx\n")
    except ParseError as e:
        return "line 3" not in str(e) and str(e)


@repro
def yaml_dos_block():
    from openformats.formats.yaml import YamlHandler as H
    t, s = H().parse("a: |\r\n  b\r\n")
    out = H().compile(t, s)
    return "\r\n" not in out and repr(out)


@repro
def yaml_key_escapes():
    import yaml
    from openformats.formats.yaml import YamlHandler as H
    bad = []
    for key in ("<5>", "a<TX_DOT>b", "[0]"):
        t, s = H().parse("r:\n  '%s': x\n" % key)
        h = H()
        h.should_use_template = False
        got = yaml.safe_load(h.compile(t, s))
        if got != {"r": {key: "x"}}:
            bad.append(got)
    return bad


@repro
def md2_block_scalar():
    from openformats.formats.github_markdown_v2 import GithubMarkdownHandlerV2 as H
    from openformats.exceptions import ParseError
    template, strings = H().parse("---\na: |\n  one\n  two\nb: x\n---\n\ntext\n")
    out = H().compile(template, strings)
    try:
        again = H().parse(out)[1]
    except ParseError as e:
        return str(e)
    return [s.string for s in again] != [s.string for s in strings] and out


@repro
def po_line_separators():
    from openformats.formats.po import PoHandler as H
    from openformats.strings import OpenString
    template, strings = H().parse('msgid "a"\nmsgstr "b"\n')
    text = "one\u2028two"
    out = H().compile(template, [OpenString(s.key, {5: text}, order=s.order, pluralized=s.pluralized) for s in strings])
    try:
        got = H().parse(out)[1][0].string
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    return got != text and got


@repro
def key_context_collision():
    from openformats.formats.android import AndroidHandler as H
    strings = H().parse('<resources>\n<string name="a:b">x</string>\n<string name="a" product="b:">y</string>\n</resources>\n')[1]
    return len({s.string_hash for s in strings}) < len(strings) and [(s.key, s.context) for s in strings]


@repro
def shared_hyperlink():
    import os, re, tempfile
    from . import u_office as o
    from openformats.strings import OpenString
    rels = [("rId1", o.R + "/styles", "styles.xml", False), ("rId2", o.LINK, "http://a/", True)]
    par = '<w:p><w:r><w:t>x%d</w:t></w:r><w:hyperlink r:id="rId2"><w:r><w:t>link%d</w:t></w:r></w:hyperlink></w:p>'
    doc = o.HEAD + '<w:document xmlns:w="%s" xmlns:r="%s"><w:body>%s<w:sectPr/></w:body></w:document>' % (o.W, o.R, par % (1, 1) + par % (2, 2))
    data = o.zipped([
        ("[Content_Types].xml", o.HEAD + '<Types xmlns="%s"><Default Extension="xml" ContentType="application/xml"/></Types>' % o.CT),
        ("_rels/.rels", o.rels_xml([("rId1", o.R + "/officeDocument", "word/document.xml", False)])),
        ("word/document.xml", doc), ("word/_rels/document.xml.rels", o.rels_xml(rels)), ("word/styles.xml", "<w/>")])
    from openformats.formats.docx import DocxHandler
    template, strings = DocxHandler().parse(data)
    new = [OpenString(s.key, s.string.replace("http://a/", "http://b/") if i == 0 else s.string, order=s.order) for i, s in enumerate(strings)]
    again = DocxHandler().parse(DocxHandler().compile(template, new))[1]
    got = [re.findall("http://./", s.string) for s in again]
    return got != [["http://b/"], ["http://a/"]] and str(got)


def beta(source):
    from openformats.exceptions import ParseError
    from openformats.formats.beta_android import BetaAndroidHandler as H
    try:
        return H().parse(source)[1]
    except ParseError:
        return None


@repro
def beta_duplicates():
    strings = beta('<resources><string name="a">x</string><string name="a">y</string></resources>')
    return strings and len({s.string_hash for s in strings}) < len(strings) and "accepted"


@repro
def beta_malformed():
    out = []
    for source in ("nothing", "<resources><string>x</string></resources>", "<resources><string name=\"a\">x</resources>"):
        try:
            beta(source)
        except Exception as e:
            out.append(type(e).__name__)
    return ", ".join(out)


@repro
def beta_single_quotes():
    try:
        strings = beta("<resources><string name='a'>x</string></resources>")
    except Exception as e:
        return "%s: %s" % (type(e).__name__, e)
    return [s.key for s in strings or []] != ["a"] and "key lost"
