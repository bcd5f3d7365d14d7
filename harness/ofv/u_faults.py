"""C11: malformed files are rejected, with the right line.

Every format is described by its headers, a good item and a table of faults.
A fault is rendered as an item in which the offending construct stands between
the marks « and »; where in the item it stands is measured from the rendering
and given to the specification, which predicts the lines it occupies in a file.
"""
import multiprocessing, random, re
from . import tlc, engine

MAXBODY = 3
BIG = 60


class Kind(object):
    def __init__(self, name, render, pair=False, end=False, lines=True):
        # lines: the line the message should name is beyond doubt
        self.name, self.render, self.pair, self.end, self.lines = name, render, pair, end, lines

    def measure(self, fmt):
        off, ext = [], []
        for b in range(MAXBODY + 1):
            t = self.render(7, b, random.Random(1), 3)
            assert t.count("«") == 1 and t.count("»") == 1, (fmt.name, self.name, t)
            i, j = t.index("«"), t.index("»")
            off.append(t[:i].count("\n"))
            ext.append(BIG if self.end else t[i:j].count("\n"))
        return dict(pair=self.pair, end=self.end, off=off, ext=ext)


class Format(object):
    name = None
    headers = [""]
    footer = ""
    pads = ["\n"]
    height = 1
    line = re.compile(r"line (\d+)")
    marks = "first"       # which of the lines a message names must be right
    lines_of_strings = None

    def read(self, text):
        h = self.handler()
        t, s = h.parse(text)
        return t, list(s)

    def join(self, items):
        return "".join(items)

    def tail(self, rng):
        return self.footer

    def spec(self):
        return dict(kinds=[k.measure(self) for k in self.kinds], headers=[h.count("\n") for h in self.headers], height=self.height)

    def document(self, c, rng):
        """the text, with the marks in it"""
        items = []
        for n, x in enumerate(c["items"], 1):
            pad = "".join(rng.choice(self.pads) for _ in range(x["p"]))
            if x["k"]:
                items.append((pad, self.kinds[x["k"] - 1].render(n, x["b"], rng, x["with"])))
            else:
                items.append((pad, self.good(n, x["b"], rng)))
        return self.headers[c["head"] - 1] + self.join([p + t for p, t in items]) + self.tail(rng)


def body(b, rng, sep="\n"):
    words = ["text", "more text", "é 日", "x y z"]
    return sep.join(rng.choice(words) for _ in range(b + 1))


# ---------------------------------------------------------------------------

class Srt(Format):
    name = "SRT"
    headers = ["", "\n", "\n\n \n"]
    height = 4

    def handler(self):
        from openformats.formats.srt import SrtHandler
        return SrtHandler()

    def cue(self, order="%d", timing="00:01:02,003 --> 00:01:04,005", text=None):
        def f(n, b, rng, w):
            o = order % (n * 10) if "%d" in order else order
            t = body(b, rng) if text is None else text
            return o + "\n" + timing + "\n" + t + "\n\n"
        return f

    def good(self, n, b, rng):
        return self.cue(timing=rng.choice(["00:01:02,003 --> 00:01:04,005", "00:01:02,003 --> 00:01:04,005 X1:0", "1:1:2 --> 2:0:0"]))(n, b, rng, 0)

    def pairs(self, n, b, rng, w):
        return "«%s»\n00:01:02,003 --> 00:01:04,005\n%s\n\n" % (rng.choice([w * 10, w * 10 - 1]), body(b, rng))

    @property
    def kinds(self):
        c = self.cue
        return [Kind("order not a number", c(order="«%dx»")), Kind("order zero", c(order="«0»")), Kind("order negative", c(order="«-%d»")),
                Kind("order not ascending", self.pairs, pair=True),
                Kind("no arrow", c(timing="«00:01:02,003 -> 00:01:04,005»")), Kind("no end", c(timing="«00:01:02,003 -->»")), Kind("no timing", c(timing="«hello»")),
                Kind("bad start", c(timing="«00:xx:02,003 --> 00:01:04,005»")), Kind("bad end", c(timing="«00:01:02,003 --> 01:04»")),
                Kind("bad milliseconds", c(timing="«00:01:02,003 --> 00:01:04,0z»")),
                Kind("no text", lambda n, b, rng, w: "«%d\n00:01:02,003 --> 00:01:04,005»\n\n" % (n * 10)),
                Kind("number alone", lambda n, b, rng, w: "«%d»\n\n" % (n * 10))]


class Vtt(Format):
    name = "VTT"
    headers = ["WEBVTT\n\n", "WEBVTT - x\nKind: c\n\n", "WEBVTT\n\nNOTE a\nb\n\n\n", "WEBVTT\n\nSTYLE\n::cue { }\n\n"]
    height = 3

    def handler(self):
        from openformats.formats.vtt import VttHandler
        return VttHandler()

    def good(self, n, b, rng):
        return "%s\n%s\n\n" % (rng.choice(["00:01:02.003 --> 00:01:04.005", "01:02.003 --> 01:04.005", "01:02.003 --> 01:04.005 align:left"]), body(b, rng))

    def cue(self, timing):
        # the body stands before the timings, as an identifier, and after them
        def f(n, b, rng, w):
            return "".join("id %d\n" % i for i in range(b)) + "«" + timing + "»\n" + body(b, rng) + "\n\n"
        return f

    @property
    def kinds(self):
        return [Kind("no start", self.cue("--> 00:01:04.005")), Kind("no end", self.cue("00:01:02.003 -->")), Kind("arrow glued", self.cue("00:01:02.003-->00:01:04.005")),
                Kind("arrow misplaced", self.cue("00:01:02.003 00:01:03.003 --> 1")),
                Kind("bad start", self.cue("00:xx:02.003 --> 00:01:04.005")), Kind("bad end", self.cue("00:01:02.003 --> 01:0z.005")), Kind("bad milliseconds", self.cue("00:01:02.003 --> 01:04.00z"))]


class VttHeader(Vtt):
    name = "VTT header"
    headers = ["WEBVT\n\n", "webvtt\n\n", "X\nWEBVTT\n\n"]
    # the whole file is malformed, wherever a cue stands
    always = True

    @property
    def kinds(self):
        return []


# ---------------------------------------------------------------------------

class Json(Format):
    headers = ["{\n", "\n\n{\n", "{\n\n  \n", " {  \n"]
    pads = ["\n", "  \n", "\t\n"]
    height = 1

    def join(self, items):
        return ",\n".join(items)

    def tail(self, rng):
        return "\n}" + rng.choice(["", "\n", "\n\n"])

    def value(self, text, rng):
        return '"%s"' % text

    def key(self, n):
        return "k%d" % n

    def member(self, key, value, b):
        return '"%s":%s%s' % (key, "\n" * b + " ", value)

    def good(self, n, b, rng):
        return '  "%s":%s %s' % (self.key(n), "\n" * b, self.value(rng.choice(["text", "é\\n", "a \\\"q\\\"", "{x}"]), rng))

    def put(self, template):
        """a member that does not depend on the format: %k key, %v a value"""
        def f(n, b, rng, w):
            return template.replace("%k", self.key(n)).replace("%w", self.key(w)).replace("%n", "\n" * b).replace("%v", self.value("text %d" % n, rng)).replace("%u", self.value("clash %d" % n, rng))
        return f

    def syntax(self):
        p = self.put
        return [Kind("no comma", p('"%k a": %n %v« \n "%k":» %v')), Kind("two commas", p('"%k": %n%v«,,\n »"%k b": %v')), Kind("no colon", p('"%k a": %v,\n%n "%k"« %v»')),
                Kind("no value", p('"%k":%n« , »\n"%k b": %v')), Kind("single quotes", p('%n «\'%k\'»: %v')), Kind("newline in string", p('%n"%k": «"a\nb"»')),
                Kind("bad literal", p('%n"%k": «tru»')), Kind("bad escape", p('%n"%k": «"a\\q"»')), Kind("comment", p('%n«// comment»\n"%k": %v')),
                Kind("bare key", p('%n«%k: »1')), Kind("unclosed list", p('%n"%k": [1, 2«, \n "%k x": » 3]')), Kind("closing bracket", p('%n"%k": %v«] »')),
                Kind("unclosed string", p('%n"%k": «"abc »'), end=True), Kind("unclosed object", p('%n"%k": «{»"x": %v'), end=True, lines=False),
                Kind("control character", p('%n"%k": «"a\tb"»')),
                Kind("extra data", p('%n"%k": %v}«{»'), end=True), Kind("trailing comma", p('%n"%k": %v«,»'), end=True)]

    def dup(self):
        p = self.put
        return [Kind("duplicate key", p('%n«"%w"»: %u'), pair=True), Kind("duplicate key at once", p('"%k": %v,%n «"%k"»: %u'))]


class KeyValue(Json):
    name = "KEYVALUEJSON"

    def handler(self):
        from openformats.formats.json import JsonHandler
        return JsonHandler()

    def good(self, n, b, rng):
        if b >= 2 and rng.random() < .5:
            return '  "%s": {\n  "x": "y"%s}' % (self.key(n), "\n" * (b - 1))
        if rng.random() < .2:
            return '  "%s": %s{ n, plural, one {a} other {b} }"' % (self.key(n), "\n" * b + '"')
        return super(KeyValue, self).good(n, b, rng)

    def icu(self):
        out = []
        for name, v in (("invalid rule", "{n, plural, one {a} uno {b}}"), ("two other", "{n, plural, other {a} other {b}}"), ("no rules", "{n, plural, }"),
                        ("braces do not match", "{n, plural, one {a} other {b}"), ("text between", "{n, plural, one {a} x other {b}}")):
            out.append(Kind("plural: " + name, self.put('%n"%k": «"' + v + '"»')))
        return out

    @property
    def kinds(self):
        p = self.put
        return self.syntax() + self.dup() + self.icu() + [
            Kind("duplicate inside", p('"%k": {"a": %v,%n\n «"a"»: %v}')), Kind("duplicate deep", p('"%k": [\n{"a": {%n"a": %v, \n«"a"»: %v}}]')),
            Kind("duplicate not a string", p('"%k": {"a": 1,%n\n «"a"»: null}'))]


class KeyValueCompact(KeyValue):
    """the whole file on one line, unless a body or padding says otherwise"""
    name = "KEYVALUEJSON one line"
    headers = ["{", '{"first": "x", ']
    height = 0

    def join(self, items):
        return ",".join(items)

    def tail(self, rng):
        return "}"


class KeyValueList(KeyValue):
    """the root is a list"""
    name = "KEYVALUEJSON list"
    headers = ["[\n", "\n[ \n"]

    def tail(self, rng):
        return "\n]"

    def good(self, n, b, rng):
        return "\n" * b + rng.choice(['"text"', '["a"]', '{"a": "b"}', "1"])

    @property
    def kinds(self):
        p = self.put
        return [Kind("duplicate inside", p('{"a": %v,%n\n «"a"»: %v}')), Kind("bad literal", p('%n«nul»')), Kind("plural", p('%n«"{n, plural, uno {a}}"»'))]


class Structured(Json):
    name = "STRUCTURED_JSON"

    def handler(self):
        from openformats.formats.json import StructuredJsonHandler
        return StructuredJsonHandler()

    def value(self, text, rng):
        return '{"string": "%s"%s}' % (text, rng.choice(["", ', "context": "c %s"' % text, ', "x": 1']))

    @property
    def kinds(self):
        p = self.put
        out = self.syntax() + self.dup()
        for v in ("5", "true", '["a"]', '{"a": "b"}', "1.5"):
            out.append(Kind("string is " + v[:1], p('%n«"%k": {"x": 1,\n "string": ' + v + '}»')))
        for f in ("context", "developer_comment"):
            for v in ("5", "false", '["a"]', "{}"):
                out.append(Kind("%s is %s" % (f, v[:1]), p('%n«"%k": {"string": "x",\n "' + f + '": ' + v + '}»')))
        out += [Kind("plural: invalid rule", p('"%k": {%n"string": «"{n, plural, one {a} uno {b}}"»}')),
                Kind("duplicate in a group", p('"%k": {"a": %v,%n\n «"a"»: %v}'))]
        return out


class Arb(Json):
    name = "ARB"
    headers = ['{\n"@@locale": "en",\n', "{\n"]

    def handler(self):
        from openformats.formats.json import ArbHandler
        return ArbHandler()

    def good(self, n, b, rng):
        if b and rng.random() < .5:
            return '"@%s": {"description": "d"},%s"%s": "text"' % (self.key(n), "\n" * b, self.key(n))
        return super(Arb, self).good(n, b, rng)

    @property
    def kinds(self):
        p = self.put
        return self.syntax() + self.dup() + [
            Kind("plural: invalid rule", p('%n"%k": «"{n, plural, one {a} uno {b}}"»')), Kind("plural: braces", p('%n"%k": «"{n, plural, one {a} other {b}"»')),
            Kind("duplicate metadata", p('"@%k": {},%n\n"%k": "x", \n «"@%k"»: {}')), Kind("duplicate twice", p('"%k": "x",%n"%k y": "x", \n«"%k"»: 1'))]


class Chrome(Json):
    name = "CHROME"

    def handler(self):
        from openformats.formats.json import ChromeI18nHandler
        return ChromeI18nHandler()

    def value(self, text, rng):
        return '{"message": "%s"%s}' % (text, rng.choice(["", ', "description": "d"']))

    @property
    def kinds(self):
        p = self.put
        return self.syntax() + self.dup() + [Kind("duplicate message", p('"%k": {"message": "a",%n\n «"message"»: "b"}'))]


class ChromeV3(Chrome):
    name = "CHROME_V3"

    def handler(self):
        from openformats.formats.json import ChromeI18nHandlerV3
        return ChromeI18nHandlerV3()

    @property
    def kinds(self):
        p = self.put
        return self.syntax() + self.dup() + [
            Kind("plural: invalid rule", p('%n"%k": {"message": «"{n, plural, one {a} uno {b}}"»}'))]


# ---------------------------------------------------------------------------

class Xml(Format):
    pads = ["\n", "\n", "  <!-- <string name=\"x\">c</string> -->\n", "\t\n"]
    height = 1

    def syntax(self, tag, attr, text):
        """syntax errors in <tag attr>text</tag>"""
        a = " " + attr if attr else ""
        ns = dict(t=tag, a=a, x=text)

        def p(template):
            def f(n, b, rng, w):
                return template.replace("%t", tag).replace("%a", a.replace("%d", "f%d" % n)).replace("%x", text).replace("%n", "\n" * b) + "\n"
            return f
        return [Kind("wrong closing tag", p("%n«<%t%a>%x</%tt>»")), Kind("closed by another", p("%n«<%t%a>%x</b>»")), Kind("inner tag not closed", p("%n<%t%a>a «<b>%x</%t>»")),
                Kind("tags cross", p("%n«<%t%a>a <b>%x</%t></b>»")),
                Kind("closing tag with attribute", p("%n«<%t%a>%x</%t x>»")), Kind("tag never closed", p("%n«<%t%a>%x»"), end=True),
                Kind("comment never closed", p("%n«<!-- x»"), end=True), Kind("opening tag never closed", p("%n«<%t%a»"), end=True), Kind("attribute without quotes", p("%n«<%t x=1%a>%x</%t>»")),
                Kind("attribute without value", p("%n«<%t x%a>%x</%t>»")), Kind("slash in the tag", p("%n«<%t%a / x>%x</%t>»"))]


class Android(Xml):
    name = "ANDROID"
    headers = ["<resources>\n", '<?xml version="1.0" encoding="utf-8"?>\n<!-- <resources> -->\n<resources\n  xmlns:x="y">\n', "\n\n<resources>\n\n"]
    footer = "</resources>\n"

    def handler(self):
        from openformats.formats.android import AndroidHandler
        return AndroidHandler()

    def good(self, n, b, rng):
        r = rng.random()
        if r < .5 or not b:
            return '<string name="n%d">%s</string>\n' % (n, body(b, rng))
        if r < .6:
            return '<string\nname="n%d">%s</string>\n' % (n, body(b - 1, rng))
        if r < .7:
            return '<plurals name="n%d">\n%s<item quantity="other">x</item></plurals>\n' % (n, "\n" * (b - 1))
        if r < .8:
            return '<string-array name="n%d"><item>x</item>\n%s<item>x</item></string-array>\n' % (n, "\n" * (b - 1))
        return '<string-array name="n%d"><item>%s</item></string-array>\n' % (n, body(b, rng))

    @property
    def kinds(self):
        def p(t):
            return lambda n, b, rng, w: t.replace("%k", "n%d" % n).replace("%w", "n%d" % w).replace("%n", "\n" * b).replace("%b", body(b, rng)) + "\n"
        P = '%n<plurals name="%k">\n<item quantity="one">x</item>\n'
        E = '\n<item quantity="other">x</item></plurals>'
        return self.syntax("string", 'name="%d"', "text") + [
            Kind("no name", p('%n«<string>x</string>»')), Kind("no name, with product", p('%n«<string product="p">x</string>»')),
            Kind("array without name", p('%n«<string-array>\n<item>x</item></string-array>»')), Kind("plurals without name", p('%n«<plurals>\n<item quantity="other">x</item>\n</plurals>»')),
            Kind("no quantity", p(P + '%n«<item>x</item>»' + E)), Kind("invalid quantity", p(P + '%n«<item quantity="uno">x</item>»' + E)),
            Kind("repeated quantity", p(P + '%n«<item quantity="one">y</item>»' + E)), Kind("wrong tag in plurals", p(P + '%n«<itm quantity="one">y</itm>»' + E)),
            Kind("no other", p('%n«<plurals name="%k"\n><item quantity="one">x</item></plurals>»')), Kind("empty plurals", p('%n«<plurals name="%k"></plurals>»')),
            Kind("missing plural text", p('%n«<plurals name="%k">\n<item quantity="one"></item>\n<item quantity="other">x</item></plurals>»')),
            Kind("duplicate", p('%n«<string name="%w" product="d">y</string>\n<string name="%w" product="d">z</string>»'), pair=True),
            Kind("duplicate without product", p('<string name="%k">x</string>%n«<string name="%k">y</string>»')),
            Kind("duplicate plurals", p('<plurals name="%k"><item quantity="other">x</item></plurals>%n«<plurals name="%k"><item quantity="other">x</item></plurals>»')),
            Kind("duplicate with product", p('<string name="%k" product="q">x</string>%n\n«<string name="%k" product="q">y</string>»')),
            Kind("text after a string", p('%n«<string name="%k">x</string> oops»')), Kind("text after an item", p('%n<string-array name="%k"><item>a</item>\n«<item>b</item> oops»</string-array>')),
            Kind("text in plurals", p('%n«<plurals name="%k"> oops»<item quantity="other">x</item></plurals>')), Kind("text in an array", p('%n«<string-array name="%k"> oops»<item>x</item></string-array>')),
            Kind("text after a long string", p('%n<string name="%k">a\n\nb</string>« oops»')), Kind("text after a long item", p('%n<string-array name="%k"><item>a</item>\n<item>b\nc\n</item>« oops»</string-array>')),
            Kind("text after a long plural", p('%n<plurals name="%k">\n<item quantity="other">x</item>\n</plurals>« oops»')),
            Kind("text after a long plural item", p(P + '%n<item quantity="two">x\ny</item>« oops»' + E)), Kind("text after a long comment", p('%n<!-- c\nd -->« oops»')),
            Kind("text after an array", p('%n<string-array name="%k">\n<item>x</item>\n</string-array>« oops»')),
            Kind("text after a plural item", p(P + '%n«<item quantity="two">x</item> oops»' + E)), Kind("text after a comment", p('%n«<!-- c --> oops»'))]


class AndroidRoot(Android):
    name = "ANDROID no root"
    headers = ["", "<resource>\n", "<!-- <resources> -->\n", "<xresources>\n"]
    footer = ""
    always = True

    @property
    def kinds(self):
        return []


class AndroidUnescaped(Android):
    name = "ANDROID_UNESCAPED"

    def handler(self):
        from openformats.formats.android_unescaped import AndroidUnescapedHandler
        return AndroidUnescapedHandler()

    @property
    def kinds(self):
        def p(t):
            return lambda n, b, rng, w: t.replace("%k", "n%d" % n).replace("%n", "\n" * b) + "\n"
        return super(AndroidUnescaped, self).kinds + [
            Kind("bare quote", p('%n<string name="%k">«a \' b»</string>')), Kind("bare double quote", p('%n<string name="%k">«a " b»</string>')),
            Kind("bare quote in plurals", p('%n<plurals name="%k"><item quantity="one">a</item>\n<item quantity="other">«it\'s»</item></plurals>')),
            Kind("bare quote in array", p('%n<string-array name="%k"><item>a</item>\n<item>«it\'s»</item></string-array>'))]


class StringsDict(Xml):
    name = "STRINGSDICT"
    headers = ['<plist>\n<dict>\n', '<?xml version="1.0"?>\n<!-- <dict> -->\n<plist version="1.0"><dict>\n\n']
    footer = "</dict>\n</plist>\n"
    # a comment would stand where a tag is expected
    pads = ["\n", "  \n"]
    height = 4

    def handler(self):
        from openformats.formats.stringsdict import StringsDictHandler
        return StringsDictHandler()

    def entry(self, n, b, inner, var="v"):
        return "<key>n%d</key>\n<dict>%s<key>NSStringLocalizedFormatKey</key><string>%%#@v@</string>\n<key>%s</key>%s</dict>\n\n" % (n, "\n" * b, var, inner)

    def good(self, n, b, rng):
        if rng.random() < .5:
            return self.entry(n, 0, "<dict><key>one</key><string>a</string><key>other</key><string>%s</string></dict>" % body(b, rng))
        return self.entry(n, b, "<dict><key>NSStringFormatSpecTypeKey</key><string>x</string><key>other</key><string>text</string></dict>")

    @property
    def kinds(self):
        def inner(t):
            return lambda n, b, rng, w: self.entry(n, b, t)

        def p(t):
            return lambda n, b, rng, w: t.replace("%k", "n%d" % n).replace("%w", "n%d" % w).replace("%n", "\n" * b) + "\n"
        G = "<dict><key>other</key><string>x</string></dict>"
        return self.syntax("key", "", "text") + [
            Kind("invalid rule", inner("<dict><key>one</key><string>x</string>\n«<key>uno</key>»<string>x</string><key>other</key><string>x</string></dict>")),
            Kind("repeated rule", inner("<dict><key>other</key><string>x</string>\n«<key>other</key>»<string>x</string></dict>")),
            Kind("no other", inner("«<dict>\n<key>one</key><string>x</string>\n</dict>»")), Kind("no rules", inner("«<dict>\n</dict>»")),
            Kind("missing text", inner("«<dict>\n<key>one</key><string></string>\n<key>other</key><string>x</string></dict>»")),
            Kind("rule without value", inner("<dict><key>other</key><string>x</string>\n«<key>one</key>»</dict>")),
            Kind("value is not a dict", p("%n<key>%k</key>\n«<string>x</string>»")), Kind("key is not a key", p("%n«<kee>%k</kee>»\n<dict></dict>")),
            Kind("key without value", p("%n«<key>%k</key>»"), end=True), Kind("inner key is not a key", inner("<dict>«<kee>one</kee>»<string>x</string></dict>")),
            Kind("duplicate main key", p("%n«<key>%w</key>»\n<dict></dict>"), pair=True),
            Kind("duplicate variable", lambda n, b, rng, w: "<key>n%d</key><dict>%s<key>a</key>%s<key>a</key>\n«%s»</dict>\n" % (n, "\n" * b, G, G))]


class CustomXml(Xml):
    name = "CUSTOM_XML"
    headers = ['<strings>\n<section name="s">\n', '<?xml version="1.0"?>\n<!-- <strings> -->\n<strings a="b">\n<section\nname="s">\n\n']
    footer = "</section></strings>\n"

    def handler(self):
        from openformats.formats.customizable_xml import CustomizableXMLHandler
        return CustomizableXMLHandler()

    def good(self, n, b, rng):
        return '<string key="n%d"><base>%s</base></string>\n' % (n, body(b, rng))

    @property
    def kinds(self):
        def p(t):
            return lambda n, b, rng, w: t.replace("%k", "n%d" % n).replace("%w", "n%d" % w).replace("%n", "\n" * b) + "\n"
        return self.syntax("string", 'key="%d"', "<base>x</base>") + [
            Kind("string without key", p("%n«<string><base>x</base></string>»")), Kind("variant without context", p('%n«<string key="%k"><variant>x</variant></string>»')),
            Kind("section without name", p('</section>%n«<section><string key="%k"><base>x</base></string>»'))]


# ---------------------------------------------------------------------------

class Po(Format):
    name = "PO"
    headers = ['msgid ""\nmsgstr ""\n"Content-Type: text/plain; charset=UTF-8\\n"\n\n', '# c\n#, fuzzy\nmsgid ""\nmsgstr "Language: en\\n"\n\n\n']
    pads = ["\n", "# note\n", "#: a.py:1\n", "#, c-format\n"]
    height = 3

    def handler(self):
        from openformats.formats.po import PoHandler
        return PoHandler()

    def read(self, text):
        t, s = self.handler().parse(text, is_source=True)
        return str(t), list(s)

    def good(self, n, b, rng):
        return 'msgid "n%d"\nmsgstr "x"\n%s\n' % (n, '"more\\n"\n' * b)

    @property
    def kinds(self):
        def p(t):
            return lambda n, b, rng, w: t.replace("%k", "n%d" % n).replace("%w", "n%d" % w).replace("%n", '"more"\n' * b) + "\n"
        return [Kind("quote in the middle", p('msgid "%k"\n%n«msgstr "a"b"»\n')), 
                Kind("unknown keyword", p('msgid "%k"\n%nmsgstr "a"\n«msgfoo "x"»\n')), Kind("no string", p('«msgid %k»\nmsgstr "a"\n')), Kind("text", p('%n'.replace("%n", "") + '«hello»\nmsgid "%k"\nmsgstr "a"\n')),
                Kind("no msgid", p('«msgstr "a"\n»')) if False else Kind("duplicate", p('«msgid "%w"»\nmsgstr "a"\n%n'), pair=True),
                Kind("duplicate context", p('msgctxt "c"\nmsgid "%k"\nmsgstr "a"\n\n«msgctxt "c"\nmsgid "%k"»\nmsgstr "b"\n%n')),
                Kind("duplicate plural", p('msgid "%k"\nmsgid_plural "p"\nmsgstr[0] "a"\nmsgstr[1] "a"\n\n«msgid "%k"\nmsgid_plural "p"»\nmsgstr[0] "a"\nmsgstr[1] "a"\n%n')),
                Kind("empty msgid", p('«msgctxt "c%k"\nmsgid ""»\nmsgstr "a"\n%n')), Kind("msgstr in a plural", p('msgid "%k"\nmsgid_plural "p"\n«msgstr "a"»\n%n')),
                Kind("msgstr[0] in a singular", p('msgid "%k"\n«msgstr[0] "a"»\n%n')), Kind("incomplete plurals", p('msgid "%k"\nmsgid_plural "p"\n«msgstr[0] "a"\n%nmsgstr[1] ""»\n')),
                Kind("bad index", p('msgid "%k"\nmsgid_plural "p"\nmsgstr[0] "a"\n%n«msgstr[x] "b"»\n')),
                Kind("empty and filled", p('msgid "%k b"\nmsgstr "x"\n\nmsgid "%k"\n«msgstr ""»\n'))]


class Yaml(Format):
    name = "YAML"
    headers = ["", "# c\n", "---\n", "\n\n"]
    pads = ["\n", "# note\n"]
    marks = "any"

    def handler(self):
        from openformats.formats.yaml.yaml import YamlHandler
        return YamlHandler()

    indent = ""

    def good(self, n, b, rng):
        i = self.indent
        if not b:
            return i + "n%d: %s\n" % (n, rng.choice(["text", "'x'", '"x"', "[a, b]", "{a: b}"]))
        r = rng.random()
        if r < .5:
            return i + "n%d: %s\n" % (n, rng.choice("|>")) + "".join(i + "  line\n" for _ in range(b))
        if r < .7:
            return i + "n%d:\n" % n + "".join(i + "  a%d: line\n" % j for j in range(b))
        return i + "n%d: \"x\n%s y\"\n" % (n, (i + "\n") * (b - 1) + i)

    @property
    def kinds(self):
        def p(t, **kw):
            return lambda n, b, rng, w: "".join((self.indent + l if l.strip("«»") else l) + "\n" for l in t.replace("%k", "n%d" % n).replace("%w", "n%d" % w).replace("%n", "\n" * b).split("\n"))
        return [Kind("duplicate", p("%n«%w»: clash"), pair=True), Kind("duplicate at once", p("%k: a%n\n«%k»: b")), Kind("duplicate inside", p("%k:\n  a: x%n\n  «a»: y")),
                Kind("duplicate in flow", p("%k: {a: x,%n\n  «a»: y}")),
                Kind("tab", p("%n«%k:\n\t- x»")), Kind("two colons", p("%n«%k: a: b»")), Kind("text after a quoted value", p("%n«%k: 'a' b»")), Kind("bad indent", p("%n«%k:\n    a: x\n  b: y»")), Kind("reserved", p("%n«%k: @x»")),
                Kind("flow does not match", p("%n«%k: [a, b}»")), Kind("not closed quote", p('%n«%k: "abc»'), end=True), Kind("not closed list", p('%n«%k: [abc»'), end=True),
                Kind("bad escape", p('%n«%k: "a\\q"»')), Kind("sequence in a mapping", p('%n«%k: x\n- a»')),
                Kind("no such date", p("%n«%k: 2020-02-31»"), lines=False), Kind("no such time", p("%n«%k: [2001-01-01 25:00:00]»"), lines=False), Kind("not a number", p("%n«%k: !!int x»"), lines=False),
                Kind("not a truth value", p("%n«%k: !!bool maybe»"), lines=False), Kind("not a date", p("%n«%k: !!timestamp x»"), lines=False)]


class I18nYaml(Yaml):
    name = "YAML_I18N"
    headers = ["en:\n  first: x\n", "# c\n\nen:\n  first: |\n    x\n"]
    indent = "  "

    def handler(self):
        from openformats.formats.yaml.yaml_i18n import I18nYamlHandler
        h = I18nYamlHandler()
        h.set_plural_rules([1, 5])
        h.set_lang_code("en")
        return h

    @property
    def kinds(self):
        return super(I18nYaml, self).kinds + [Kind("second root", lambda n, b, rng, w: "«de:\n  a: b»\n" + "\n" * b, end=True)]


FORMATS = [Srt, Vtt, VttHeader, KeyValue, KeyValueCompact, KeyValueList, Structured, Arb, Chrome, ChromeV3, Android, AndroidRoot, AndroidUnescaped, StringsDict, CustomXml, Po, Yaml, I18nYaml]


def check(f, c, marked, nl, kind=None):
    """None, or what is wrong"""
    from openformats.exceptions import ParseError
    text = marked.replace("«", "").replace("»", "")
    if nl == "DOS":
        text = text.replace("\n", "\r\n")
    rejected = c["result"]["s"] == "rejected" or getattr(f, "always", False)
    try:
        t, s = f.read(text)
    except ParseError as e:
        if not rejected:
            return "well-formed file is rejected", "%s for %r" % (e, text)
        msg = str(e)
        lines = [int(x) for x in f.line.findall(msg)]
        if not lines or getattr(f, "always", False) or (kind and not kind.lines):
            return None
        lo, hi = c["result"]["from"], c["result"]["to"]
        good = [x for x in lines if lo <= x <= hi]
        if (f.marks == "first" and lines[0] not in good) or not good:
            return "error names the wrong line", "%r, but it stands in lines %d to %d of %r" % (msg, lo, hi, text)
        return None
    except Exception as e:
        return "another exception than a parse error", "%s: %s for %r" % (type(e).__name__, e, text)
    if rejected:
        return "malformed file is accepted", "%r" % text
    return None


def silent(f, *args):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*args)


def work(job):
    seed, cases = job
    fs = [F() for F in FORMATS]
    fails, done = [], 0
    for c in cases:
        f = fs[c["fmt"] - 1]
        rng = engine.rng_for(seed, c)
        marked = f.document(c, rng)
        if c["result"]["s"] == "rejected":
            # the specification and the rendering agree on the line
            assert marked[:marked.index("«")].count("\n") + 1 == c["result"]["from"], (f.name, c, marked)
            kind = f.kinds[[x["k"] for x in c["items"] if x["k"]][0] - 1]
        else:
            kind = None
        for nl in ("UNIX", "DOS"):
            r = silent(check, f, c, marked, nl, kind)
            done += 1
            if r:
                fails.append((r[0], "%s, %s, %s: %s" % (f.name, kind.name if kind else "well-formed", nl, r[1]), c))
    return fails, done


# ---------------------------------------------------------------------------

TOKENS = {
    "xml": ["<", ">", "</", "/>", '"', "<!--", "-->", "&", "<item>", "</item>", "<x>", "<string>", "</string>", "<key>", "<dict>", "</dict>", " ", "\n", 'name=""', 'quantity="one"', 'quantity="foo"', "<![CDATA[", "]]>", "<?", "text", "\\", "'", "&#xD800;", "\x00"],
    "json": ["{", "}", "[", "]", ",", ":", '"', "\\", "null", "1", "{n, plural, one {a}}", "{n, plural, other {a}}", "{n, plural,", "true", '"string"', '"message"', " ", "\n", '"a"', "-", "1e999", '"\\ud800"', "\\u", "NaN", '"@@locale"', '"@k1"', "\x00"],
    "yaml": [":", "-", '"', "'", "|", ">", "&a ", "*a ", "!t ", "{", "}", "[", "]", "#", "  ", "\n", "? ", ": ", "<<: *a", "%", "@", "`", "one: x", "\t", "---", "...", "!!binary ", "!!set ", "!!int x", "2001-01-01", "1e3", "~", "!!timestamp ", "\x00"],
    "po": ['msgid "', 'msgstr "', '"', "\n", 'msgid_plural "x"\n', 'msgstr[0] "x"\n', 'msgstr[9] "x"\n', 'msgstr[x] "x"\n', "#", "#|", "#~", 'msgctxt "a"\n', "\\", "[", "]", "#: a:b:c\n", '#, \n', "\x00"],
    "text": ["-->", "\n", "\n\n", "1", "2", ":", "WEBVTT", "00:00:01,000", ",", ".", " ", "a", "NOTE", "-1", "1.5.5", "\x00"]}


def tokens(f):
    return TOKENS["xml" if isinstance(f, Xml) else "json" if isinstance(f, Json) else "yaml" if isinstance(f, Yaml) else "po" if isinstance(f, Po) else "text"]


def hurt(text, ops, toks):
    for o in ops:
        i = o["a"] * len(text) // 97
        j = min(len(text), i + o["l"])
        far = min(len(text), i + o["l"] * 4)
        tok = toks[o["t"] % len(toks)]
        text = {"delete": text[:i] + text[far:], "insert": text[:i] + tok + text[i:], "cut": text[:i], "repeat": text[:far] + text[i:],
                "swap": text[:i] + text[j:far] + text[i:j] + text[far:], "replace": text[:i] + tok + text[j:]}[o["o"]]
    return text


class Late(BaseException):
    pass


def damage(job):
    import signal
    from openformats.exceptions import ParseError

    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    seed, cases = job
    fs = [F() for F in FORMATS if not getattr(F, "always", False)]
    fails, done = [], 0

    def outcome(f, h, text):
        signal.setitimer(signal.ITIMER_REAL, 20)
        try:
            f.handler = lambda: h
            t, s = silent(f.read, text)
            return "strings", t, [(x.key, x.context, x._strings) for x in s]
        except ParseError as e:
            return "error", str(e)
        except Late:
            return "late", "no answer after 20 s"
        except Exception as e:
            return "crash", "%s: %s" % (type(e).__name__, e)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            del f.handler

    for c in cases:
        f = fs[c["fmt"] - 1]
        rng = engine.rng_for(seed, c)
        h = f.handler()
        for x in c["files"]:
            doc = dict(head=rng.randint(1, len(f.headers)), items=[dict(p=rng.randint(0, 1), b=rng.randint(0, 2), k=0) for _ in range(x["items"])])
            text = hurt(f.document(doc, rng), x["ops"], tokens(f))
            if rng.random() < .3:
                text = text.replace("\n", "\r\n")
            r, fresh = outcome(f, h, text), outcome(f, f.handler(), text)
            done += 1
            if r[0] == "crash":
                fails.append(("another exception than a parse error", "%s: %s for %r" % (f.name, r[1], text), c))
            elif r[0] == "late":
                fails.append(("the handler hangs", "%s: %r" % (f.name, text), c))
            elif r != fresh:
                fails.append(("what was read before changes the outcome", "%s: %r instead of %r for %r" % (f.name, r, fresh, text), c))
            elif r[0] == "error" and not x["ops"]:
                fails.append(("well-formed file is rejected", "%s: %s for %r" % (f.name, r[1], text), c))
    return fails, done


def run_damage(rep, deep):
    n = len([F for F in FORMATS if not getattr(F, "always", False)])
    jobs = []
    for defs, sim, cap in ((dict(MAXOPS=1, MAXFILES=1), None if deep else 2000, 60000), (dict(MAXOPS=3, MAXFILES=4), 8000 if deep else 500, None)):
        r = tlc.run("Damage", dict(defs, NFORMATS=n, NTOKENS=30, EMIT=True), invariants=["InvOutcome", "InvIntact", "Emit"],
                    simulate=sim, depth=60, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cs = r.cases
        if cap and len(cs) > cap:
            cs = engine.rng_for(rep.seed, "damage", defs["MAXOPS"]).sample(cs, cap)
        rep.distinct += len(cs)
        jobs += [(rep.seed, cs[k::8]) for k in range(8)]
    with multiprocessing.Pool(8) as pool:
        for fails, done in pool.imap_unordered(damage, jobs):
            rep.count("damaged files", done, done)
            for what, detail, c in fails[:60]:
                rep.fail(what, detail, case=c)


def names_of_files(rep):
    """a content is what is to be read, even if a file has that name"""
    import os, shutil, tempfile
    from openformats.exceptions import ParseError
    d = tempfile.mkdtemp(prefix="ofv-names-")
    try:
        for F in FORMATS:
            f = F()
            if getattr(f, "always", False):
                continue
            p = os.path.join(d, "file")
            with open(p, "w", encoding="utf-8") as fh:
                fh.write(f.document(dict(head=1, items=[dict(p=0, b=0, k=0)]), random.Random(1)))
            try:
                t, s = silent(f.read, p)
                got = [x.string for x in s]
            except ParseError:
                continue
            except Exception as e:
                rep.fail("another exception than a parse error", "%s: %s: %s for the name of a file" % (f.name, type(e).__name__, e), case=dict(fmt=f.name))
                continue
            if got:
                rep.fail("the file a content names was read", "%s: %r" % (f.name, got), case=dict(fmt=f.name))
        rep.count("contents that are names", len(FORMATS), len(FORMATS))
    finally:
        shutil.rmtree(d)


def run(rep, deep):
    names_of_files(rep)
    run_damage(rep, deep)
    spec = [F().spec() for F in FORMATS]
    jobs = []
    for defs, sim, cap in ((dict(MAXITEMS=2, MAXPAD=1, MAXBODY=1), None, None if deep else 8000),
                           (dict(MAXITEMS=6, MAXPAD=3, MAXBODY=MAXBODY), 12000 if deep else 600, 60000 if deep else 6000)):
        r = tlc.run("Faults", dict(defs, FORMATS=spec, EMIT=True), invariants=["InvRejected", "InvNothing", "InvAll", "InvLine", "InvOne", "Emit"],
                    simulate=sim, depth=40, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cs = r.cases
        if cap and len(cs) > cap:
            cs = engine.rng_for(rep.seed, "faults", defs["MAXITEMS"]).sample(cs, cap)
        rep.distinct += len(cs)
        rep.sample(cs[0])
        jobs += [(rep.seed, cs[k::8]) for k in range(8)]
    with multiprocessing.Pool(8) as pool:
        for fails, done in pool.imap_unordered(work, jobs):
            rep.count("malformed files", done, done)
            for what, detail, c in fails[:60]:
                rep.fail(what, detail, case=c)
