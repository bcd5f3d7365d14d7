"""Bindings: plaintext, SRT, VTT."""
from .core import *

SUB = Texts(WORDS + ODD + ["<i>", "</i>", "{\\an8}", "\n", "\n", "-->x", "\"", "'", "&", "\\", "1\n"],
            ["1", "00:00:01,000", "- Hi\n- Ho", "a\n b", "♪ la ♪", "42\n43", "<b>x</b>", "line one\nline two\nline three", " lead"],
            avoid=lambda t: "\n\n" in t or "\n \n" in t or re.search(r"\n\s*\n", t))
LINE = Texts(WORDS + ODD + ["<i>", "\t", "{", "}", "\"", "\\", "%s", "&amp;", "#", "*", "\\n"],
             ["0", "1", "a", "a a", "aa", "%s", "\\n", "_tr", "...", "."])


class Plaintext(Binding):
    name = "PLAINTEXT"
    other_kinds = ["sg", "blank", "sg"]

    def handler(self):
        from openformats.formats.plaintext import PlaintextHandler
        return PlaintextHandler()

    def text(self, rng):
        return LINE(rng)

    def build(self, kinds, nl, rng):
        lines, ents = [], []
        for i, k in enumerate(kinds, 1):
            if k == "blank":
                lines.append([rng.choice(["", "", "  ", "\t"])])
            else:
                e = Ent(i, k, str(len(ents)), {5: self.text(rng)})
                if ents and rng.random() < .3:
                    e.forms = dict(ents[-1].forms)
                ents.append(e)
                ind, tail = (rng.choice(["", "", "  ", "\t", " \t "]) for _ in "ab")
                lines.append([ind, Slot(e), tail])
        pieces = []
        for n, l in enumerate(lines):
            if n:
                pieces.append("\n")
            pieces += l
        if rng.random() < .6:
            pieces.append("\n")
        if nl == "DOS" and "\n" not in pieces:
            pieces.append("\n")
        return Doc(pieces, ents, nl)


def srt_time(rng, t, dot):
    h, m, s, ms = t // 3600000, t // 60000 % 60, t // 1000 % 60, t % 1000
    form = rng.randint(0, 5)
    base = "%02d:%02d:%02d" % (h, m, s)
    if form == 0:
        return base, "%02d:%02d:%02d.%03d" % (h, m, s, 0)
    if form == 1:
        ms = ms - ms % 100
        return base + dot + "%d" % (ms // 100), base + ".%03d" % ms
    if form == 2:
        ms = ms - ms % 10
        return base + dot + "%02d" % (ms // 10), base + ".%03d" % ms
    if form == 3 and dot == ",":
        return "%d:%d:%d" % (h, m, s) + dot + "%03d" % ms, base + ".%03d" % ms
    if form == 3 and dot == ".":
        h = 0
        short = "%02d:%02d" % (m, s)
        return short + dot + "%03d" % ms, short + ".%03d" % ms
    return base + dot + "%03d" % ms, base + ".%03d" % ms


class Srt(Binding):
    name = "SRT"
    literal_newlines = True
    drop_mode = "remove"
    other_kinds = ["sg", "sg", "sg"]

    def handler(self):
        from openformats.formats.srt import SrtHandler
        return SrtHandler()

    def text(self, rng):
        return SUB(rng)

    def translate(self, ent, rules, rng):
        return {5: self.text(rng)}

    def bad_source(self, rng):
        return ["7\n00:00:01,000 --> 00:00:02,000\nx\n\n3\n00:00:03,000 --> 00:00:04,000\ny\n", "1\nx"]

    def build(self, kinds, nl, rng):
        pieces, ents = [], []
        if rng.random() < .2:
            pieces.append("\n" * rng.randint(1, 3))
        num, t = rng.randint(0, 3), rng.randint(0, 10 ** 7)
        self_frag = {}
        for i, k in enumerate(kinds, 1):
            if k == "blank":
                pieces.append(rng.choice(["\n", "\n\n", " \n\n", "\n\n\n"]))
                continue
            num += rng.randint(1, 3)
            t += rng.randint(1000, 99999)
            a, an = srt_time(rng, t, ",")
            t += rng.randint(1000, 99999)
            z, zn = srt_time(rng, t, ",")
            tail = rng.choice(["", "", "", " X1:0 X2:1", " position:50% line:0"])
            timing = a + rng.choice([" --> ", " --> ", "  -->  "]) + z + tail
            numtext = rng.choice(["%d", "%d", "%d", "%02d", "%d "]) % num
            e = Ent(i, k, numtext.strip(), {5: self.text(rng)}, occurrences="%s,%s" % (an, zn))
            e.attrs["order"] = num
            if ents and rng.random() < .25:
                e.forms = dict(ents[-1].forms)
            ents.append(e)
            e.head = numtext + "\n" + timing + "\n"
            e.timing = timing
            pieces += [e.head, Slot(e), rng.choice(["\n\n", "\n\n", "\n\n", "\n\n\n", "\n\n\n\n", " \n\n"])]
        if pieces and kinds and rng.random() < .3 and kinds[-1] != "blank":
            pieces[-1] = rng.choice(["", "\n"])
        if nl == "DOS" and not any("\n" in p for p in pieces if isinstance(p, str)):
            pieces.append("\n")
        d = Doc(pieces, ents, nl)
        return d

    def kept_fragments(self, doc, i, forms):
        e = doc.by_id.get(i)
        return [e.head + forms[i][5]] if e else []

    def gone_fragments(self, doc, e):
        return [e.timing]


class Vtt(Srt):
    name = "VTT"
    literal_newlines = True
    needsome = True
    other_kinds = ["sg", "cmt", "sg"]

    def handler(self):
        from openformats.formats.vtt import VttHandler
        return VttHandler()

    def bad_source(self, rng):
        return ["WEBVTT\n\n00:01.000 --> 00:02.000\nx\n\n00:03.000 -> --> 00:04.000\ny\n",
                "WEBVTT\n\n00:01.000 --> zz\nx"]

    def text(self, rng):
        while True:
            t = SUB(rng)
            if "-->" not in t:
                return t

    def build(self, kinds, nl, rng):
        pieces, ents, frag = ["WEBVTT" + rng.choice(["", " - Title", " Kind: captions", "\nKind: captions\nLanguage: en"]) + "\n\n"], [], {}
        t = rng.randint(0, 10 ** 7)
        for i, k in enumerate(kinds, 1):
            if k == "blank":
                pieces.append(rng.choice(["\n", "\n\n", " \n\n"]))
                continue
            end = rng.choice(["\n\n", "\n\n", "\n\n\n", "\n\n\n\n"])
            if k == "cmt":
                body = "NOTE" + rng.choice([" %s", "\n%s", " \n%s"]) % self.text(rng)
                frag[i] = body
                pieces += [body, end]
                continue
            if k == "raw":
                body = rng.choice(["STYLE\n::cue {\n  color: red;\n}", "REGION\nid:fred\nwidth:40%"])
                frag[i] = body
                pieces += [body, end]
                continue
            t += rng.randint(1000, 99999)
            a, an = srt_time(rng, t, ".")
            t += rng.randint(1000, 99999)
            z, zn = srt_time(rng, t, ".")
            timing = a + rng.choice([" --> ", " --> ", "  -->  "]) + z + rng.choice(["", "", " align:left size:50%", " line:0"])
            ident = rng.choice(["", "", "%d\n" % i, "intro - one\n", "1\n", "%d\n" % rng.randint(0, 3), "a\nb\n", "first \n", " lead\n", "a\t\n é\n"])
            head = ident + timing
            if k == "skip":
                frag[i] = head
                pieces += [head, end]
                continue
            e = Ent(i, k, timing, {5: self.text(rng)}, occurrences="%s,%s" % (an, zn))
            if ents and rng.random() < .25:
                e.forms = dict(ents[-1].forms)
            ents.append(e)
            e.head, e.timing = head + "\n", timing
            pieces += [e.head, Slot(e), end]
        if kinds and rng.random() < .3 and kinds[-1] != "blank":
            pieces[-1] = rng.choice(["", "\n"])
        return Doc(pieces, ents, nl, frag=frag)

    def kept_fragments(self, doc, i, forms):
        if i in doc.frag:
            return [doc.frag[i]]
        return Srt.kept_fragments(self, doc, i, forms)


BINDINGS = [Plaintext, Srt, Vtt]
