"""Bindings: the Markdown dialects."""
from .core import *

INLINE = ["*em*", "**b**", "`code`", "[link](http://x.y/z)", "<b>x</b>", "&amp;", "\\*", "![i](a.png)", "~~s~~", "C# ", "a # b", "{{ x }}", "{% if %}", "1.", "- ", "_", "$", "http://a.b"]
PLAIN = ["Hello", "world", "a", "b", "text", "title", "http", "foo", "x", " ", " ", "\u00e9", "\u65e5\u672c", "\U0001f600", ",", ".", "!", "'", '"', "(", ")"] + [c for c in ODD_OK if c != "\u0301"]
HARD = ["a", "1a", "t", "title", "foo", "http", "Learn C# now", "a # b", "# x", "x", "com", "{% a %} b", "b {% c %}", "a: b", "1. x", "Hello world", "a*b", "tx_tr", "e", "2024 x", "`a`", "\\"]


def first(t):
    return re.match(r"[a-zA-Z\u00e9\u65e5\U0001f600]", t) is not None


def single(t):
    """ a text that makes a paragraph of its own wherever it stands """
    return bool(t) and first(t) and "\n" not in t and not re.search(r"^\s|\s$|  ", t) and not t.endswith(("#", ":")) and \
        not re.match(r"^(nan|inf|infinity)$", t, re.I)


# front matter texts that only fit in double quotes, and texts that are not
# plain values
QUOTED = ["a\\b", "C:\\new", "two\nlines", "tab\tbed", "\\", "\\\"", "a \"b\" c", "'", "it's", "{{ x }}", "# x", "true", "12", "\x07 bell", "x: 'y'", "[a", "a\n\nb"]
WRAPPED = ["a: b", "# x", "* x", "{{ x }}", "true", "12", "%x", "- x", "@x", "`x`", "! x", "C:\\new # \\", "null", "x: \"y\"", "~", "two\nlines", " lead", "trail ", "\u2028x", "& x", ", x", "}", "2020-01-01", "1.5", "no", "http://x.y"]


def double(t):
    for a, b in (("\\", "\\\\"), ("\n", "\\n"), ("\t", "\\t"), ('"', '\\"'), ("\x07", "\\u0007"), ("\x7f", "\\u007f"), ("\x85", "\\N"), ("\u2028", "\\L"), ("\u2029", "\\P")):
        t = t.replace(a, b)
    return '"' + t + '"'


def front_value(t, style):
    """ a front matter value in the normal form of the format """
    if style == '"' or re.search("[\n\x85\u2028\u2029]", t):
        return double(t)
    if style == "'":
        return "'" + t.replace("'", "''").replace("\x7f", "\\u007f") + "'"
    return double(t) if t in WRAPPED else t.replace("\x7f", "\\u007f")


class Markdown(Binding):
    name = "MARKDOWN"
    styles = [""]
    QUOTE = "-"
    has_front = True
    other_kinds = ["sg", "sg", "skip", "sg"]
    placeholder_texts = True
    literal_newlines = True
    front_texts = None

    def handler(self):
        from openformats.formats.github_markdown import GithubMarkdownHandler
        return GithubMarkdownHandler()

    def text(self, rng, shape="para"):
        for _ in range(200):
            if rng.random() < .4:
                t = rng.choice(HARD)
            else:
                t = "".join(rng.choice(INLINE if rng.random() < .25 else PLAIN) for _ in range(rng.randint(1, 6)))
            t = t.strip()
            if not single(t):
                continue
            if shape in ("cell",) and ("|" in t or "`" in t or "\\" in t):
                continue
            if shape == "ref" and re.search(r"[\[\]^]", t):
                continue
            if shape == "front" + self.QUOTE and not t.startswith("x") and rng.random() < .5:
                return rng.choice(QUOTED)
            if shape in ("front", "front'") and re.search("[\x85\u2028\u2029]", t):
                continue          # the end of a line, for YAML
            if shape in ('front"', "front'"):
                return t
            if shape == "front" and (t.endswith("`") or not self.front_ok(t)):
                continue
            return t
        return "text"

    def front_ok(self, t):
        return True

    def new_text(self, ent, rng):
        if ent.shape == "front" and self.front_key("x") and rng.random() < .3:
            return rng.choice(WRAPPED)
        t = self.text(rng, ent.shape)
        if ent.wrap:
            return ent.wrap(t)
        return t

    def build(self, kinds, nl, rng):
        pieces, ents = [], []
        stack, front = [], 0
        state = {"n": 0}
        if self.has_front and rng.random() < .4:
            front = rng.randint(1, 3)
        infront = False
        last = None

        def ent(i, k, shape, wrap=None, key=None):
            t = self.text(rng, shape)
            e = Ent(i, k, str(state["n"]) if key is None else key, {5: wrap(t) if wrap else t})
            state["n"] += 1
            e.shape, e.wrap = shape, wrap
            ents.append(e)
            return e

        def gap():
            pieces.append(rng.choice(["\n\n", "\n\n", "\n\n\n", "\n   \n"]) if not self.blanks else rng.choice(["\n\n", "\n\n\n"]))

        for i, k in enumerate(kinds, 1):
            if front and (k != "sg" or i > front or stack):
                if infront:
                    pieces.append("---\n\n")
                    # the white space after the front matter belongs to it
                    last = "list"
                front, infront = 0, False
            if front:
                if not infront:
                    pieces.append("---\n")
                    infront = True
                key = rng.choice(["title", "description", "name", "a", "layout", "Hello", "key with blanks"]) + ("" if i == 1 else "_%d" % i)
                style = rng.choice(self.styles)
                e = ent(i, k, "front" + style, None, self.front_key(key))
                sep = rng.choice([": ", ": ", ":  "])
                if not self.front_key(key):
                    pieces += [key + sep, Slot(e), "\n"]
                else:
                    outer = rng.random() < .25 and "outer%d" % i
                    if outer:
                        e.key = outer + "." + key
                        pieces.append(outer + ":\n  ")
                    e.attrs["flags"] = "block:" * bool(outer) + style
                    pieces += [key + sep, Slot(e, lambda forms, style=style: front_value(forms[5], style)), "\n"]
                if rng.random() < .3:
                    pieces.append(self.front_skip(rng))
                continue
            inside = stack[-1] if stack else None
            if k in ("ob", "ol"):
                stack.append(k)
                mark = rng.choice(["* ", "- ", "+ ", "1. "])
                inner = 0
                continue
            if k in ("cb", "cl"):
                stack.pop()
                if inside == "ol" and inner == 1:
                    pieces.append("| 1 | 2 |\n")
                if inner:
                    last = "list"
                    pieces.append(rng.choice(["\n", "\n\n"]))
                continue
            if inside == "ob":
                inner += 1
                m = mark if mark != "1. " else "%d. " % inner
                if k == "skip":
                    pieces.append(m + rng.choice(["12", "1.5", "2024", "{% tag %}"]) + "\n")
                else:
                    e = ent(i, k, "item")
                    pieces += [m, Slot(e), "\n"]
                continue
            if inside == "ol":
                inner += 1
                num = rng.choice(["1", "12", "3.5"])
                bars = rng.choice([("| ", " | ", " |"), ("|", "|", "|"), ("| ", " |   ", " |")])
                if inner == 1:
                    # the header is never skipped
                    if k == "skip":
                        pieces.append("%s%s%s%s%s\n" % (bars[0], "1", bars[1], num, bars[2]))
                    else:
                        e = ent(i, k, "cell")
                        pieces += [bars[0], Slot(e), bars[1] + num + bars[2] + "\n"]
                    pieces.append(rng.choice(["|---|---|\n", "| :--- | ---: |\n"]))
                elif k == "skip":
                    pieces.append("%s%s%s%s%s\n" % (bars[0], "7", bars[1], num, bars[2]))
                else:
                    e = ent(i, k, "cell")
                    pieces += [bars[0], Slot(e), bars[1] + num + bars[2] + "\n"]
                continue
            if k == "skip":
                pieces.append(rng.choice(["12", "2024", "1.5", "-3", "{% include foo.html text %}", "{% raw %}", "[1]: http://example.com/foo", "[2]: /text"]))
                gap()
                last = None
                continue
            what = rng.choice(["heading", "heading", "para", "para", "para2", "setext", "quote", "ref", "code", "fence", "html", "alert"])
            if what == last or {what, last} == {"quote", "alert"} or (what == "code" and last == "list"):
                what = "para"
            last = what
            if what == "heading":
                e = ent(i, k, "heading")
                pieces += ["#" * rng.randint(1, 6) + " ", Slot(e)]
                pieces.append(rng.choice(["\n", "\n\n", "\n\n\n"]))
                continue
            if what == "para":
                e = ent(i, k, "para")
                pieces.append(Slot(e))
            elif what == "para2":
                second = self.text(rng)
                e = ent(i, k, "para", lambda t, second=second: t + "\n" + second)
                pieces.append(Slot(e))
            elif what == "setext":
                line = rng.choice(["=====", "-----"])
                e = ent(i, k, "para", lambda t, line=line: t + "\n" + line)
                pieces.append(Slot(e))
            elif what == "quote":
                e = ent(i, k, "para", lambda t: "> " + t)
                pieces.append(Slot(e))
            elif what == "ref":
                e = ent(i, k, "ref")
                pieces += ["[", Slot(e), "]: " + rng.choice(["http://example.com/foo", "/text/title", "a"])]
            elif what == "code":
                second = self.text(rng)
                e = ent(i, k, "para", lambda t, second=second: "    " + t + "\n    " + second)
                pieces.append(Slot(e))
            elif what == "fence":
                f = rng.choice(["```", "~~~"])
                e = ent(i, k, "para", lambda t, f=f: f + "\n" + t + "\n" + f)
                pieces.append(Slot(e))
            elif what == "alert":
                label = rng.choice(["NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION"])
                end = rng.choice(["", "", "  "])
                mark = rng.choice(["> ", ">"])
                e = ent(i, k, "para", lambda t, label=label, end=end, mark=mark: mark + "[!" + label + "]\n" + mark + t + end)
                pieces.append(Slot(e))
            else:
                e = ent(i, k, "para", lambda t: "<div>\n" + t + "\n</div>")
                pieces.append(Slot(e))
            gap()
        if infront:
            pieces.append("---\n\n")
        if nl == "DOS" and not any("\n" in (p if isinstance(p, str) else p.source()) for p in pieces):
            pieces.append("\n")
        return Doc(pieces, ents, nl)

    blanks = True

    def front_key(self, key):
        return None

    def front_skip(self, rng):
        return rng.choice(["# another one\n", "# a comment: yes\n", "number: 12\n", "empty:\n"])


class Markdown2(Markdown):
    name = "MARKDOWN_V2"
    styles = ["", "", '"', "'"]
    QUOTE = '"'

    def handler(self):
        from openformats.formats.github_markdown_v2 import GithubMarkdownHandlerV2
        return GithubMarkdownHandlerV2()

    def front_key(self, key):
        return key

    def front_skip(self, rng):
        return rng.choice(["number%d: 12\n", "flag%d: true\n"]) % rng.randint(0, 999999)

    def front_ok(self, t):
        return not re.search(r"[:#\"'`*&!%@\[\]{}\\<>|-]", t) and t not in ("true", "yes", "no", "on", "off", "null", "~")


class MarkdownJsx(Markdown2):
    name = "MARKDOWN_JSX"

    def handler(self):
        from openformats.formats.markdown_jsx import MarkdownJsxHandler
        return MarkdownJsxHandler()


BINDINGS = [Markdown, Markdown2, MarkdownJsx]
