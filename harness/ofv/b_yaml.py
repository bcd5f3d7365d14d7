"""Bindings: YAML and I18N YAML.

YAML is re-serialised: a slot holds one of several spellings of the same
string.  The comparison therefore walks the compiled file with the marks of the
standard YAML reader: everything between slots must be the literal text of the
source, every slot must be in the style of the source (or in double quotes
where that style cannot hold the text), and the standard reader must find
exactly the given texts at exactly the given paths.
"""
import json
import yaml
from .core import *

TOK = WORDS + [":", ": ", "#", " #", "'", '"', "\\", "%", "@", "`", "!", "&", "*", "[", "]", "{", "}", ",", "?", "|", ">", "- ", "-", "\n", "\n\n", "<b>", "...", "="]
HARD = ["yes", "null", "~", "1.5", "0x1f", "2001-01-01", "<<", "=", "true", "---", "- a", "a: b", "a #b", "#x", "'q'", '"q"', "&a", "*a", "!t x", "%d", "@x", "`y`", "{a}", "[a]", "? a",
        "a\nb", "a\n\nb", "a\n", "a\n\n", " a", "a ", "  a\nb", "a\n  b\nc", "|", ">-", "|-\n", "a: |-", "\tx", "a\tb", "x\\n", "one: x", "a\u00a0", "\u2028x", "a\u0085b", "\x07", "🙂 \"", ",", "a,b"]
ANY = Texts(TOK, HARD, strip=False)
TAME = Texts(WORDS, [], strip=True)
MULTI = Texts(WORDS + ["\n", "\n  ", ": ", " #"], ["a\nb", "first line\nsecond line", "a\n\nb", "a: b\n# c", "x\n  y\nz", "  lead\nx"], strip=False, avoid=lambda t: not t.strip())
TAGS = ["foo", "cs:fd-94_fd.dot.", "A", "x.y"]
class Typed(str):
    """ a key that isn't a text: a number, a date or nothing """
    def value(self):
        return yaml.safe_load(str(self))

    def typed(self):
        return not isinstance(self.value(), str)


KEYTOK = ["a", "b", "key", "é", ".", "-", "_", " x", "<", ">", "0", "日", "/"]


class Tagged(object):
    def __init__(self, tag, value):
        self.tag, self.value = tag, value

    def __eq__(self, o):
        return isinstance(o, Tagged) and (o.tag, o.value) == (self.tag, self.value)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return "!%s %r" % (self.tag, self.value)


class Reader(yaml.SafeLoader):
    """The standard reader, showing custom tags."""


def _multi(loader, suffix, node):
    if isinstance(node, yaml.ScalarNode):
        return Tagged(suffix, loader.construct_scalar(node))
    return Tagged(suffix, None)
Reader.add_multi_constructor("!", _multi)


def load(text):
    return yaml.load(text, Loader=Reader)


def dq(t):
    out = json.dumps(t, ensure_ascii=False)
    for c in u"\x7f\x85\u2028\u2029\ufeff":
        out = out.replace(c, "\\u%04x" % ord(c))
    return out


def block_lines(t, col):
    return "".join((" " * col + l if l else "") + "\n" for l in t.split("\n"))


class Yaml(Binding):
    name = "YAML"
    drop_mode = "keep"
    placeholder_texts = True
    literal_newlines = False
    other_kinds = ["sg", "ob", "sgC", "ol", "sg", "cl", "cb"]
    i18n = False
    newline_check = True
    comments_survive = True

    def handler(self):
        from openformats.formats.yaml import YamlHandler
        return YamlHandler()

    def bad_source(self, rng):
        return ["a: x\na: y\n", "a: [x\n", "b: 'x\n", "a:\n\t- x\n", "k: &x a\nl: &x b\n"]

    def text(self, rng):
        return ANY(rng)

    def translate(self, ent, rules, rng):
        if rng.random() < .3:
            return {r: TAME(rng) for r in rules}
        return {r: ANY(rng) for r in rules}

    # -- authoring a scalar: (style, value, source body)
    def author(self, rng, flow, parent, ind, one_line=False):
        for _ in range(200):
            style = rng.choice(["", "", "'", '"'] + ([] if flow else ["|", ">"]))
            col = parent + ind
            if style == "":
                v = ANY(rng).strip() if rng.random() < .4 else TAME(rng)
                body = v
                if "\n" in v:
                    continue
                if rng.random() < .15 and " " in v and not one_line:
                    i = v.index(" ")
                    body = v[:i] + "\n" + " " * (col + rng.choice([0, 1])) + v[i + 1:].lstrip(" ")
                    v = re.sub(" +", " ", v[:i] + " " + v[i + 1:].lstrip(" "))
            elif style == "'":
                v = ANY(rng).replace("\n", " ")
                body = "'" + v.replace("'", "''") + "'"
            elif style == '"':
                v = ANY(rng)
                body = dq(v)
                if rng.random() < .15 and " " in v.strip() and not one_line and v == v.strip() and "  " not in v and "\n" not in v and "\\" not in v and '"' not in v:
                    body = body.replace(" ", "\n" + " " * col, 1)
            else:
                lines = MULTI(rng).strip("\n")
                if re.search(r" +(\n|$)", lines) or (style == ">" and "\n" in lines):
                    lines = lines.replace("\n", " ").strip()
                if not lines:
                    continue
                chomp = rng.choice(["", "", "-", "+"])
                explicit = lines[0] == " " or rng.random() < .1
                if explicit and not 1 <= ind <= 9:
                    continue
                head = style + (str(ind) if explicit else "") + chomp
                tail = {"": "\n", "-": "", "+": "\n"}[chomp]
                v = lines + tail
                extra = ""
                if chomp == "+" and rng.random() < .5:
                    v += "\n"
                    extra = "\n"
                if rng.random() < .1:
                    head += " # header comment"
                body = head + "\n" + block_lines(lines, col) + extra
            if not v or (self.empty_is_blank(v)):
                continue
            try:
                if flow:
                    ok = yaml.safe_load("[%s]" % body) == [v] and yaml.safe_load("{k: %s}" % body) == {"k": v}
                    ok = ok and yaml.safe_load("['x',%s,%s]" % (body, body)) == ["x", v, v]
                    ok = ok and yaml.safe_load("{ k: %s ,'l': %s }" % (body, body)) == {"k": v, "l": v}
                else:
                    ok = yaml.safe_load(" " * parent + "k: " + body + ("" if body.endswith("\n") else "\n") + " " * parent + "l: 'x'\n") == {"k": v, "l": "x"}
                    ok = ok and yaml.safe_load(" " * parent + "- " + body) == [v]
            except (yaml.YAMLError, ValueError):
                ok = False
            if ok:
                return style, v, body
        return '"', "text", '"text"'

    def empty_is_blank(self, v):
        return v == ""

    # -- keys
    def keygen(self, rng, used):
        while True:
            k = "".join(rng.choice(KEYTOK) for _ in range(rng.randint(1, 3))).strip()
            r = rng.random()
            if r < .08:
                k = rng.randint(-20, 99)
            elif r < .12:
                k = Typed(rng.choice(["1.5", "-0.25", "2020-01-01", "2001-12-14 21:59:43", "~", "null", "1.5.0", "+1"]))
                if not k.typed():
                    continue
            elif r < .2:
                k = rng.choice(["true", "yes", "No", "off", "a: b", "#x", "[0]", "[a]", "{x}", "'", '"', "x\ty", "null ", "- a", "one", "other", "a\\b", "&a", "*", "!"])
            if k == "" or (isinstance(k, str) and self.spell(k) in used) or self.spell(k) in used:
                continue
            used.add(self.spell(k))
            return k

    def spell(self, k):
        """the part of the key path that a mapping key makes"""
        if isinstance(k, int):
            return "<%d>" % k
        if isinstance(k, Typed):
            return ("<%s>" % k.value()).replace(".", "<TX_DOT>")
        return k.replace(".", "<TX_DOT>")

    def render_key(self, k, rng, flow):
        if isinstance(k, (int, Typed)):
            return str(k)
        boolean = k in ("true", "yes", "No", "off")
        forms = []
        if boolean:
            return k
        try:
            if yaml.safe_load("%s: x" % k) == {k: "x"} and (not flow or yaml.safe_load("{l1: x,%s: x}" % k) == {"l1": "x", k: "x"}) and "\n" not in k:
                forms.append(k)
                forms.append(k)
        except (yaml.YAMLError, ValueError):
            pass
        forms.append(dq(k))
        if "\t" not in k:
            forms.append("'" + k.replace("'", "''") + "'")
        return rng.choice(forms)

    @staticmethod
    def loaded_key(k):
        if isinstance(k, Typed):
            return k.value()
        return {"true": True, "yes": True, "No": False, "off": False}.get(k, k)

    # -- document
    def build(self, kinds, nl, rng):
        self.rng = rng
        st = self
        ind = rng.choice([2, 2, 4, 3])
        pieces, ents = [], []
        anchors = []      # (name, ent)
        rootlist = not self.i18n and rng.random() < .2 and not any(k in PL_KINDS for k in kinds)

        class N(object):
            pass
        root = N()
        root.i, root.kind, root.children, root.parent, root.path = 0, "ol" if rootlist else "ob", [], None, []
        cur, nodes = root, {}
        used = {0: set()}
        for i, k in enumerate(kinds, 1):
            if k in ("cb", "cl"):
                cur = cur.parent
                continue
            n = N()
            n.i, n.kind, n.children, n.parent = i, k, [], cur
            n.key = None
            if k != "cmt":
                if cur.kind == "ob":
                    n.key = self.keygen(rng, used[cur.i])
                    if self.i18n and n.key in ("one", "other"):
                        n.key = "k" + n.key
                else:
                    n.index = len([c for c in cur.children if c.kind != "cmt" and c.kind != "skipbin"])
            cur.children.append(n)
            nodes[i] = n
            if k in ("ob", "ol"):
                used[i] = set()
                cur = n

        # maps that look like plurals but are not
        for n in list(nodes.values()) if self.i18n else ():
            mine = [c for c in n.children if c.kind != "cmt"] if n.kind == "ob" else []
            deep = [c for c in mine if c.kind in ("ob", "ol")]
            if not mine or rng.random() < .5:
                continue
            if deep and len(mine) <= 6:
                # all rules are there, but a rule of the language holds more than a text
                # ("other", the rule every language has)
                names = ["other", "one", "few", "many", "two", "zero"]
                rest = [c for c in mine if c is not deep[0]]
                rng.shuffle(rest)
                for c, k in zip([deep[0]] + rest, names):
                    c.key = k
            elif not deep and len(mine) <= 5:
                # a rule is missing
                names = ["few", "many", "two", "zero", "one"]
                rng.shuffle(names)
                for c, k in zip(mine, names):
                    c.key = k
            used[n.i] = set(c.key for c in mine)

        lit = []      # current source text, to know comments
        slotcount = [0]

        def keypath(n):
            parts = []
            while n.parent is not None:
                parts.append(self.spell(n.key) if n.parent.kind == "ob" else "[%d]" % n.lindex)
                n = n.parent
            return ".".join(reversed(parts))

        def put(*xs):
            pieces.extend(xs)

        def comment_for():
            """comment lines standing directly above the current line"""
            text = ""
            for p in reversed(pieces):
                if isinstance(p, str):
                    text = p + text
                elif isinstance(p, Alt):
                    text = p.src + text
                else:
                    # slots ending in a newline begin a new line
                    src = p.source()
                    text = ("\n" if src.endswith("\n") else "\x00") + text
                    break
            lines = [l.strip() for l in text.split("\n")]
            lines = [l for l in lines if l]
            if lines and not lines[-1].startswith("#"):
                lines.pop()
            out = []
            while lines and lines[-1].startswith("#"):
                out.append(lines.pop()[1:].strip())
            return " ".join(reversed(out))

        def leaf_string(n, parent, flow):
            style, v, body = self.author(rng, flow, parent, ind)
            ctx = ""
            src = body
            if n.kind in ("sgX", "sgM"):
                ctx = rng.choice(TAGS)
                src = "!" + ctx + rng.choice([" ", " ", "  "]) + body
            elif rng.random() < .06:
                src = "!!str " + body
            e = Ent(n.i, n.kind, keypath(n), {5: v}, context=ctx)
            e.style, e.path, e.node = style, n, n
            flags = []
            m = n.parent
            while m is not None and m.i != 0:
                flags.append("flow" if m.flow else "block")
                m = m.parent
            e.attrs["flags"] = ":".join(list(reversed(flags)) + [style])
            if rng.random() < .1:
                name = "an%d" % n.i
                put("&" + name + rng.choice([" ", "  "]))
                anchors.append((name, e))
                e.anchored = True
            elif style in ("", "'", '"') and not flow and rng.random() < .08:
                put("\n" + " " * (parent + ind))
            e.comment = comment_for()
            s = Slot(e, src=lambda src=src: src)
            s.block = style in "|>" and style != ""
            s.plus = v.endswith("\n\n") or s.block and "+" in body.split("\n")[0]
            put(s)
            ents.append(e)
            n.ent = e
            n.value = None
            return s.block

        def leaf_plural(n, parent, flow):
            """value of a plural: after `key:`"""
            order = [1, 5]
            extra = [r for r in (0, 2, 3, 4) if rng.random() < .15]
            allr = order + extra
            if rng.random() < .2:
                rng.shuffle(allr)
            rules, body = [], ""
            rc = parent + ind
            forms, styles = {}, []
            for r in allr:
                style, v, b = self.author(rng, flow, rc, ind, one_line=flow)
                if r in order:
                    forms[r] = v
                rules.append((r, style, v, b))
            forms = {r: v for r, s, v, b in rules if r in order}
            e = Ent(n.i, n.kind, keypath(n), forms)
            e.node = n
            e.pstyles = {r: s for r, s, v, b in rules if r in order}
            e.srclast = rules[-1][1]
            e.extra = {r: v for r, s, v, b in rules}
            if flow:
                gap = rng.choice(["{", "{ ", "{  "])
                put(gap)
                body = rng.choice([", ", ",", ",\n" + " " * (rc + 2)]).join("%s: %s" % (RULES[r], b) for r, s, v, b in rules)
                e.comment = comment_for()
                s = Slot(e, src=lambda body=body: body)
                s.block = False
                put(s)
                put(rng.choice(["}", " }", ", }"]))
            else:
                put("\n" + " " * parent)
                for j, (r, s_, v, b) in enumerate(rules):
                    body += " " * (ind if j == 0 else rc) + "%s: %s" % (RULES[r], b)
                    if j < len(rules) - 1 and not body.endswith("\n"):
                        body += "\n"
                e.comment = comment_for()
                nlafter = body.endswith("\n")
                if nlafter:
                    body = body[:-1]
                s = Slot(e, src=lambda body=body: body)
                s.block = False
                put(s)
                if nlafter:
                    e.plus = True
                    put("\n")
                    ents.append(e)
                    n.ent = e
                    return True
            ents.append(e)
            n.ent = e
            return s.block

        def eol(block, flow):
            if flow or block:
                return
            put(rng.choice(["\n"] * 8 + [" # trailing\n", "  #x\n", "\n\n"]))

        def scalar(n, parent, flow):
            """writes the value (after `key: ` or `- `), including end of line"""
            if n.kind in ("sg", "sgC", "sgX", "sgM"):
                return eol(leaf_string(n, parent, flow), flow)
            if n.kind == "blank":
                v, s = rng.choice([("", "''"), ("", '""'), (None, "~"), (None, "null")] + ([(None, "")] if not flow else []))
                if self.i18n and n.inmap and rng.random() < .4:
                    # a plural that lacks a text
                    names = ["zero", "one", "two", "few", "many", "other"]
                    rng.shuffle(names)
                    none = {"other"} | set(rng.sample(names, rng.choice([0, 0, 1, 6])))
                    v = {x: "" if x in none else "some" for x in names}
                    s = "{%s}" % ", ".join("%s: %s" % (x, rng.choice(["''", '""']) if x in none else "some") for x in names)
                n.value = v
                put(s)
                return eol(False, flow)
            # skip
            opts = [(12, "12"), (1.5, "1.5"), (True, "true"), (False, "no"), ({}, "{}"), ([], "[]"), (b"hello", "!!binary aGVsbG8=")]
            if anchors:
                name, e = rng.choice(anchors)
                opts += [(e, "*" + name)] * 3
            v, s = rng.choice(opts)
            n.value = v
            put(s)
            eol(False, flow)

        def assign_index(n):
            k = 0
            for c in n.children:
                if c.kind == "cmt":
                    continue
                c.lindex = None

        def emit(n, col, flow, first=False, indexer=None):
            """the items of a collection at column col; first: the first item
            continues the current line"""
            n.flow = flow
            k = 0
            items = [c for c in n.children if c.kind != "cmt"]
            if flow:
                put("{" if n.kind == "ob" else "[")
                for j, c in enumerate(items):
                    if j:
                        put(rng.choice([", ", ", ", ",", ",\n" + " " * (col + 1)]))
                    one(n, c, col, True)
                put("}" if n.kind == "ob" else "]")
                return
            for c in n.children:
                if not first:
                    if rng.random() < .06:
                        last = pieces[-1] if pieces else ""
                        if isinstance(last, Slot) and last.block:
                            if not last.plus:
                                put(Alt("\n", ""))
                        elif not (isinstance(last, str) and len(pieces) > 1 and isinstance(pieces[-2], Slot) and getattr(pieces[-2].ent, "plus", False)):
                            put("\n")
                    if c.kind == "cmt":
                        put(" " * (rng.choice([col, col, 0, col + 2]) if isinstance(pieces[-1] if pieces else "", str) and not afterblock() else col) + "#" + rng.choice([" ", "", "# "]) + rng.choice(["comment", "a: b", "'", "x # y"]) + "\n")
                        continue
                    if c.kind in ("sgC", "sgM"):
                        for _ in range(rng.choice([1, 1, 2])):
                            put(" " * col + "#" + rng.choice([" note", "note", "  two words "]) + "\n")
                    put(" " * col)
                elif c.kind == "cmt":
                    continue
                first = False
                one(n, c, col, False)

        def afterblock():
            """only literal text without content since a block scalar?"""
            for p in reversed(pieces):
                if isinstance(p, Slot):
                    return p.block or getattr(p.ent, "plus", False)
                t = p if isinstance(p, str) else p.src
                if [l for l in t.split("\n") if l.strip() and not l.strip().startswith("#")]:
                    return False
            return False

        counters = {}

        def one(n, c, col, flow):
            if n.kind == "ob":
                put(self.render_key(c.key, rng, flow) + ":")
                sep = " "
            else:
                # items that the reader skips do not count
                c.lindex = counters.get(n.i, 0)
                if not flow:
                    put("-")
                sep = "" if flow else " "
            if c.kind in PL_KINDS:
                fl = flow or rng.random() < .2
                if fl:
                    put(" ")
                # in block style the last rule may become a block scalar
                (eol if fl else lambda b, f: b or put("\n"))(leaf_plural(c, col, fl), flow)
            elif c.kind in ("ob", "ol"):
                kids = [x for x in c.children if x.kind != "cmt"]
                fl = flow or not kids or (rng.random() < .25 and not any(x.kind in PL_KINDS and False for x in kids))
                if fl:
                    put(sep)
                    if rng.random() < .1:
                        put("&an%d " % c.i)
                    emit(c, col + ind, True)
                    eol(False, flow)
                elif n.kind == "ol" and rng.random() < .6 and kids[0] is c.children[0]:
                    # compact: the first item stands on the line of the dash
                    w = rng.choice([1, 1, ind - 1]) if ind > 1 else 1
                    put(" " * w)
                    emit(c, col + 1 + w, False, first=True)
                else:
                    if rng.random() < .1:
                        put(" &an%d" % c.i)
                    put(rng.choice(["\n", "\n", "\n", " # group\n"]))
                    sub = col + ind
                    if c.kind == "ol" and n.kind == "ob" and rng.random() < .3:
                        sub = col
                    emit(c, sub, False)
            else:
                put(sep)
                c.inmap = n.kind == "ob"
                scalar(c, col, flow)
            if n.kind == "ol" and not self.skipped(c):
                counters[n.i] = counters.get(n.i, 0) + 1

        # prelude
        r = rng.random()
        if r < .1:
            put("---\n")
        elif r < .15:
            put("%YAML 1.1\n---\n")
        if rng.random() < .1:
            put("# file comment\n\n")
        if self.i18n:
            put(rng.choice(["en", "el", "pt_BR", '"en"']) + ":")
            if root.children and [c for c in root.children if c.kind != "cmt"]:
                put("\n")
                emit(root, ind, False)
            else:
                put(rng.choice([" {}\n", "\n", "\n"]))
        elif not [c for c in root.children if c.kind != "cmt"]:
            put("{}\n" if root.kind == "ob" else "[]\n")
            root.flow = True
        elif rng.random() < .1:
            emit(root, 0, True)
            put("\n")
        else:
            emit(root, rng.choice([0, 0, 0, 2]) if nl == "UNIX" else 0, False)
        if rng.random() < .2 and isinstance(pieces[-1], str) and pieces[-1].endswith("\n") and not (
                len(pieces) > 1 and isinstance(pieces[-2], Slot) and getattr(pieces[-2].ent, "plus", False)):
            pieces[-1] = pieces[-1][:-1]
        d = Doc(pieces, ents, nl, root=root, nodes=nodes)
        d.lang = None
        text = d.text(lambda s: s.source(), True)
        want = self.expected(d, {}, True)
        try:
            got = load(text)
        except Exception as ex:
            raise AssertionError("author: %r: %s" % (text, ex))
        if self.i18n:
            got = list(got.values())[0] or ([] if root.kind == "ol" else {})
        if got != want:
            raise AssertionError("author: %r\nwant %r\ngot  %r" % (text, want, got))
        if nl == "DOS" and not any("\n" in (p if isinstance(p, str) else p.out) for p in pieces if not isinstance(p, Slot)):
            raise Skip()      # known finding yaml_dos_block
        return d

    def skipped(self, c):
        """does the reader leave the item out, so that later ones move up?"""
        if c.kind == "skip":
            if isinstance(c.value, Ent):
                return False
            return not isinstance(c.value, (list, dict))
        if c.kind == "blank":
            return c.value is None
        return False

    def expected(self, doc, forms, source=False):
        """what the standard reader must find"""
        def val(n):
            if n.kind in ("ob", "ol"):
                kids = [c for c in n.children if c.kind != "cmt"]
                if n.kind == "ob":
                    return {self.loaded_key(c.key): val(c) for c in kids}
                return [val(c) for c in kids]
            if n.kind in TR:
                e = n.ent
                if e.pl:
                    f = forms.get(e.id, e.extra if source or e.id in doc.__dict__.get("absent", ()) else e.forms)
                    return {RULES[r]: t for r, t in f.items()}
                t = forms.get(e.id, e.forms)[5]
                return Tagged(e.context, t) if e.context else t
            if isinstance(n.value, Ent):
                return val(n.value.node)
            return n.value
        return val(doc.root)

    # -- comparison
    def back_handler(self, doc, forms):
        return self.handler()

    def restore_absent(self, doc, out, absent):
        for e in absent:
            s = [p for p in doc.pieces if isinstance(p, Slot) and p.ent is e][0]
            src = to_nl(s.source(), doc.nl)
            i = out.find(e.placeholder)
            if i < 0:
                raise AssertionError("placeholder of absent %s is gone: %s" % (e.key, short(out)))
            out = out[:i] + src + out[i + len(e.placeholder):]
        return out

    def compare(self, doc, out, forms):
        """None or a description of the difference"""
        absent = [e for e in doc.ents if e.id not in forms]
        if absent:
            try:
                out = self.restore_absent(doc, out, absent)
            except AssertionError as e:
                return str(e)
        if doc.nl == "DOS":
            if re.search(r"(?<!\r)\n", out):
                return "UNIX newline in DOS file %s" % short(out)
            out = out.replace("\r\n", "\n")
        doc.absent = {e.id for e in absent}
        want = self.expected(doc, forms)
        try:
            got = load(out)
            events = [e for e in yaml.parse(out, Loader=Reader) if isinstance(e, yaml.ScalarEvent)]
        except yaml.YAMLError as e:
            return "compiled file is not YAML: %s; %s" % (re.sub(r"\s+", " ", str(e)), short(out))
        if self.i18n:
            got = list(got.values())[0] or {}
        if repr(got) != repr(want):
            return "standard reader finds %s instead of %s in %s" % (short(got), short(want), short(out))
        pos = 0
        for n, p in enumerate(doc.pieces):
            if isinstance(p, (str, Alt)):
                t = p if isinstance(p, str) else p.out
                if out[pos:pos + len(t)] != t:
                    return "text around the strings changed: " + diff(t, out[pos:pos + len(t)]) + " in " + short(out)
                pos += len(t)
                continue
            e = p.ent
            if e.id in doc.absent:
                pos += len(p.source())
                continue
            f = forms[e.id]
            if e.pl:
                m = re.compile(" *").match(out, pos)
                at = m.end()
                evs = [x for x in events if x.start_mark.index >= at][:2 * len(f)]
                if not evs or evs[0].start_mark.index != at:
                    return "plural not at its place in " + short(out)
                styles = {}
                for kx, vx in zip(evs[::2], evs[1::2]):
                    styles[RULENO.get(kx.value)] = vx.style or ""
                for r in f:
                    okst = e.pstyles.get(r, e.pstyles.get(5))
                    if styles.get(r) not in (okst, '"') or (self.tame(f[r]) and styles.get(r) != okst):
                        return "style of %s/%s is %r instead of %r in %s" % (e.key, RULES[r], styles.get(r), okst, short(out))
                last = (evs[-1].style or "") in ("|", ">")
                pos = evs[-1].end_mark.index
                if last:
                    # the newline belongs to the text around
                    while pos and out[pos - 1] == "\n":
                        pos -= 1
                    pos = min(pos + self.newlines_at_end(f, evs[-2].value), evs[-1].end_mark.index - 1) if f else pos
                    rest = doc.pieces[n + 1:n + 2]
                    if not rest or not rest[0].startswith("\n"):
                        pos += 1      # ...which has none
                continue
            ev = [x for x in events if x.start_mark.index <= pos < max(x.end_mark.index, x.start_mark.index + 1)]
            if not ev:
                return "string %s not at its place in %s" % (e.key, short(out))
            ev = ev[0]
            if (ev.style or "") not in (e.style, '"') or (self.tame(f[5]) and (ev.style or "") != e.style):
                return "style of %s is %r instead of %r in %s" % (e.key, ev.style, e.style, short(out))
            pos = ev.end_mark.index
            if p.block and (ev.style or "") not in ("|", ">"):
                if out[pos:pos + 1] != "\n":
                    return "no newline after %s in %s" % (e.key, short(out))
                pos += 1
        if out[pos:] and not (out[pos:] == "\n" and isinstance(([x for x in doc.pieces if x != ""] or [""])[-1], Slot)):
            return "text after the last string: %s" % short(out[pos:])
        return None

    def settled(self, out, again):
        # blank lines after a block scalar are not kept
        def flat(t):
            return re.sub("\n([ \t]*\n)+", "\n", t.replace("\r\n", "\n"))
        return flat(out) == flat(again)

    def newlines_at_end(self, f, rule):
        t = f[RULENO[rule]]
        return max(0, len(t) - len(t.rstrip("\n")) - 1)

    @staticmethod
    def tame(t):
        return re.match(r"^[a-zA-Z]{2,}( [a-zA-Z]{2,})*\Z", t) is not None and t not in ("yes", "no", "on", "off", "true", "false", "null")


class I18nYaml(Yaml):
    name = "YAML_I18N"
    i18n = True
    other_kinds = ["sg", "ob", "pl", "cb", "pl", "sg"]

    def handler(self, rules=(1, 5)):
        from openformats.formats.yaml import I18nYamlHandler
        h = I18nYamlHandler()
        h.set_plural_rules(list(rules))
        h.set_lang_code("en")
        return h

    def bad_source(self, rng):
        return Yaml.bad_source(self, rng) + ["en:\n  a: x\nel:\n  a: y\n", "- a\n", "en:\n  k:\n    one: x\n    one: y\n    other: z\n"]

    def back_handler(self, doc, forms):
        sets = {tuple(sorted(forms[e.id])) for e in doc.ents if e.pl and e.id in forms}
        if len(sets) > 1:
            raise Skip()
        return self.handler(list(sets)[0] if sets else (1, 5))


BINDINGS = [Yaml, I18nYaml]
