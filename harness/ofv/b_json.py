"""Bindings of the JSON family: KEYVALUEJSON, ARB, STRUCTURED_JSON, CHROME, CHROME_V3."""
import json
from .core import *

ESC = ["\\\"", "\\\\", "\\n", "\\t", "\\u00e9", "\\u4e2d", "\\/", "\\ud83d\\ude00", "\\r", "\\b", "\\f"]


def _looks_icu(t):
    return re.match(r"\s*\{\s*[\w-]+\s*,\s*plural\s*,", t) is not None


RAW = Texts(WORDS + ESC + ODD_OK + ["{x}", "{", "}", "[", "]", ",", ":", "'", "<b>", ".", "..0..", "@", "$t", "  ", ", ,", "{ ,", ",]", ",}", ", }", "}, ", "],"],
            ["true", "null", "1", "{x, select, a {b} other {c}}", "{n, number}", "\\\"", "\\\\", "\\\\\\\"", "a\\\\", "a, , b", "{ , }", "[,]", ",}",
             "\\\"a\\\": \\\"b\\\"", "//x", "/* c */", "{plural}", "\\u0000", "a\\nb", "...", "\\\\n", "{a, plural}", "plural, one"],
            strip=False, avoid=_looks_icu)
KEYTOK = ["a", "b", "key", "é", ".", ".", "\\\\", "\\\"", " ", "@", "[", "]", "{", "}", ",", ":", "0", "..0..", "\\u00e9", "-", "_", "\\n", "\\t", "😀", ", ,", "{,", ",}", "\u2028", "\x85"]
ATOMS = ["0", "12", "-3", "1.5", "-0.25", "1e5", "-2e-3", "true", "false", "null"]
FORM = Texts(WORDS + ODD_OK + ["{n}", "{ n }", "{cnt} x", "\\\"", "\\\\n", "\\n", ",", "#", ".", "<b>", "\\u00e9", ":", "{x,}", "{a, number}"],
             ["{n} files", "one", "other", "one other", "zero {x}", "# items", "plural", "{n, plural, one {x} other {y}}", " lead", "tail ", "=1"],
             strip=False)


def icu_body(forms):
    return " ".join("%s {%s}" % (RULES[r], forms[r]) for r in forms)


def esc_key(k):
    return k.replace("\\", "\\\\").replace(".", "\\.")


class Style(object):
    def __init__(self, rng):
        r = self.rng = rng
        self.kind = rng.choice(["compact", "spaced", "lines", "lines", "mad"])
        self.ind = rng.choice(["  ", "    ", "\t"])

    def ws(self):
        if self.kind == "mad":
            return self.rng.choice(["", " ", "\n", "\t", "  \n  ", " \n", "\n\t", "\n \t "])
        return ""

    def colon(self):
        if self.kind == "compact":
            return ":"
        if self.kind == "mad":
            return self.ws() + ":" + self.ws()
        return ": "

    def before(self, depth):
        if self.kind == "compact":
            return ""
        if self.kind == "spaced":
            return " "
        if self.kind == "lines":
            return "\n" + self.ind * depth
        return self.ws()

    def comma(self, depth):
        if self.kind == "compact":
            return ","
        if self.kind == "spaced":
            return ", "
        if self.kind == "lines":
            return ",\n" + self.ind * depth
        return self.ws() + "," + self.ws()


class Node(object):
    def __init__(self, i, kind, key, parent):
        self.i, self.kind, self.key, self.parent = i, kind, key, parent
        self.children = []
        self.ent = None
        self.value = None     # rendered value pieces
        self.head = ""


class JsonBase(Binding):
    drop_mode = "remove"
    has_sync = True
    added_contiguous = True
    list_root = True
    ensure_key = staticmethod(lambda k: True)
    other_kinds = ["sg", "ob", "sg", "cb", "pl"]

    def text(self, rng):
        return RAW(rng)

    def translate(self, ent, rules, rng):
        if ent.pl:
            return {r: FORM(rng) for r in rules}
        return {5: self.text(rng)}

    def bad_source(self, rng):
        return ['{"a": "x", "a": "y"}', '{"k": {"z": "u", "z": "v"}, "m": "n"}', '{"p": "{n, plural, one {x} foo {y}}"}', "{,", '[1,2,{"x": "y", "x": "y"}]']

    def keygen(self, rng, used):
        while True:
            k = "".join(rng.choice(KEYTOK) for _ in range(rng.randint(1, 3)))
            if rng.random() < .1 and used:
                k = rng.choice(sorted(used)) + rng.choice([".", "..0..", "\\\\", "a"])
            if rng.random() < .1:
                k = rng.choice(["string", "message", "context", "@a", "@@x", "0", " ", "description", "null"])
            try:
                if json.loads('"' + k + '"') in used or not self.ensure_key(k):
                    continue
            except ValueError:
                continue
            used.add(json.loads('"' + k + '"'))
            return k

    def atom(self, rng):
        return rng.choice(ATOMS + ["[]", "{}", "[ ]", "{ }", "[1, 2]", "[null]", '{"n": 1}'])

    def can_list_root(self, kinds):
        return self.list_root

    # -- document tree
    def tree(self, kinds, rng):
        root = Node(0, "root", None, None)
        root.isdict = not (self.can_list_root(kinds) and rng.random() < .25)
        cur, nodes, opened = root, {0: root}, []
        used = {0: set()}
        for i, k in enumerate(kinds, 1):
            if k in ("cb", "cl"):
                nodes[i] = ("close", cur)
                cur.close_i = i
                cur = cur.parent
                continue
            key = self.keygen(rng, used[cur.i]) if cur.isdict else None
            n = Node(i, k, key, cur)
            cur.children.append(n)
            nodes[i] = n
            if k in ("ob", "ol"):
                n.isdict = k == "ob"
                used[i] = set()
                cur = n
        return root, nodes

    def path(self, n, keep=None):
        """Key path of a node as the format spells it; indexes count kept siblings."""
        p = n.parent
        base = None if p is None or p.i == 0 else self.path(p, keep)
        if p.isdict:
            k = self.escape_key(n.key)
            return k if base is None else base + "." + k
        idx = [c for c in p.children if keep is None or c.i in keep or c is n].index(n)
        return ("" if base is None else base) + "..%d.." % idx

    def escape_key(self, k):
        return esc_key(k)

    def forms(self, k, rng):
        return {r: FORM(rng) for r in KIND_RULES[k]} if k in PL_KINDS else {5: self.text(rng)}

    def string_pieces(self, e, rng):
        """pieces of the JSON string literal holding entry e"""
        if not e.pl:
            return ['"', Slot(e), '"']
        pre = rng.choice(["{cnt, plural, ", "{ n , plural,", "{n,plural, ", " {item_count, plural, \\n ", "{a-1, plural, \\t"]).replace("\\n", " ").replace("\\t", " ")
        post = rng.choice(["}", " }", "} ", " } "])
        return ['"' + pre, Slot(e, icu_body), post + '"']

    def leaf(self, n, e, st, depth, rng):
        return self.string_pieces(e, rng)

    def blank(self, st, rng):
        return [rng.choice(['""', '" "', '"\\t"', '"\\n"', '"   "'][0:2] + ['"  "'])]

    def skip(self, st, rng):
        return [self.atom(rng)]

    def make_ent(self, n, rng, prev):
        e = Ent(n.i, n.kind, self.path(n), self.forms(n.kind, rng))
        if prev and not e.pl and rng.random() < .2:
            same = [p for p in prev if not p.pl]
            if same:
                e.forms = dict(rng.choice(same).forms)
        return e

    def build(self, kinds, nl, rng):
        st = Style(rng)
        root, nodes = self.tree(kinds, rng)
        ents = []
        pieces = [rng.choice(["", "", "\n", " "])]

        def emit(n, depth):
            br = "{}" if n.isdict else "[]"
            pieces.append(br[0])
            if not n.children:
                pieces.append(st.ws() if st.kind == "mad" else rng.choice(["", "", " "]))
            for j, c in enumerate(n.children):
                pieces.append(st.comma(depth + 1) if j else st.before(depth + 1))
                c.head = ('"' + c.key + '"' + st.colon()) if n.isdict else ""
                pieces.append(c.head)
                if c.kind in ("ob", "ol"):
                    emit(c, depth + 1)
                    continue
                at = len(pieces)
                if c.kind in TR:
                    e = self.make_ent(c, rng, ents)
                    c.ent = e
                    ents.append(e)
                    pieces.extend(self.leaf(c, e, st, depth + 1, rng))
                elif c.kind == "blank":
                    pieces.extend(self.blank(st, rng))
                else:
                    pieces.extend(self.skip(st, rng))
                c.value = pieces[at:]
            if n.children:
                pieces.append(st.before(depth))
            pieces.append(br[1])
        emit(root, 0)
        pieces.append(rng.choice(["", "\n", "\n\n", " "]))
        if nl == "DOS" and not any("\n" in p for p in pieces if isinstance(p, str)):
            pieces.append("\n")
        if nl == "DOS":
            flat = "".join(p for p in pieces if isinstance(p, str))
        return Doc(pieces, ents, nl, root=root, nodes=nodes)

    def kept_fragments(self, doc, i, forms):
        n = doc.nodes.get(i)
        if n is None or isinstance(n, tuple):
            return []
        if n.kind in ("ob", "ol"):
            return [n.head + ("{" if n.isdict else "[")]
        return [n.head + "".join(p if isinstance(p, str) else p.ent.rendered(p, forms[i]) for p in n.value)]

    def back_key(self, doc, e, keep):
        if e.id in doc.nodes:
            return self.path(doc.nodes[e.id], keep)
        if not doc.root.isdict:
            # an added string becomes a one-key object appended to the list
            kept = [c for c in doc.root.children if c.i in keep]
            n = len(kept) + e.nth
            return "..%d..." % n + e.key
        return e.key

    def new_ent(self, id, kind, rng, doc, nth):
        used = {json.loads('"' + c.key + '"') for c in doc.root.children if c.key is not None}
        for x in getattr(doc, "added_keys", ()):
            used.add(x)
        k = self.keygen(rng, used)
        doc.added_keys = set(getattr(doc, "added_keys", ())) | {json.loads('"' + k + '"')}
        e = Ent(id, kind, self.escape_key(k), {5: self.text(rng)})
        e.nth = nth
        e.rawkey = k
        return e

    # -- structure the compiled file must have
    def value_of(self, n, forms):
        return json.loads("".join(p if isinstance(p, str) else p.ent.rendered(p, forms[n.i]) for p in n.value), object_pairs_hook=list_pairs, strict=False)

    def expected_struct(self, doc, keep, forms, added):
        def conv(n):
            out = []
            for c in n.children:
                if c.i not in keep:
                    continue
                v = conv(c) if c.kind in ("ob", "ol") else self.value_of(c, forms)
                out.append((json.loads('"' + c.key + '"'), v) if n.isdict else v)
            return Pairs(out) if n.isdict else out
        return conv(doc.root)

    def check_struct(self, doc, out, keep, forms, added):
        got = json.loads(out, object_pairs_hook=list_pairs, strict=False)
        want = self.expected_struct(doc, keep, forms, added)
        for e in added:
            v = self.added_value(e, forms[e.id])
            k = json.loads('"' + e.rawkey + '"')
            if doc.root.isdict:
                want.append((k, v))
            else:
                want.append(Pairs([(k, v)]))
        assert got == want, "structure: expected %s got %s" % (short(want), short(got))

    def added_value(self, e, forms):
        return json.loads('"' + forms[5] + '"')

    def wellformed(self, content):
        json.loads(content)


class Pairs(list):
    def __eq__(self, o):
        return isinstance(o, Pairs) and list.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


def list_pairs(p):
    return Pairs(p)


class KeyValueJson(JsonBase):
    name = "KEYVALUEJSON"

    def handler(self):
        from openformats.formats.json import JsonHandler
        return JsonHandler()


class Structured(JsonBase):
    name = "STRUCTURED_JSON"
    needsome = True
    list_root = False
    other_kinds = ["sg", "sgM", "pl"]

    def handler(self):
        from openformats.formats.json import StructuredJsonHandler
        return StructuredJsonHandler()

    def ensure_key(self, k):
        return k != "string"

    def can_list_root(self, kinds):
        # the items of a root list are objects holding entries
        depth = 0
        for k in kinds:
            if depth == 0 and k in TR | {"blank"}:
                return False
            depth += (k == "ob") - (k == "cb")
        return bool(kinds)

    META = Texts(WORDS + ODD_OK + ["\\\"", "\\\\", "\\n", "\\t", ",", "{", "}", ":", ", ,", "\\b", "'"], ["ctx", "a, , b", "{ ,", ",]", ",}", "string", "\\\"string\\\": 1"], strip=False)

    def make_ent(self, n, rng, prev):
        e = JsonBase.make_ent(self, n, rng, prev)
        if n.kind[-1] in "XM":
            e.rawctx = self.META(rng)
            e.context = json.loads('"' + e.rawctx + '"')
        if n.kind[-1] in "CM":
            e.rawcom = self.META(rng)
            e.comment = json.loads('"' + e.rawcom + '"')
        if n.kind[-1] == "M" and rng.random() < .5:
            e.limit = rng.randint(1, 300)
        return e

    def leaf(self, n, e, st, depth, rng):
        fields = [["string", self.string_pieces(e, rng)]]
        if e.context:
            fields.append(["context", ['"' + e.rawctx + '"']])
        if e.comment:
            fields.append(["developer_comment", ['"' + e.rawcom + '"']])
        if e.limit is not None:
            fields.append(["character_limit", [str(e.limit)]])
        if rng.random() < .15:
            fields.append(["x", [rng.choice(['1', 'null', '"foo"', "true", "[1]", '{"y": 2}'])]])
        rng.shuffle(fields)
        out = ["{"]
        for j, (k, v) in enumerate(fields):
            out.append(st.comma(depth + 1) if j else st.before(depth + 1))
            out.append('"' + k + '"' + st.colon())
            out += v
        out += [st.before(depth), "}"]
        return out

    def blank(self, st, rng):
        return [rng.choice(['{"string": ""}', '{"string": " "}', '{"context": "c", "string": ""}'])]

    def skip(self, st, rng):
        return [rng.choice(ATOMS + ["[]", "{}", "[1, 2]", '"plain"', '""', '{"n": 1}', '["a", "b"]', '{"x": "y"}'])]

    def new_ent(self, id, kind, rng, doc, nth):
        e = JsonBase.new_ent(self, id, kind, rng, doc, nth)
        if kind in ("sgM", "sgX"):
            e.context = json.loads('"' + self.META(rng) + '"')
        if kind in ("sgM", "sgC"):
            e.comment = json.loads('"' + self.META(rng) + '"')
            e.limit = rng.choice([None, 5])
        return e

    def added_value(self, e, forms):
        return None

    def check_struct(self, doc, out, keep, forms, added):
        got = json.loads(out, object_pairs_hook=list_pairs, strict=False)
        want = self.expected_struct(doc, keep, forms, added)
        if added:
            tail = got[len(want):]
            got2 = type(want)(got[:len(want)])
            assert got2 == want, "structure: expected %s got %s" % (short(want), short(got))
            assert len(tail) == len(added)
            if not doc.root.isdict:
                assert all(len(x) == 1 for x in tail), tail
                tail = [x[0] for x in tail]
            for e, (k, v) in zip(added, tail):
                v = dict(v)
                w = {"string": json.loads('"' + forms[e.id][5] + '"')}
                if e.context: w["context"] = e.context
                if e.comment: w["developer_comment"] = e.comment
                if e.limit is not None: w["character_limit"] = e.limit
                assert k == json.loads('"' + e.rawkey + '"') and v == w, "added entry: expected %s got %s" % (short(w), short(v))
        else:
            assert got == want, "structure: expected %s got %s" % (short(want), short(got))


class Arb(JsonBase):
    name = "ARB"
    list_root = False
    drop_mode = "keep"
    needsome = True
    other_kinds = ["sg", "sgM", "pl"]

    def handler(self):
        from openformats.formats.json import ArbHandler
        return ArbHandler()

    def ensure_key(self, k):
        return not k.startswith("@")

    def skip(self, st, rng):
        return [rng.choice(ATOMS + ["[]", "{}", "[1, 2]", '["a"]', '{"x": "y"}'])]

    def make_ent(self, n, rng, prev):
        e = JsonBase.make_ent(self, n, rng, prev)
        if n.kind[-1] in "XM":
            e.context = Structured.META(rng)
        if n.kind[-1] in "CM":
            e.comment = Structured.META(rng)
        return e

    def build(self, kinds, nl, rng):
        st = Style(rng)
        root, nodes = self.tree(kinds, rng)
        ents, pieces, items = [], [], []
        root.isdict = True
        if rng.random() < .7:
            items.append(['"@@locale"' + st.colon() + '"en_US"'])
        if rng.random() < .2:
            items.append(['"@@x-generator"' + st.colon() + '"tool"'])
        late = []
        for c in root.children:
            head = '"' + c.key + '"' + st.colon()
            c.head = head
            meta = []
            if c.kind in TR:
                e = c.ent = self.make_ent(c, rng, ents)
                ents.append(e)
                c.value = self.leaf(c, e, st, 1, rng)
                if e.context: meta.append(["context", '"' + e.context + '"'])
                if e.comment: meta.append(["description", '"' + e.comment + '"'])
                if rng.random() < .3: meta.append(["type", '"text"'])
            elif c.kind == "blank":
                c.value = self.blank(st, rng)
                if rng.random() < .3: meta.append(["description", '"blank one"'])
            elif c.kind == "raw":          # declared not to be text
                c.value = ['"%s"' % self.text(rng)]
                meta.append(["type", rng.choice(['"image"', '"css"'])])
                if rng.random() < .5: meta.append(["description", '"an image"'])
            else:
                c.value = self.skip(st, rng)
            if c.kind in TR and rng.random() < .2:
                meta.append(["placeholders", rng.choice(['{"n": {"type": "int", "description": "deep", "context": "deep"}}', "{}"])])
            rng.shuffle(meta)
            mine = [head] + c.value
            if meta or rng.random() < .1:
                m = ['"@' + c.key + '"' + st.colon() + "{"]
                for j, (k, v) in enumerate(meta):
                    m += [st.comma(2) if j else st.before(2), '"' + k + '"' + st.colon(), v]
                m += [st.before(1), "}"]
                where = rng.random()
                if where < .6:
                    items += [mine, m]
                elif where < .8:
                    items += [m, mine]
                else:
                    items.append(mine)
                    late.append(m)
            else:
                items.append(mine)
        items += late
        pieces.append("{")
        for j, it in enumerate(items):
            pieces.append(st.comma(1) if j else st.before(1))
            pieces += it
        pieces += [st.before(0), "}", rng.choice(["", "\n"])]
        if nl == "DOS":
            pieces.append("\n")
        return Doc(pieces, ents, nl, root=root, nodes=nodes)

    check_struct = None


class Chrome(JsonBase):
    name = "CHROME"
    list_root = False
    has_sync = True
    drop_mode = "keep"
    other_kinds = ["sg", "sgC", "pl"]

    def handler(self):
        from openformats.formats.json import ChromeI18nHandler
        return ChromeI18nHandler()

    def ensure_key(self, k):
        return "." not in k and "\\" not in k and k != "message"

    def path(self, n, keep=None):
        return JsonBase.path(self, n, keep) + ".message"

    def make_ent(self, n, rng, prev):
        e = JsonBase.make_ent(self, n, rng, prev)
        if n.kind[-1] in "CM":
            e.rawcom = Structured.META(rng)
            e.comment = json.loads('"' + e.rawcom + '"')
        return e

    def leaf(self, n, e, st, depth, rng):
        f = [["message", self.string_pieces(e, rng)]]
        if e.comment:
            f.append(["description", ['"' + e.rawcom + '"']])
        if rng.random() < .25:
            f.append(["placeholders", [rng.choice(['{"user": {"content": "$1", "example": "Bob"}}', "{}"])]])
        rng.shuffle(f)
        out = ["{"]
        for j, (k, v) in enumerate(f):
            out += [st.comma(depth + 1) if j else st.before(depth + 1), '"' + k + '"' + st.colon()] + v
        return out + [st.before(depth), "}"]

    def blank(self, st, rng):
        return [rng.choice(['{"message": ""}', '{"message": " ", "description": "d"}'])]

    def skip(self, st, rng):
        return [rng.choice(ATOMS + ["[]", "{}", '{"description": "d"}', '"plain"', '["x"]', '{"message": 5}', '{"message": null}', '{"msg": "x"}'])]
    check_struct = None


class ChromeV3(Chrome):
    name = "CHROME_V3"
    has_sync = False
    drop_mode = "remove"

    def handler(self):
        from openformats.formats.json import ChromeI18nHandlerV3
        return ChromeI18nHandlerV3()

    def ensure_key(self, k):
        return True

    def escape_key(self, k):
        return k

    def path(self, n, keep=None):
        return n.key

    def make_ent(self, n, rng, prev):
        e = JsonBase.make_ent(self, n, rng, prev)
        if n.kind[-1] in "CM":
            e.rawcom = Structured.META(rng)
            e.comment = e.rawcom
        return e

    check_struct = JsonBase.check_struct


BINDINGS = [KeyValueJson, Structured, Arb, Chrome, ChromeV3]
