"""Bindings of the XML family: ANDROID (two handlers), STRINGSDICT, CUSTOM_XML."""
from .core import *

XTOK = WORDS + ODD_OK + ["&lt;", "&amp;", "&#39;", "\\n", "\\'", '\\"', "%1$s", "%d", "\\u0020", "<b>x</b>", "<br/>", "<i>it <b>b</b></i>",
                "<xliff:g id=\"n\">%s</xliff:g>", "\n", "  ", "@", "?", "[", "]", ">", "/", "=", "#", "<a href='x'>l</a>"]
XHARD = ["<![CDATA[<p>x & y</p>]]>", "<b>bold</b> tail", "<b>only</b>", "a <!-- c --> b", "&lt;string name=\"z\">", "]]&gt;", " lead and trail ",
         "\n  multi\n  line\n", "%1$s of %2$s", "@string/foo", "\\@foo", "<u></u>x", "a<br />b", "item", "x > y", "-->", "<![CDATA[ ]]>x"]
ATEXT = Texts(XTOK + ["'", '"'], XHARD + ["'quoted'", '"q"', "it's"], strip=False)


def _unesc_ok(t):
    import re as r
    # AndroidUnescapedHandler wants quotes escaped outside inline tags
    return r.search(r"(?<!\\)['\"]", r.sub(r"<(xliff:g|a)[^>]*>.*?</\1>", "", t)) is None


UTEXT = Texts([t for t in XTOK if t not in ("<i>it <b>b</b></i>",)], ["<b>bold</b> tail", "<![CDATA[<p>x & y</p>]]>", "%1$s of %2$s", "\\'q\\'", "a\\\"b", " lead and trail "],
              strip=False, avoid=lambda t: not _unesc_ok(t))


def plural_sep(pre, post):
    """What stands between two items of a plural body in normal form."""
    return pre if pre.startswith(post) else post + pre


class Android(Binding):
    name = "ANDROID"
    raw_keeps_comment = False
    literal_newlines = True
    drop_mode = "remove"
    exact_drop = True
    other_kinds = ["cmt", "sg", "ol", "sg", "cl", "pl"]
    TEXT = ATEXT

    def handler(self):
        from openformats.formats.android import AndroidHandler
        return AndroidHandler()

    def text(self, rng):
        return self.TEXT(rng)

    def bad_source(self, rng):
        return ['<resources><!-- c --><string name="a">x</string><string name="a">y</string></resources>',
                '<resources>\r\n<!-- left --><plurals name="p"><item quantity="one">x</item></plurals></resources>',
                '<resources><string name="a">x</strin></resources>', "nothing", "<resources><!-- c -->"]

    NAMES = ["a", "b", "key", "some_name", "a.b", "a:b", "é", "a\\b", "a[0]", "x[", "k&amp;k", "a b", "\\\\", "0", "name", "a\\[0]"]

    def attrs(self, rng, name, product=None, extra=()):
        q = rng.choice('""""\'')
        at = ["name=%s%s%s" % (q, name, q)]
        if product:
            at.append("product=%s%s%s" % (q, product, q))
        if rng.random() < .2:
            at.append('formatted="false"')
        if rng.random() < .05:
            at.append("x:y = 'a>b/c \"'")
        at += list(extra)
        rng.shuffle(at)
        return rng.choice([" ", " ", " ", "  ", "\n   "]).join([""] + at) + rng.choice(["", "", "", " "])

    def build(self, kinds, nl, rng):
        ind = rng.choice(["  ", "    ", "\t"])
        style = rng.choice(["lines", "lines", "compact", "mad"])

        def ws(depth):
            if style == "compact":
                return ""
            if style == "mad":
                return rng.choice(["", " ", "\n", "\n\n  ", "\t\n"])
            return "\n" + ind * depth

        pre = rng.choice(['<?xml version="1.0" encoding="utf-8"?>\n', "", '<?xml version="1.0"?>', "<!-- license\n <r> -->\n"])
        head = "<resources" + rng.choice(["", "", ' xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2"', ' xmlns:tools="http://x" tools:locale="en"', "\n  a='b'\n"]) + ">"
        ents, used, first = [], {}, {}
        last = {"c": 0}
        items = []          # [id, pieces, tail, children]
        cur = items
        groups, opened = {}, []
        cmts = {}
        pend = None
        gname = gprod = gindex = gcom = None

        def newname(tag):
            for _ in range(200):
                nm = rng.choice(self.NAMES) + (str(rng.randint(0, 9)) if rng.random() < .7 else "")
                pr = rng.choice(["tablet", "a", "b:c"]) if rng.random() < .15 else None
                if rng.random() < .1 and used:
                    nm, pr = rng.choice(sorted(used, key=str))
                    nm, pr = nm, pr or None
                if tag != "string-array" and any(k[0] == nm and "string-array" in v for k, v in used.items()):
                    continue
                tags = used.get((nm, pr or ""), [])
                if tag in tags or (tag == "string-array" and tags):
                    continue
                if tags and any(((nm, (pr or "") + t) in used) for t in ("string", "plurals", "string-array")):
                    continue
                if any(k[0] == nm and (k[1] or "").endswith(("string", "plurals")) for k in used):
                    continue
                return nm, pr
            raise Skip()

        def esc(nm):
            return nm.replace("\\", "\\\\").replace("[", "\\[")

        def identity(nm, pr, tag):
            tags = used.setdefault((nm, pr or ""), [])
            ctx = (pr or "") + (tag if tags else "")
            tags.append(tag)
            first.setdefault((nm, pr or ""), i)
            return ctx

        for i, k in enumerate(kinds, 1):
            depth = 1 + len(opened)
            if k in ("cb", "cl"):
                g = opened.pop()
                g[4] = i
                cur = items
                pend = None
                gname = None
                continue
            ent = None
            if k == "cmt":
                body = rng.choice([" a note ", "note: see <b>", " multi\n line ", "- x", " <string name=\"z\">no</string> ", "", " é "])
                cmts[i] = body
                p = ["<!--" + body + "-->"]
                if not opened:
                    pend = body
            elif k == "ol":
                gname, pr = newname("string-array")
                gprod = pr
                identity(gname, pr, "string-array")
                gindex = 0
                gcom = pend
                p = ["<string-array" + self.attrs(rng, gname, pr) + ">", ws(2)]
            elif opened and k in ("sg", "blank"):
                tagat = rng.choice(["", "", "", " x='1'"])
                if k == "blank":
                    p = [rng.choice(["<item/>", "<item />", "<item></item>", "<item> </item>", "<item>\n</item>"])]
                else:
                    ent = Ent(i, k, "%s[%d]" % (esc(gname), gindex), {5: self.text(rng)}, context=gprod or "", comment=gcom or "")
                    p = ["<item" + tagat + ">", Slot(ent), "</item>"]
                gindex += 1
            elif k in SG_KINDS:
                nm, pr = newname("string")
                if k == "sg":
                    pr = None
                    if "string" in used.get((nm, ""), []) or any(kk[0] == nm and "string-array" in v for kk, v in used.items()):
                        raise Skip()
                elif not pr:
                    pr = "p%d" % i
                ctx = identity(nm, pr, "string")
                ent = Ent(i, k, esc(nm), {5: self.text(rng)}, context=ctx, comment=pend or "")
                p = ["<string" + self.attrs(rng, nm, pr) + ">", Slot(ent), "</string" + rng.choice(["", "", " "]) + ">"]
                ent.tagname = nm
            elif k in PL_KINDS:
                nm, pr = newname("plurals")
                if k != "plX":
                    pr = None
                    if "plurals" in used.get((nm, ""), []) or any(kk[0] == nm and "string-array" in v for kk, v in used.items()):
                        raise Skip()
                elif not pr:
                    pr = "p%d" % i
                ctx = identity(nm, pr, "plurals")
                rules = list(KIND_RULES[k])
                if rng.random() < .2:
                    rng.shuffle(rules)
                ent = Ent(i, k, esc(nm), {r: self.text(rng) for r in rules}, context=ctx, comment=pend or "")
                a, z = ws(2), ws(1)
                p = ["<plurals" + self.attrs(rng, nm, pr) + ">" + a, Slot(ent, self.plural_body(self.plural_sep(a, z))), z + "</plurals>"]
            elif k == "blank":
                pend = None
                nm = "blank%d" % i
                p = [rng.choice(['<string name="%s"/>', '<string name="%s"></string>', '<string name="%s"> \n </string>', '<string-array name="%s"></string-array>',
                                 '<string-array name="%s"/>',
                                 '<plurals name="%s"><item quantity="one"></item><item quantity="other"/></plurals>',
                                 '<plurals name="%s">\n<item quantity="other"> </item>\n</plurals>']) % nm]
                pend = None
            elif k == "skip":
                nm = rng.choice(["skipped%d" % i] + [kk[0] for kk in used])
                p = [rng.choice(['<string name="%s" translatable="false">No</string>', "<string translatable='false' name=\"%s\">N<b>o</b></string>",
                                 '<string-array name="%s" translatable="false"><item>a</item> <item>b</item></string-array>',
                                 '<plurals translatable="false" name="%s"><item quantity="one">x</item></plurals>']) % nm]
                pend = None
            elif k == "raw":
                p = [rng.choice(['<color name="c">#fff</color>', '<dimen name="d">1dp</dimen>', '<integer-array name="n"><item>1</item></integer-array>',
                                 '<item name="a" type="id"/>', '<declare-styleable><attr name="x"/></declare-styleable>', '<strings name="q">x</strings>'])]
                if not self.raw_keeps_comment:
                    pend = None
            else:
                raise Skip()
            tail = ws(depth)
            node = [i, p, tail, [] if k == "ol" else None, None]
            cur.append(node)
            if k == "ol":
                opened.append(node)
                groups[i] = node
                cur = node[3]
            if ent is not None:
                ent.twin = None
                if not opened:
                    at = first[(nm, pr or "")]
                    if at != i:
                        ent.twin = (at, pr or "")
                if ents and rng.random() < .2 and not ent.pl and not ents[-1].pl:
                    ent.forms = dict(ents[-1].forms)
                ents.append(ent)
                if not opened:
                    pend = None

        foot = rng.choice(["</resources>", "</resources >"]) + rng.choice(["", "\n", "\n\n"])
        first = ws(1)
        pieces = [pre, head, first]
        for n in items:
            pieces += n[1]
            if n[3] is not None:
                for c in n[3]:
                    pieces += c[1] + [c[2]]
                pieces.append("</string-array>")
            pieces.append(n[2])
        pieces.append(foot)
        if nl == "DOS" and not any("\n" in p for p in pieces if isinstance(p, str)):
            pieces.append("\n")
            foot += "\n"
        return Doc(pieces, ents, nl, top=[pre, head, first], items=items, foot=foot)

    def plural_body(self, sep):
        def fmt(forms):
            return sep.join('<item quantity="%s">%s</item>' % (RULES[r], forms[r]) for r in forms)
        return fmt

    def plural_sep(self, pre, post):
        return plural_sep(pre, post)

    def render(self, p, forms):
        return "".join(x if isinstance(x, str) else x.ent.rendered(x, forms[x.ent.id]) for x in p)

    def dropped_text(self, doc, keep, forms):
        out = list(doc.top)
        for n in doc.items:
            if n[0] not in keep:
                continue
            out.append(self.render(n[1], forms))
            if n[3] is not None:
                kept = [c for c in n[3] if c[0] in keep]
                its = [c for c in n[3] if c[1][0].startswith("<item")]
                keptits = [c for c in kept if c in its]
                changed = any(c[0] not in keep for c in its)
                for c in kept:
                    tail = c[2]
                    if keptits and c is keptits[-1] and any(x.startswith("<item") for x in [its[0][1][0]]) and any(isinstance(x, Slot) for it in its for x in it[1]):
                        tail = its[-1][2]
                    out.append(self.render(c[1], forms) + tail)
                out.append("</string-array>")
            out.append(n[2])
        out.append(doc.foot)
        return to_nl("".join(out), doc.nl)

    def back_key(self, doc, e, keep):
        for n in doc.items:
            if n[3] is None:
                continue
            at = 0
            for c in n[3]:
                if c[0] in keep and c[1][0].startswith("<item"):
                    if c[0] == e.id:
                        return re.sub(r"\[\d+\]$", "[%d]" % at, e.key)
                    at += 1
        return e.key

    def back_context(self, doc, e, keep):
        # entries of different tags sharing name and product: the second
        # one's tag is part of its context while the first is there
        if e.twin and e.twin[0] not in keep:
            return e.twin[1]
        return e.context

    def wellformed(self, content):
        import xml.etree.ElementTree as ET
        raise Skip()

    def kept_fragments(self, doc, i, forms):
        return []


class AndroidUnescaped(Android):
    name = "ANDROID_UNESCAPED"
    TEXT = UTEXT

    def handler(self):
        from openformats.formats.android_unescaped import AndroidUnescapedHandler
        return AndroidUnescapedHandler()



class BetaAndroid(Android):
    """ The superseded handler: double-quoted attributes, names without
    escapes that are used once, no white space inside of end tags. """
    name = "BETA_ANDROID"
    raw_keeps_comment = True
    comments_move = True
    NAMES = ["a", "b", "key", "some_name", "a.b", "a:b", "\u00e9", "k&amp;k", "a b", "0", "name", "quantity", "item", "string"]

    def handler(self):
        from openformats.formats.beta_android import BetaAndroidHandler
        return BetaAndroidHandler()

    def bad_source(self, rng):
        return ['<resources><!-- c --><string name="a">x</string><string>y</string></resources>',
                '<resources>\r\n<!-- left --><plurals name="p"><item>x</item></plurals></resources>',
                '<resources><!-- c --><string name="a">x</strin></resources>', "nothing", "<resources><!-- c -->"]

    def attrs(self, rng, name, product=None, extra=()):
        at = ['name="%s"' % name] + (['product="%s"' % product] if product else []) + (['formatted="false"'] if rng.random() < .2 else [])
        rng.shuffle(at)
        return rng.choice([" ", " ", " ", "  ", "\n   "]).join([""] + at) + rng.choice(["", "", "", " "])

    def build(self, kinds, nl, rng):
        for _ in range(30):
            try:
                return self.build1(kinds, nl, rng)
            except Skip:
                pass
        raise Skip()

    def build1(self, kinds, nl, rng):
        doc = super(BetaAndroid, self).build(kinds, nl, rng)
        used = set()
        fix = [(re.compile(r"</(string|resources) >"), r"</\1>"), (re.compile("<item/>"), "<item />"),
               (re.compile("translatable='false'"), 'translatable="false"')]

        def plain(p):
            if isinstance(p, str):
                for a, b in fix:
                    p = a.sub(b, p)
            return p
        for n in doc.items:
            n[1][:] = [plain(p) for p in n[1]]
            for c in n[3] or []:
                c[1][:] = [plain(p) for p in c[1]]
        doc.foot = plain(doc.foot)
        doc.pieces = [plain(p) for p in doc.pieces]
        for e in doc.ents:
            if (e.key, e.context) in used or e.twin:
                raise Skip()
            used.add((e.key, e.context))
        if nl == "DOS" and not any("\n" in p for p in doc.pieces[1:] if isinstance(p, str)):
            raise Skip()
        return doc

    def plural_sep(self, pre, post):
        return post.split("\n")[0] + "\n" + pre.rsplit("\n", 1)[1] if "\n" in pre and "\n" in post else ""

    def dropped_text(self, doc, keep, forms):
        out = list(doc.top)
        for n in doc.items:
            if n[0] in keep:
                out.append(self.render(n[1], forms))
                if n[3] is not None:
                    out += [(self.render(c[1], forms) if c[0] in keep else "") + c[2] for c in n[3]] + ["</string-array>"]
            out.append(n[2])
        out.append(doc.foot)
        return to_nl("".join(out), doc.nl)

    def back_context(self, doc, e, keep):
        return e.context


STEXT = Texts(WORDS + ODD_OK + ["&lt;", "&amp;", "%d", "%#@more@", "%1$@", "\n", "  ", "<b>x</b>", "'", '"', "]", "@", "\\n"],
              [" lead and trail ", "%#@a@ and %#@b@", "<![CDATA[<x>]]>", "one", "other", "a <!-- c --> b", "NSStringPluralRuleType", "<key>one</key>"], strip=False)


class StringsDict(Binding):
    name = "STRINGSDICT"
    literal_newlines = True
    drop_mode = "remove"
    exact_drop = True
    other_kinds = ["ob", "pl", "plA", "cb", "ob", "pl", "cb"]

    def handler(self):
        from openformats.formats.stringsdict import StringsDictHandler
        return StringsDictHandler()

    def text(self, rng):
        return STEXT(rng)

    def bad_source(self, rng):
        return ["<plist><dict><key>a</key></dict></plist>", "<dict><key>a</key><dict></dict><key>a</key><dict></dict></dict>",
                "<dict><key>a</key>\r\n<dict><key>v</key><dict><key>one</key><string>x</string></dict></dict></dict>", "x", "<dict>"]

    def build(self, kinds, nl, rng):
        style = rng.choice(["lines", "lines", "lines", "compact", "mad"])
        ind = rng.choice(["  ", "    ", "\t"])

        def ws(depth):
            if style == "compact":
                return ""
            if style == "mad":
                return rng.choice(["", " ", "\n", "\n\n  ", "\t\n"])
            return "\n" + ind * depth

        pre = rng.choice(['<?xml version="1.0" encoding="UTF-8"?>\n<!DOCTYPE plist PUBLIC "-//Apple//DTD PLIST 1.0//EN" "http://x.dtd">\n<plist version="1.0">\n',
                          '<plist version="1.0">', "<!-- c -->\n<plist>\n  "])
        ents, groups, used = [], [], set()
        g = None
        for i, k in enumerate(kinds, 1):
            if k == "cb":
                g["close"] = i
                g = None
            elif k == "ob":
                while True:
                    key = rng.choice(["ONE", "a key", "é", "a:b", "a.b", "k&amp;k", "x%d", "users", "", "plural_%d"]) + (str(rng.randint(0, 99)) if rng.random() < .6 else "")
                    if key not in used:
                        break
                used.add(key)
                g = dict(id=i, key=key, vars=[], names=set())
                groups.append(g)
            else:
                while True:
                    v = rng.choice(["users", "more", "v", "NSx", "count_%d" % i, "one", "x1", "é", "user", "use", "mor", "mo", "vv"])
                    if v not in g["names"]:
                        break
                g["names"].add(v)
                g["vars"].append((i, k, v))
        pieces = [pre, "<dict>", ws(1)]
        doc_groups = []
        for g in groups:
            pieces += ["<key>%s</key>" % g["key"], ws(1), "<dict>"]
            lead = [ws(2)]
            pieces += lead
            pairs = []           # (id or None, lead ws, pieces)
            order = list(g["vars"])
            # the format string, in front or between the variables
            fpos = 0 if rng.random() < .8 else rng.randint(0, len(order))
            first = rng.choice(["first", "first", "any", "none", "missing"])
            later = [x for x in order[fpos:]]
            pre_t = suf_t = ""
            target = None
            if first == "none" or not order:
                fmt_src = fmt_out = rng.choice(["plain", "%1$#@users@", "%#@users", "", "%2$@ %#@users@"])
                if re.match("(?s)[^@]*%#@(users)@", fmt_src) and any(x[2] == "users" for x in later):
                    fmt_src = fmt_out = "plain"
            else:
                if first == "missing":
                    var = "nowhere"
                else:
                    x = (order[0] if first == "first" else rng.choice(order))
                    var = x[2]
                    if x in later:
                        target = x[0]
                pre_t = rng.choice(["", "", "There ", "Look! ", "%d ", "a\n", "  "])
                suf_t = rng.choice(["", "", " here", " in the %#@room@ here", "s", "\nx", " "])
                fmt_src = pre_t + "%#@" + var + "@" + suf_t
                fmt_out = "%#@" + var + "@" if target else fmt_src
                if target and any(x[0] == target and x[1] == "blank" for x in order) and (pre_t + suf_t).strip():
                    # the variable would get the surrounding text only
                    pre_t, suf_t = "", ""
                    fmt_src = fmt_out
            allp = []
            for x in order:
                allp.append(x)
            allp.insert(fpos, None)
            for j, x in enumerate(allp):
                lw = "" if j == 0 else ws(2)
                if x is None:
                    p = ["<key>NSStringLocalizedFormatKey</key>", ws(2), "<string>", Alt(fmt_src, fmt_out), "</string>"]
                    if not fmt_src and rng.random() < .5:
                        p = ["<key>NSStringLocalizedFormatKey</key>", ws(2), "<string/>"]
                    pairs.append((None, lw, p))
                    continue
                i, k, v = x
                p = ["<key>%s</key>" % v, ws(2), "<dict>"]
                specs = ["<key>NSStringFormatSpecTypeKey</key>" + ws(3) + "<string>NSStringPluralRuleType</string>",
                         "<key>NSStringFormatValueTypeKey</key>" + ws(3) + "<string>%s</string>" % rng.choice(["d", "u", "ld", "@"])]
                r = rng.random()
                specs = specs if r < .85 else specs[:1] if r < .93 else []
                if k == "blank":
                    p += [ws(3)] + [y for sp in specs for y in (sp, ws(3))]
                    p += rng.choice([["<key>one</key><string></string>", ws(3), "<key>other</key>", ws(3), "<string> </string>"], ["<key>other</key><string/>"]])
                    p += [ws(2), "</dict>"]
                    pairs.append((i, lw, p))
                    continue
                rules = list(KIND_RULES[k])
                if rng.random() < .2:
                    rng.shuffle(rules)
                raw = {r: self.text(rng) for r in rules}
                inline = target == i
                if inline and rng.random() < .3 and (pre_t + suf_t).strip():
                    raw[rules[0]] = ""
                forms = {r: (pre_t + t + suf_t if inline else t) for r, t in raw.items()}
                e = Ent(i, k, g["key"], forms, context=v)
                e.forms = forms
                ents.append(e)
                inner, close = ws(3), ws(2)
                kt = ws(3)
                seps = [inner if style != "mad" else ws(3) for _ in rules]
                kts = [kt] * len(rules)
                p += [inner] + [y for n, sp in enumerate(specs) for y in (([ws(3)] if n else []) + [sp])]
                # source: [lead] key kt string sep key kt string close
                src_lead = (ws(3) if specs else "")
                out_lead = kt if specs else ""

                def src(raw=raw, kt=kt, rules=rules, src_lead=src_lead, mid=[ws(3) for _ in rules]):
                    return src_lead + "".join((mid[n] if n else "") + "<key>%s</key>%s<string>%s</string>" % (RULES[r], kt, raw[r]) for n, r in enumerate(rules))

                def fmt(forms, kt=kt, out_lead=out_lead):
                    return out_lead + kt.join("<key>%s</key>%s<string>%s</string>" % (RULES[r], kt, t) for r, t in forms.items())

                def tmpl(e, kt=kt, out_lead=out_lead):
                    return out_lead + "<tx_awesome_key_tag></tx_awesome_key_tag>" + kt + "<tx_awesome_string_tag>" + e.placeholder + "</tx_awesome_string_tag>"
                p += [Slot(e, fmt, src, tmpl), close, "</dict>"]
                pairs.append((i, lw, p))
            for _, lw, p in pairs:
                pieces += [lw] + p
            end = [ws(1), "</dict>", ws(1)]
            pieces += end
            doc_groups.append((g, pairs, end))
        pieces += ["</dict>", rng.choice(["\n</plist>\n", "</plist>", "\n</plist>"])]
        if nl == "DOS" and not any("\n" in p for p in pieces if isinstance(p, str)):
            pieces.append("\n")
        gone = {}
        return Doc(pieces, ents, nl, groups=doc_groups)

    def dropped_text(self, doc, keep, forms):
        # a blank variable is copied with the whitespace after it
        blanks = {id(p) for g, pairs, end in doc.groups for i, lw, p in pairs if i is not None and not any(isinstance(x, Slot) for x in p)}
        order = []
        for g, pairs, end in doc.groups:
            prev = None
            for i, lw, p in pairs:
                order.append((i, [lw] + p, prev is not None and id(prev) in blanks))
                prev = p
        res = []
        # pieces of the pairs follow each other in doc.pieces in order
        k = 0
        idx = 0
        P = doc.pieces
        while idx < len(P):
            if k < len(order):
                i, seq, after_blank = order[k]
                if len(P) - idx >= len(seq) and all(P[idx + m] is seq[m] for m in range(len(seq))):
                    if i is None or i in keep:
                        res += seq
                    elif after_blank:
                        res.append(seq[0])
                    idx += len(seq)
                    k += 1
                    continue
            res.append(P[idx])
            idx += 1
        assert k == len(order)
        return to_nl("".join(x if isinstance(x, str) else x.out if isinstance(x, Alt) else x.ent.rendered(x, forms[x.ent.id]) for x in res), doc.nl)



class CustomXml(Binding):
    name = "CUSTOM_XML"
    literal_newlines = True
    other_kinds = ["sg", "sg", "blank"]

    def __init__(self):
        self.cfg = {}

    def handler(self):
        from openformats.formats.customizable_xml import CustomizableXMLHandler
        return CustomizableXMLHandler(**self.cfg)

    def text(self, rng):
        return ATEXT(rng)

    def bad_source(self, rng):
        T = self.tags
        return ["nothing", "<%(root)s>" % T, "<%(root)s><%(section)s><%(string)s %(key)s='a'><%(base)s>x</%(base)s></%(string)s></%(section)s></%(root)s>" % T,
                "<%(root)s><%(section)s %(sid)s='s'><%(string)s><%(base)s>x</%(base)s></%(string)s></%(section)s></%(root)s>" % T]

    def build(self, kinds, nl, rng):
        if not hasattr(self, "tags"):
            self.tags = dict(root="strings", section="section", sid="name", string="string", key="key", base="base", variant="variant", ctx="context")
        T = self.tags
        style = rng.choice(["lines", "lines", "compact", "mad"])

        def ws(depth):
            if style == "compact":
                return ""
            if style == "mad":
                return rng.choice(["", " ", "\n", "\n\n  ", "\t\n"])
            return "\n" + "  " * depth

        pieces = [rng.choice(['<?xml version="1.0" encoding="utf-8"?>\n', "", "<!-- c -->\n", "\n\n"]), "<" + T["root"] + rng.choice(["", " a='b'", "\n  x=\"y\" "]) + ">"]
        ents, used = [], set()
        sec, key, keys, secs, has_base = None, None, 0, 0, False
        q = rng.choice("\"'")

        def close_string():
            nonlocal key
            if key is not None:
                pieces.append(ws(2) + "</" + T["string"] + ">")
                key = None

        def close_section():
            nonlocal sec
            close_string()
            if sec is not None:
                pieces.append(ws(1) + "</" + T["section"] + ">")
                sec = None

        def need_section(new):
            nonlocal sec, secs
            if sec is None or new:
                close_section()
                secs += 1
                sec = rng.choice(["group", "a:b", "é", "s::t", "k&amp;k", ""]) + str(secs)
                pieces.append(ws(1) + "<" + T["section"] + rng.choice(["", " tag='x'"]) + " " + T["sid"] + "=" + q + sec + q + ">")

        for i, k in enumerate(kinds, 1):
            if k == "raw":
                close_string()
                if rng.random() < .3:
                    close_section()
                pieces.append(ws(2) + rng.choice(["<random my-tag='yo'>Anything</random>", "<x/>", "<foo><%(base)s>no</%(base)s></foo>" % T]))
                if sec is None and rng.random() < .5:
                    pieces.append("<%(string)s %(key)s='zz'><%(base)s>outside</%(base)s></%(string)s>" % T)
                continue
            if k == "cmt":
                if rng.random() < .4:
                    close_string()
                pieces.append(ws(2) + "<!-- <%(base)s>no</%(base)s> -->" % T)
                continue
            need_section(rng.random() < .25)
            if key is None or rng.random() < .5:
                close_string()
                while True:
                    key = rng.choice(["key", "a:b", "a", "é.x", "k&amp;k"]) + str(rng.randint(0, 99))
                    if key not in used:
                        break
                used.add(key)
                has_base = False
                pieces.append(ws(2) + "<" + T["string"] + rng.choice(["", " tag='1'"]) + " " + T["key"] + "=" + q + key + q + rng.choice(["", " x='y' "]) + ">")
            if not has_base and rng.random() < .6:
                has_base = True
                head, foot, kk = "<" + T["base"] + rng.choice(["", " tag='tt'"]) + ">", "</" + T["base"] + ">", key
            else:
                v = rng.choice(["male", "a b", "é"]) + str(i)
                head, foot, kk = "<" + T["variant"] + " " + T["ctx"] + "=" + q + v + q + ">", "</" + T["variant"] + ">", key + "::" + v
            pieces.append(ws(3))
            if k == "blank":
                pieces.append(rng.choice([head + foot, head + "  \n" + foot, head[:-1] + "/>"]))
                continue
            e = Ent(i, k, kk, {5: self.text(rng)}, context=sec)
            if ents and rng.random() < .2:
                e.forms = dict(ents[-1].forms)
            ents.append(e)
            pieces += [head, Slot(e), foot]
        if rng.random() < .1:
            need_section(False)
            close_string()
            pieces.append("<%(string)s %(key)s='lone'/>" % T)
        close_section()
        pieces += [ws(0), "</" + T["root"] + ">", rng.choice(["", "\n"])]
        if nl == "DOS" and not any("\n" in p for p in pieces if isinstance(p, str)):
            pieces.append("\n")
        return Doc(pieces, ents, nl)


class CustomXml2(CustomXml):
    """The same handler with another vocabulary."""
    name = "CUSTOM_XML_TAGS"

    def __init__(self):
        self.cfg = dict(root_name="root", section_name="group", section_id_name="id", string_name="str", string_key_name="k",
                        base_string_name="s", variant_string_name="alt", variant_string_id_name="info")
        self.tags = dict(root="root", section="group", sid="id", string="str", key="k", base="s", variant="alt", ctx="info")


BINDINGS = [Android, AndroidUnescaped, BetaAndroid, StringsDict, CustomXml, CustomXml2]
