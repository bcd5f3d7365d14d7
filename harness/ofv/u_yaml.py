"""C21: YAML scalars in every style and place, and documents generated from
strings alone."""
import json, multiprocessing, re
import yaml
from . import tlc, engine, b_yaml
from .b_yaml import Reader, Tagged, load

SYM = {"ACC": "é", "NL": "\n", "TAB": "\t", "CR": "\r", "NEL": "\x85", "LS": "\u2028", "BOM": "\ufeff", "BEL": "\x07", "AST": "\U0001f642", "NBSP": "\xa0", "FF": "\x0c"}
STYLES = {"plain": (None, ""), "single": ("'", "'"), "double": ('"', '"'), "literal": ("|", "|"), "folded": (">", ">")}
ALPHA = {"a", " ", "NL", "-", "?", ":", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`", "\\", "yes", "null", "~", "1",
         "1.5", "0x1", "2001-01-01", "<<", "=", "1:30", "TAB", "CR", "NEL", "LS", "BOM", "BEL", "AST", "NBSP", "...", "---", "<b>", "ACC"}
SMALL = {"a", " ", "NL", "-", ":", "#", "'", "\"", "1", "NEL", "b"}


def place(name, style, n):
    """source text with n strings in the style; None if it cannot hold it"""
    block = style in ("literal", "folded")
    def v(i, ind):
        t = "text here"
        if block:
            return {"literal": "|", "folded": ">"}[style] + ("-" if i % 2 else "") + "\n" + " " * ind + t + "\n"
        return {"plain": "%s", "single": "'%s'", "double": '"%s"'}[style] % t + "\n"
    f = lambda i: v(i, 0).rstrip("\n")
    r = range(n)
    if name == "map":
        return "".join("k%d: %s" % (i, v(i, 2)) for i in r)
    if name == "map4":
        return "r:\n" + "".join("    k%d: %s" % (i, v(i, 8)) for i in r)
    if name == "deep":
        return "r:\n  s:\n    t:\n" + "".join("      k%d: %s" % (i, v(i, 8)) for i in r)
    if name == "list":
        return "r:\n" + "".join("- %s" % v(i, 2) for i in r)
    if name == "listin":
        return "r:\n" + "".join("  - %s" % v(i, 4) for i in r)
    if name == "rootlist":
        return "".join("- %s" % v(i, 2) for i in r)
    if name == "listmap":
        return "r:\n" + "".join("  - a: %s    b: %s" % (v(i, 6), v(i, 6)) for i in range(n // 2))
    if name == "listlist":
        return "r:\n" + "".join("  - - %s    - %s" % (v(i, 6), v(i, 6)) for i in range(n // 2))
    if name == "comments":
        if block:
            return "".join("# c\nk%d: %s" % (i, v(i, 2)) for i in r)
        return "".join("k%d: %s # c\n\n" % (i, f(i)) for i in r)
    if name == "tag":
        return "".join("k%d: !foo %s" % (i, v(i, 2)) for i in r)
    if name == "anchor":
        return "".join("k%d: &an%d %s" % (i, i, v(i, 2)) for i in r)
    if name == "noeol":
        return "".join("k%d: %s" % (i, v(i, 2)) for i in r).rstrip("\n")
    if block:
        return None
    if name == "nextline":
        return "r:\n" + "".join("  k%d:\n    %s" % (i, v(i, 0)) for i in r)
    if name == "flowmap":
        return "r: {" + ", ".join("k%d: %s" % (i, f(i)) for i in r) + "}\n"
    if name == "flowlist":
        return "r: [" + ", ".join(f(i) for i in r) + "]\n"
    if name == "flowtight":
        return "r: {k: [" + ",".join(f(i) for i in r) + "], l: 'x'}\n"


PLACES = ["map", "map4", "deep", "list", "listin", "rootlist", "listmap", "listlist", "comments", "tag", "anchor", "noeol", "nextline", "flowmap", "flowlist", "flowtight"]
TAGGED = {"tag"}


def leaves(text):
    """scalars of a document in order, without keys"""
    out = []
    def walk(n):
        if isinstance(n, yaml.ScalarNode):
            out.append(n)
        elif isinstance(n, yaml.SequenceNode):
            for x in n.value:
                walk(x)
        else:
            for k, x in n.value:
                walk(x)
    walk(yaml.compose(text, Loader=Reader))
    return out


def values(text):
    out = []
    def walk(v):
        if isinstance(v, dict):
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)
        else:
            out.append(v)
    walk(load(text))
    return out


def strings_of(h, src):
    t, s = h.parse(src)
    return t, list(s)


def retext(os, text):
    from openformats.strings import OpenString
    kw = {k: getattr(os, k) for k in OpenString.DEFAULTS}
    return OpenString(os.key, text, **kw)


def check_batch(job):
    pl, style, template, lang, cases = job
    from openformats.formats.yaml import YamlHandler, I18nYamlHandler
    n = 24
    src = place(pl, style, n)
    i18n = lang and pl in ("map", "deep", "map4", "listin")
    if i18n:
        # below the language
        src = "en:\n" + "".join("  " + l if l.strip() else l for l in src.splitlines(True))
    def handler():
        if i18n:
            h = I18nYamlHandler()
            h.set_plural_rules([1, 5])
            h.set_lang_code("el")
        else:
            h = YamlHandler()
        h.should_use_template = template
        return h
    fails, done = [], 0
    T, S = strings_of(handler(), src)
    extra = ["x"] if pl == "flowtight" else []
    per = len(S) - len(extra)
    for at in range(0, len(cases), per):
        batch = cases[at:at + per]
        texts = ["".join(SYM.get(x, x) for x in c["text"]) for c in batch]
        texts += ["filler"] * (per - len(texts)) + extra
        stringset = [retext(s, t) for s, t in zip(S, texts)]
        where = "%s %s%s%s" % (pl, style, "" if template else ", generated without a template", ", internationalised" if i18n else "")
        def bad(what, detail, c=None):
            fails.append((what, "%s: %s" % (where, detail), c))
        def single(i):
            # narrow a broken batch down
            ss = [retext(s, texts[i] if k == i else "filler") for k, s in enumerate(S)]
            try:
                return values(handler().compile(T, ss)) == [Tagged("foo", s.string) if pl in TAGGED else s.string for s in ss]
            except Exception:
                return False
        try:
            out = handler().compile(T, stringset)
        except Exception as e:
            bad("compiling crashed", "%s: %s for %r" % (type(e).__name__, e, texts), batch)
            continue
        want = [Tagged("foo", t) if pl in TAGGED else t for t in texts]
        try:
            got = values(out)
            nodes = leaves(out)
        except yaml.YAMLError as e:
            culprits = [texts[i] for i in range(len(batch)) if not single(i)]
            bad("compiled file is not YAML", "%s; texts %r" % (re.sub(r"\s+", " ", str(e)), culprits or texts), batch[0])
            continue
        done += len(batch)
        if got != want:
            for i, c in enumerate(batch):
                if i >= len(got) or got[i] != want[i]:
                    if i < len(got) or not single(i):
                        bad("text reads back differently", "%r reads back as %r" % (want[i], got[i] if i < len(got) else None), c)
                    if len(got) != len(want):
                        bad("number of strings differs", "%r in %r" % (texts, out[:800]), c)
                        break
            continue
        for c, nd, t in zip(batch, nodes, texts):
            if c["keeps"][style] and (template or pl not in TAGGED):
                if (nd.style or None) != STYLES[style][0] and nd.style != STYLES[style][1]:
                    bad("style is not kept", "%r is written in style %r" % (t, nd.style), c)
        # ...and back through the handler
        try:
            h = handler()
            t2, s2 = strings_of(h, out)
        except Exception as e:
            bad("generated file is rejected", "%s: %s" % (type(e).__name__, e), batch[0])
            continue
        got = [(s.key, s.string, s.context) for s in s2]
        want = [(s.key, s.string, s.context) for s in stringset]
        if template or pl not in TAGGED:
            if got != want:
                d = [(g, w) for g, w in zip(got, want) if g != w][:2] or (len(got), len(want))
                bad("compiled file reads back differently", "%r" % (d,), batch[0])
    return where_key(pl, style, template, i18n), fails, done


def where_key(pl, style, template, i18n):
    return "scalars in %s%s%s" % (pl, "" if template else " (no template)", " (i18n)" if i18n else "")


def scalars(rep, deep):
    runs = [(dict(ALPHABET=ALPHA, MAXLEN=2), None, None if deep else None),
            (dict(ALPHABET=SMALL, MAXLEN=4 if deep else 3), None, None if deep else 1300),
            (dict(ALPHABET={"a", "b", " ", "NL", ":"}, MAXLEN=6 if deep else 5), None, None if deep else 700),
            (dict(ALPHABET=ALPHA, MAXLEN=9), 1500 if deep else 12, 20000 if deep else 1200)]
    cases = []
    for defs, sim, cap in runs:
        r = tlc.run("YamlScalar", dict(defs, EMIT=True), invariants=["InvLiteral", "InvFolded", "InvSingle", "InvChomp", "Emit"],
                    simulate=sim, depth=12, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cs = [c for c in r.cases if c["text"]]
        if cap and len(cs) > cap:
            cs = engine.rng_for(rep.seed, "yaml", sorted(defs["ALPHABET"])).sample(cs, cap)
        cases += cs
    rep.distinct += len(cases)
    for c in cases[::max(1, len(cases) // 3)]:
        rep.sample(c)
    jobs = []
    k = 0
    for pl in PLACES:
        for style in STYLES:
            if place(pl, style, 2) is None:
                continue
            for template, lang in ((True, False), (False, False), (True, True), (False, True)):
                if lang and pl not in ("map", "deep", "map4", "listin"):
                    continue
                if not template and pl in ("comments", "anchor", "noeol", "nextline", "flowtight"):
                    continue
                k += 1
                part = cases if deep else cases[k % 3::3] if template else cases[k % 6::6]
                jobs.append((pl, style, template, lang, part))
    with multiprocessing.Pool(8) as pool:
        for key, fails, done in pool.imap_unordered(check_batch, jobs):
            rep.count(key, done, done)
            for what, detail, c in fails[:20]:
                rep.fail(what, detail, case=c)


# -- documents from strings alone

def tree_case(job):
    seed, i18n, cases = job
    from openformats.formats.yaml import YamlHandler, I18nYamlHandler
    fails, done = [], 0
    for c in cases:
        rng = engine.rng_for(seed, c)
        src = [None] + c["src"]
        kids = {n: [m for m in range(1, len(src)) if src[m]["par"] == n] for n in range(len(src))}
        kind = lambda n: c["root"] if n == 0 else src[n]["kind"]
        y = b_yaml.Yaml()
        keys = {}
        for n in kids:
            if kind(n) == "ob":
                used = set()
                for m in kids[n]:
                    while True:
                        k = y.keygen(rng, used)
                        if not (isinstance(k, str) and (isinstance(k, b_yaml.Typed) or re.match(r"[<\[]-?\d+[>\]]$", k) or k in ("one", "other"))):
                            break
                    keys[m] = k
        for n in kids:
            # a map that looks like a plural but holds more than texts
            deep = [m for m in kids[n] if kind(m) in ("ob", "ol") and kids[m]]
            if i18n and n and kind(n) == "ob" and deep and len(kids[n]) <= 6 and rng.random() < .9:
                rest = [m for m in kids[n] if m != deep[0]]
                rng.shuffle(rest)
                names = rng.choice([["one", "other"], ["other", "one"]]) + ["few", "many", "two", "zero"]
                for m, k in zip([deep[0]] + rest, names):
                    keys[m] = k
        vals, tags = {}, {}
        for n in range(1, len(src)):
            if kind(n) == "sg":
                vals[n] = b_yaml.ANY(rng)
            elif kind(n) == "pl":
                vals[n] = {"one": b_yaml.ANY(rng), "other": b_yaml.ANY(rng)}
        styles = {n: rng.choice(["'", '"', "", "|", ">"]) for n in vals}

        def path(n):
            out = []
            while n:
                p = src[n]["par"]
                out.append(y.spell(keys[n]) if kind(p) == "ob" else "[%d]" % src[n]["idx"])
                n = p
            return ".".join(reversed(out))

        def write(n, col, flow):
            """ [value text] of a node, placed after `key:` or `-` """
            k = kind(n)
            if k in ("ob", "ol"):
                if flow or (n and src[n]["flow"]) or not kids[n]:
                    items = []
                    for m in kids[n]:
                        items.append((y.render_key(keys[m], rng, True) + ": " if k == "ob" else "") + write(m, col, True).strip())
                    return " " + ("{%s}" if k == "ob" else "[%s]") % ", ".join(items) + ("" if flow else "\n")
                out = "\n"
                for m in kids[n]:
                    out += " " * col + (y.render_key(keys[m], rng, False) + ":" if k == "ob" else "-")
                    out += write(m, col + 2, False)
                return out
            if k in ("sg", "pl"):
                if k == "pl":
                    if flow:
                        return " {one: x, other: y}"
                    return "\n" + " " * col + "one: x\n" + " " * col + "other: y\n"
                st = styles[n] if not (flow and styles[n] in "|>") else "'"
                styles[n] = st
                if st and st in "|>":
                    return " " + st + "\n" + " " * col + "source\n"
                return " " + st + "source" + st + ("" if flow else "\n")
            if k == "skip":
                v = rng.choice(["12", "1.5", "true", "null", "!!binary aGVsbG8="])
            else:
                v = rng.choice(["''", '""', "[]", "{}"])
            return " " + v + ("" if flow else "\n")

        text = write(0, 2 if i18n else 0, False)
        text = ("en:" + text) if i18n else text.lstrip()
        def handler():
            if i18n:
                h = I18nYamlHandler()
                h.set_plural_rules([1, 5])
                h.set_lang_code("el")
            else:
                h = YamlHandler()
            h.should_use_template = False
            return h

        def bad(what, detail):
            fails.append((what, detail[:1500] + " from %r" % text[:600], c))
        try:
            load(text)
        except yaml.YAMLError as e:
            raise AssertionError("author: %r %s" % (text, e))
        try:
            t, S = handler().parse(text)
            S = list(S)
        except Exception as e:
            bad("valid file is rejected", "%s: %s" % (type(e).__name__, e))
            continue
        leaf = [n for n in range(1, len(src)) if kind(n) in ("sg", "pl")]
        if [s.key for s in S] != [path(n) for n in leaf]:
            bad("keys differ", "expected %r, got %r" % ([path(n) for n in leaf], [s.key for s in S]))
            continue
        by = dict(zip(leaf, S))
        # strings in the order in which the specification inserts them
        order = [n for n in c["order"] if n in vals]
        stringset = []
        from openformats.strings import OpenString
        for n in order:
            kw = {k: getattr(by[n], k) for k in OpenString.DEFAULTS}
            if kind(n) == "pl":
                stringset.append(OpenString(by[n].key, {1: vals[n]["one"], 5: vals[n]["other"]}, pluralized=True, **kw))
            else:
                stringset.append(OpenString(by[n].key, vals[n], **kw))
        h = handler()
        try:
            out = h.compile(t, stringset)
        except Exception as e:
            bad("generating crashed", "%s: %s for %r" % (type(e).__name__, e, [s.key for s in stringset]))
            continue

        made = {}
        def build(i):
            """ what the i-th generated node must be """
            n = 0 if i == 0 else c["gen"][i - 1]["src"]
            if kind(n) in ("sg", "pl"):
                return vals[n]
            ch = [j for j in range(1, len(c["gen"]) + 1) if c["gen"][j - 1]["par"] == i]
            if kind(n) == "ob":
                return {keys[c["gen"][j - 1]["src"]]: build(j) for j in ch}
            return [build(j) for j in ch]
        want = build(0)
        if i18n:
            want = {"el": want}
        try:
            got = load(out)
        except yaml.YAMLError as e:
            bad("generated file is not YAML", "%s: %r" % (re.sub(r"\s+", " ", str(e)), out))
            continue
        done += 1
        if got != want or json.dumps(got) != json.dumps(want):
            bad("generated file differs", "expected %r, got %r" % (want, got))
            continue
        # containers keep their style
        flows = []
        def shape(node, top):
            if isinstance(node, yaml.ScalarNode):
                return
            if not top:
                flows.append(bool(node.flow_style))
            for x in node.value:
                shape(x[1] if isinstance(x, tuple) else x, False)
        root = yaml.compose(out, Loader=Reader)
        if i18n:
            root = root.value[0][1]
        shape(root, True)
        def wanted(i, up):
            n = 0 if i == 0 else c["gen"][i - 1]["src"]
            if kind(n) == "sg":
                return []
            if kind(n) == "pl":
                return [up]
            f = up or bool(n and src[n]["flow"])
            return ([] if i == 0 else [f]) + [x for j in range(1, len(c["gen"]) + 1) if c["gen"][j - 1]["par"] == i for x in wanted(j, f)]
        if not i18n and flows != wanted(0, False):
            bad("style of maps and lists differs", "expected %r, got %r in %r" % (wanted(0, False), flows, out))
    return i18n, fails, done


def trees(rep, deep):
    runs = [(dict(MAXLEN=5 if deep else 4, PLURALS=False, ORDER=True), None, 60000 if deep else 2500),
            (dict(MAXLEN=4 if deep else 3, PLURALS=True, ORDER=True), None, None if deep else 1200),
            (dict(MAXLEN=4 if deep else 3, PLURALS=False, ORDER=False), None, None if deep else 800),
            (dict(MAXLEN=9, PLURALS=False, ORDER=True), 5000 if deep else 800, 20000 if deep else 1500),
            (dict(MAXLEN=8, PLURALS=True, ORDER=True), 5000 if deep else 800, 20000 if deep else 800),
            (dict(MAXLEN=6, PLURALS=False, ORDER=False), 4000 if deep else 600, 20000 if deep else 800)]
    jobs = []
    for defs, sim, cap in runs:
        r = tlc.run("YamlGen", dict(defs, EMIT=True), invariants=["InvPaths", "InvPruned", "InvFilled", "InvRoot", "Emit"],
                    simulate=sim, depth=40, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cs = r.cases
        if cap and len(cs) > cap:
            cs = engine.rng_for(rep.seed, "yamlgen", defs["MAXLEN"], defs["ORDER"]).sample(cs, cap)
        rep.distinct += len(cs)
        for c in cs[:1]:
            rep.sample(c)
        for k in range(4):
            jobs.append((rep.seed, defs["PLURALS"], cs[k::4]))
    with multiprocessing.Pool(8) as pool:
        for i18n, fails, done in pool.imap_unordered(tree_case, jobs):
            rep.count("documents from strings%s" % (" (i18n)" if i18n else ""), done, done)
            for what, detail, c in fails[:20]:
                rep.fail(what, detail, case=c)


def run(rep, deep):
    scalars(rep, deep)
    trees(rep, deep)
