"""C20: the language of a translated file."""
import json, multiprocessing, re
import yaml
from . import tlc, engine
from .b_yaml import load

CODES = {"plain": ["el", "fr"], "region": ["pt_BR", "zh_TW"], "script": ["sr@latin", "zh-Hans", "es-419"]}
SRC = ["en", "en_US", "de-AT", "zh-Hans", "es_419", "", "x", "en@t"]


def lang_kw(c, rng):
    code = rng.choice(CODES.get(c["lang"], ["-"]))
    if c["lang"] == "missing":
        return {}, None
    if c["lang"] == "none":
        return {"language_info": None}, None
    return {"language_info": {"name": "Some", "code": code}}, code


def arb(c, rng):
    from openformats.formats.json import ArbHandler
    code = lang_kw(c, rng)
    loc = rng.choice(SRC)
    out = []     # pieces: str or None (the declaration)
    nl = rng.choice(["\n  ", " ", "", "\n\t"])
    colon = rng.choice([": ", ":", " : ", ":\n  "])
    pieces = ["{" + nl]
    strings = []
    for n, p in enumerate(c["body"]):
        if n:
            pieces.append("," + nl)
        if p == "decl":
            pieces += ['"@@locale"' + colon + '"', None, '"']
        elif p == "number":
            pieces.append('"@@locale"' + colon + rng.choice(["5", "null", "{}", "[]"]))
        elif p == "nested":
            pieces.append('"@n%d"%s{"@@locale"%s"en", "x": {"@@locale":"fr"}}' % (n, colon, colon))
        elif p == "like":
            pieces.append('"%s"%s"xx"' % (rng.choice(["locale%d", "%d@@locale", "Locale%d", "@locale%d", "@@last_locale%d"]) % n, colon))
        elif p == "quoted":
            pieces.append('"q%d"%s"say \\"@@locale\\": \\"en\\" now"' % (n, colon))
        elif p == "str":
            pieces.append('"s%d"%s"text %d"' % (n, colon, n))
        elif p == "blank":
            pieces.append('"b%d"%s""' % (n, colon))
        else:
            pieces.append('"p%d"%s"{ n, plural, one {a} other {b} }"' % (n, colon))
    pieces.append(nl.replace("  ", "") + "}" + rng.choice(["", "\n"]))
    text = lambda x: "".join(x if p is None else p for p in pieces)
    return ArbHandler, text, loc


def android(c, rng, handler):
    loc = rng.choice([s for s in SRC if s])
    pieces = ['<?xml version="1.0" encoding="utf-8"?>\n' if rng.random() < .7 else ""]
    for p in c["head"]:
        if p == "cmt":
            pieces.append(rng.choice(['<!-- tools:locale="en" -->\n', '<!-- <resources tools:locale="en"> -->\n']))
    pieces.append("<resources")
    for p in c["head"]:
        gap = rng.choice([" ", "\n  ", "  "])
        q = rng.choice(['"', "'"])
        eq = rng.choice(["=", " = ", "= "])
        if p == "decl":
            pieces += [gap + "tools:locale" + eq + q, None, q]
        elif p == "like":
            pieces.append(gap + rng.choice(["tools:localeX", "locale", "x-tools:locale"]) + eq + q + "en" + q)
        elif p == "xmlns":
            pieces.append(gap + 'xmlns:tools="http://schemas.android.com/tools"')
        elif p == "quoted":
            pieces.append(gap + "q%d=" % len(pieces) + "'tools:locale=\"en\"'")
    pieces.append(rng.choice([">", " >", "\n>"]))
    for n, p in enumerate(c["body"]):
        pieces.append("\n  ")
        if p == "cmt":
            pieces.append('<!-- tools:locale="en" -->')
        elif p == "nested":
            pieces.append('<string name="n%d" tools:locale="en">text</string>' % n)
        elif p == "quoted":
            pieces.append("<string name=\"q%d\">tools:locale=\\\"en\\\"</string>" % n)
        elif p == "str":
            pieces.append('<string name="s%d">text</string>' % n)
        elif p == "blank":
            pieces.append('<string name="b%d"></string>' % n)
        else:
            pieces.append('<plurals name="p%d"><item quantity="one">a</item><item quantity="other">b</item></plurals>' % n)
    pieces.append("\n</resources>\n")
    text = lambda x: "".join(x if p is None else p for p in pieces)
    return handler, text, loc


def i18n(c, rng):
    from openformats.formats.yaml import I18nYamlHandler
    loc = rng.choice(["en", "en_US", "de-AT", "no_NO", "xx"])
    pieces = ["", None, ":\n"]
    for n, p in enumerate(c["body"]):
        if p == "cmt":
            pieces.append("  # en: x\n")
        elif p == "nested":
            pieces.append("  n%d:\n    %s: text\n" % (n, loc))
        elif p == "like":
            pieces.append("  %s%s: text\n" % (loc, n if n else ""))
        elif p == "quoted":
            pieces.append("  q%d: '%s: %s'\n" % (n, loc, loc))
        elif p == "str":
            pieces.append("  s%d: text\n" % n)
        elif p == "blank":
            pieces.append("  b%d: ''\n" % n)
        else:
            pieces.append("  p%d:\n    one: a\n    other: b\n" % n)
    text = lambda x: "".join(x if p is None else p for p in pieces)
    def make():
        h = I18nYamlHandler()
        h.set_plural_rules([1, 5])
        return h
    return make, text, loc


def work(job):
    from openformats.formats.android import AndroidHandler
    from openformats.formats.android_unescaped import AndroidUnescapedHandler
    seed, cases = job
    fails, done = [], 0
    for c in cases:
        rng = engine.rng_for(seed, c)
        if c["fmt"] == "ARB":
            make, text, loc = arb(c, rng)
        elif c["fmt"] == "ANDROID":
            make, text, loc = android(c, rng, rng.choice([AndroidHandler, AndroidUnescapedHandler]))
        else:
            make, text, loc = i18n(c, rng)
        src = text(loc)
        kw, code = lang_kw(c, rng)
        generated = c["mode"] == "generated"
        try:
            t, s = make().parse(src)
            s = list(s)
            h = make()
            if c["fmt"] == "YAML":
                if code:
                    h.set_lang_code(code)
                h.should_use_template = not generated
                kw = {}
            out = h.compile(t, s, **kw)
        except Exception as e:
            fails.append(("crashed", "%s: %s for %r" % (type(e).__name__, e, src), c))
            continue
        done += 1
        replaced = "language" in c["out"]
        if generated:
            # a generated file holds the strings only
            full = load(src)[loc]
            want = {k: v for k, v in (full or {}).items() if v != ""}
            want = {code: want} if code else want
            got = load(out)
            if got != want:
                fails.append(("the language is not where the format declares it", "expected %r, got %r" % (want, got), c))
            continue
        want = text(code) if replaced else src
        if out != want:
            fails.append(("the language is not where the format declares it", "expected %r, got %r" % (want, out), c))
            continue
        # nothing else depends on it: the file reads back the same
        try:
            t2, s2 = make().parse(out)
            if [(x.key, x.string) for x in s2] != [(x.key, x.string) for x in s]:
                fails.append(("strings differ after the language was written", "%r" % out, c))
        except Exception as e:
            fails.append(("file with the language is rejected", "%s: %s for %r" % (type(e).__name__, e, out), c))
    return cases[0]["fmt"] if cases else "-", fails, done


def run(rep, deep):
    jobs = []
    for fmt in ("ARB", "ANDROID", "YAML"):
        for defs, sim, cap in ((dict(FMT=fmt, MAXLEN=4 if deep else {"ARB": 3, "ANDROID": 2, "YAML": 3}[fmt]), None, None if deep else 6000),
                               (dict(FMT=fmt, MAXLEN=9), 6000 if deep else 400, 40000 if deep else 3000)):
            r = tlc.run("Locale", dict(defs, EMIT=True), invariants=["InvOnlyThere", "InvThere", "InvQuiet", "InvOnce", "Emit"],
                        simulate=sim, depth=20, seed=rep.seed, workers=4 if not sim else 1)
            rep.tlc(r)
            cs = r.cases
            if cap and len(cs) > cap:
                cs = engine.rng_for(rep.seed, "loc", fmt).sample(cs, cap)
            rep.distinct += len(cs)
            rep.sample(cs[0])
            jobs += [(rep.seed, cs[k::4]) for k in range(4)]
    with multiprocessing.Pool(8) as pool:
        for fmt, fails, done in pool.imap_unordered(work, jobs):
            rep.count("locale in " + fmt, done, done)
            for what, detail, c in fails[:20]:
                rep.fail(what, detail, case=c)
