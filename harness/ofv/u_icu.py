"""C16: ICU plural messages."""
import json, random
from . import tlc, engine, core

RULENO = core.RULENO
HEADS = {"plural": ["{%s,%splural%s,"],
         "select": ["{%s,%sselect%s,", "{%s,%sselectordinal%s,", "{%s,%sPLURAL%s,", "{%s,%splurals%s,"],
         "noargs": ["{%s%splural%s "],
         "text": ["You have {%s,%splural%s,", "x{%s,%splural%s,", "%s,%splural%s,"]}
ARGS = ["n", "count", "item_count", "plural", "one", "a-b", "N2", "other"]
TEXTS = ["%d files", "it's", "a, b", "#", "\\\"q\\\"", "é日本", "<b>x</b>", "x: y", "\\\\", "files\\n", "plural,", "100 %", "-", "don't 'quote'", "=", "one's"]
OUTER = ["files", "foo", "someone", "One", "another", "=3", "=10", "two2", "x"]


def message(c, rng):
    ws = lambda: rng.choice(["", "", " ", "  "])
    head = rng.choice(HEADS[c["head"]]) % (rng.choice(ARGS), ws(), ws())
    if c["head"] == "plural" and rng.random() < .3:
        head = " " * rng.randint(0, 2) + "{" + ws() + head[1:]
    out, pos, depth = head, [], 0
    prev = "," 
    for i, t in enumerate(c["toks"]):
        word = t not in "{}"
        if word and t == "txt":
            if depth:
                s = rng.choice(TEXTS)
            else:
                s = rng.choice(OUTER)
        else:
            s = t
        sep = ws()
        if word and prev not in "{},":
            sep = sep or " "
        if depth == 0 and word and c["verdict"]["v"] == "plural" and rng.random() < .15:
            # written on several lines
            sep = "\\n" + sep if prev in "}," else sep
        out += sep
        pos.append(len(out))
        out += s
        if t == "{":
            depth += 1
        elif t == "}":
            depth = max(0, depth - 1)
        prev = t
    end = len(out)
    tail = rng.choice(["", "", "", " ", "\\n"]) if c["toks"] and c["toks"][-1] == "}" else ""
    return out + tail, pos, end


def forms(c, msg, pos):
    r = {}
    for f in c["verdict"]["forms"]:
        # text between the braces, spaces included
        a = pos[f["from"] - 2] + 1            # after the opening brace
        b = pos[f["to"]]                      # at the closing brace
        r[RULENO[f["rule"]]] = msg[a:b]
    return r


CARRIERS = [
    ("KEYVALUEJSON", "JsonHandler", '{"k0": "a", "k": "%s", "z": "b"}', "k", False),
    ("STRUCTURED_JSON", "StructuredJsonHandler", '{"k0": {"string": "a"}, "k": {"string": "%s"}, "z": {"string": "b"}}', "k", False),
    ("CHROME", "ChromeI18nHandler", '{"k0": {"message": "a"}, "k": {"message": "%s"}, "z": {"message": "b"}}', "k.message", False),
    ("ARB", "ArbHandler", '{"k0": "a", "k": "%s", "z": "b"}', "k", True),
]


def run(rep, deep):
    from openformats.utils.icu import ICUParser
    from openformats.exceptions import ParseError
    import openformats.formats.json as J
    base = dict(HEADS={"plural"}, RULES={"one", "other"}, NUMS={"=1"}, OTHERS={"txt"}, MAXLEN=9 if not deep else 10, MAXDEPTH=2, NUMERIC=True, EMIT=True)
    jobs = []
    for numeric in (True, False):
        # every short sequence, and long ones at random
        jobs.append((dict(base, NUMERIC=numeric, MAXLEN=6 if not deep else 7, HEADS=set(HEADS) if numeric else {"plural"}), None, 3000 if not deep else 60000))
        jobs.append((dict(base, NUMERIC=numeric, MAXLEN=16, RULES={"zero", "one", "two", "few", "many", "other"}, NUMS={"=0", "=1", "=2"}, MAXDEPTH=3), 4000 if not deep else 60000, 1500 if not deep else 30000))
    for defs, sim, cap in jobs:
        r = tlc.run("Icu", defs, invariants=["InvForms", "InvRulesOnce", "Emit"], simulate=sim, depth=40, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        by = {}
        for c in r.cases:
            by.setdefault(c["verdict"]["v"], []).append(c)
        cases = []
        for v, cs in sorted(by.items()):
            rng = engine.rng_for(rep.seed, "icu", v)
            cases += cs if len(cs) <= cap else rng.sample(cs, cap)
        rep.distinct += len(cases)
        for n, c in enumerate(cases):
            one(rep, c, defs["NUMERIC"], ICUParser, ParseError, J, n)
            if n % 1500 == 3:
                rep.sample(c)
    plurals(rep, deep, ICUParser, ParseError, J)


def one(rep, c, numeric, ICUParser, ParseError, J, n):
    rng = engine.rng_for(rep.seed, "icu", c)
    msg, pos, end = message(c, rng)
    try:
        r = ICUParser(allow_numeric_plural_values=numeric).parse("k", msg)
        got = "plain" if r is None else "plural"
    except ParseError:
        r, got = None, "error"
    except Exception as e:
        r, got = None, "%s: %s" % (type(e).__name__, e)
    want = c["verdict"]["v"]
    rep.count("messages", 1, 1)
    if got != want:
        rep.fail("message read as something else", "%r: expected %s got %s" % (msg, want, got), case=c)
        return
    if want == "plural":
        f = forms(c, msg, pos)
        if r.strings_by_rule != f:
            rep.fail("plural forms differ", "%r: expected %s got %s" % (msg, f, r.strings_by_rule), case=c)
            return
        first, last = pos[0], pos[c["verdict"]["forms"][-1]["to"]] + 1
        if (r.current_position, r.string_to_replace) != (first, msg[first:last]):
            rep.fail("place of the forms differs", "%r: expected %s %r got %s %r" % (msg, first, msg[first:last], r.current_position, r.string_to_replace), case=c)
    if n % 3 and want != "plural":
        return
    for name, cls, carrier, key, num in CARRIERS:
        if num != numeric:
            continue
        src = carrier % msg
        h = getattr(J, cls)()
        try:
            t, ss = h.parse(src)
            got = "ok"
        except ParseError:
            got = "error"
        except Exception as e:
            got = "%s: %s" % (type(e).__name__, e)
        rep.count(name, 1, 1)
        if got != ("error" if want == "error" else "ok"):
            rep.fail("%s: file with the message is %s" % (name, got), "%r: expected %s" % (src, want), case=c)
            continue
        if want == "error":
            continue
        ss = list(ss)
        if [s.key for s in ss] != ["k0" + key[1:], key, "z" + key[1:]]:
            if want == "plural" and not any(x.strip() for x in f.values()):
                continue                   # forms are all blank
            rep.fail("%s: strings differ" % name, "%r: %s" % (src, [s.key for s in ss]), case=c)
            continue
        s = ss[1]
        if want == "plain":
            if s.pluralized or s.string != msg:
                rep.fail("%s: message not kept whole" % name, "%r: %s %r" % (src, s.pluralized, s.strings), case=c)
            continue
        if not s.pluralized or dict(s.strings) != f:
            rep.fail("%s: forms differ" % name, "%r: expected %s got %s" % (src, f, s.strings), case=c)
            continue
        et = carrier.replace('"a"', '"%s"' % ss[0].template_replacement).replace('"b"', '"%s"' % ss[2].template_replacement) % (msg[:first] + s.template_replacement + msg[last:])
        if t != et:
            rep.fail("%s: template differs" % name, core.diff(et, t), case=c)
            continue
        try:
            out = h.compile(t, ss)
            back = list(h.parse(out)[1])
        except Exception as e:
            rep.fail("%s: compile or second parse fails" % name, "%s: %s; %r" % (type(e).__name__, e, src), case=c)
            continue
        eo = carrier % (msg[:first] + " ".join("%s {%s}" % (core.RULES[n], x) for n, x in f.items()) + msg[last:])
        if out != eo:
            rep.fail("%s: compiled message differs" % name, core.diff(eo, out), case=c)
        if len(back) != 3 or dict(back[1].strings) != f:
            rep.fail("%s: forms differ after compiling" % name, "%r" % out, case=c)


def plurals(rep, deep, ICUParser, ParseError, J):
    """Serialising any forms and reading them again."""
    from openformats.utils.icu import ICUCompiler
    rng = engine.rng_for(rep.seed, "serial")
    for n in range(600 if not deep else 8000):
        rules = sorted(rng.sample(range(6), rng.randint(1, 6)))
        f = {}
        for r in rules:
            t = "".join(rng.choice(TEXTS + ["a", " ", "{n}", "{x {y} z}", "{}"]) for _ in range(rng.randint(0, 4)))
            f[r] = t
        delim = rng.choice([" ", " ", "  ", "\\n"])
        s = ICUCompiler().serialize_strings(f, delimiter=delim)
        msg = "{%s, plural, %s}" % (rng.choice(ARGS), s)
        rep.count("serialised forms", 1, 1)
        try:
            got = ICUParser().parse("k", msg)
            got = got and got.strings_by_rule
        except Exception as e:
            got = "%s: %s" % (type(e).__name__, e)
        if got != f:
            rep.fail("serialised forms read back differently", "%s -> %r -> %s" % (f, msg, got), case=f)
