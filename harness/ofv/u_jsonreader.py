"""C22: the positional JSON reader."""
import json, re
from . import tlc, engine, core

CHARS = ["a", "b", " ", "é", "日", "😀", "{", "}", "[", "]", ":", ",", "/", "'", "true", "null", "1", "\\n", "\\t", '\\"', "\\\\", "\\/", "\\u0041", "\\u00e9", "\\ud83d\\ude00", "\\b", "\x7f", "\u2028", "\u00a0"]
STRS = ["", "a", " ", "\\\\", '\\"', '\\\\\\"', '\\"}', '\\\\\\\\', "{}", "[", "],", '{\\"a\\": 1}', ": ", "\\u0022", "\\u005c", "null", "0", "b\\\\", "\\\\n"]
ATOMS = ["0", "1", "-1", "12.5", "-0.25", "1e5", "1E+10", "-2.5e-3", "true", "false", "null", "123456789012345678901234567890", "0.0", "-0", "1.0E2"]
NAMES = ["a", "b", "string", "message", "é", "", "a\\\"b", "a\\\\", "x y"]
WS = ["", "", " ", "  ", "\n", "\t", "\r\n", " \n  "]


def render(c, rng):
    toks, out, pos, txt, gaps = c["toks"], "", [0], [""], []
    keys = {i["k"] for i in c["items"]}
    out += rng.choice(WS)
    for n, t in enumerate(toks, 1):
        gaps.append((len(out.rstrip(" \n\r\t")), len(out)))
        if t == "S":
            if n in keys and rng.random() < .6:
                s = rng.choice(NAMES)
            elif rng.random() < .5:
                s = rng.choice(STRS)
            else:
                s = "".join(rng.choice(CHARS) for _ in range(rng.randint(0, 6)))
            pos.append(len(out) + 1)
            out += '"%s"' % s
        elif t == "A":
            s = rng.choice(ATOMS)
            pos.append(len(out))
            out += s
        else:
            s = t
            pos.append(len(out))
            out += t
        txt.append(s)
        out += rng.choice(WS)
    return out, pos, txt, gaps


def run(rep, deep):
    from openformats.utils.json import DumbJson
    jobs = [(dict(MAXLEN=12 if not deep else 14, EMIT=True), None, 8000 if not deep else None, 2 if not deep else 3),
            (dict(MAXLEN=34, EMIT=True), 15000 if not deep else 60000, 6000 if not deep else 40000, 1)]
    for defs, sim, cap, reps in jobs:
        r = tlc.run("JsonReader", defs, invariants=["InvKeys", "InvOrder", "InvInside", "InvBalanced", "InvWants", "Emit"], simulate=sim, depth=60, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cases = r.cases
        if cap and len(cases) > cap:
            cases = engine.rng_for(rep.seed, "json").sample(cases, cap)
        rep.distinct += len(cases)
        for n, c in enumerate(cases):
            if n % 3000 == 1:
                rep.sample(c)
            for k in range(reps):
                one(rep, c, DumbJson, k)


def one(rep, c, DumbJson, k):
    rng = engine.rng_for(rep.seed, "json", c, k)
    src, pos, txt, gaps = render(c, rng)
    ref = json.loads(src)                # the document is valid by construction
    rep.count("documents", 1, len(c["items"]) + len(c["closed"]))
    by = {}
    for i in c["items"]:
        by.setdefault(i["c"], []).append(i)
    end = {x["c"]: pos[x["e"]] for x in c["closed"]}

    def fail(what, detail):
        rep.fail(what, "%s; %r" % (detail, src), case=c)

    def walk(dj, n):
        isobj = c["toks"][n - 1] == "{"
        if dj.type is not (dict if isobj else list) or dj.start != pos[n]:
            return fail("container differs", "token %d: %s at %s" % (n, dj.type, dj.start))
        if rng.random() < .3 and dj.end != end[n]:
            return fail("end of a container differs", "token %d: expected %d got %s" % (n, end[n], dj.end))
        want = by.get(n, [])
        got = list(dj)
        if len(got) != len(want):
            return fail("number of items differs", "token %d: expected %d got %d" % (n, len(want), len(got)))
        inner = []
        for w, g in zip(want, got):
            if isobj:
                key, kp, val, vp = g
                if (key, kp) != (txt[w["k"]], pos[w["k"]]):
                    return fail("key differs", "expected %r got %r" % ((txt[w["k"]], pos[w["k"]]), (key, kp)))
                if src[kp:kp + len(key)] != key:
                    return fail("key is not at its place", repr(g))
            else:
                val, vp = g
            if vp != pos[w["v"]]:
                return fail("position of a value differs", "expected %d got %s" % (pos[w["v"]], vp))
            t = c["toks"][w["v"] - 1]
            if t == "S":
                if val != txt[w["v"]] or not isinstance(val, str):
                    return fail("string differs", "expected %r got %r" % (txt[w["v"]], val))
            elif t == "A":
                e = json.loads(txt[w["v"]])
                if val != e or type(val) is not type(e):
                    return fail("value differs", "expected %r got %r" % (e, val))
            else:
                if not isinstance(val, DumbJson):
                    return fail("container not reported as one", repr(val))
                inner.append((val, w["v"]))
        if dj.end != end[n]:
            return fail("end of a container differs", "token %d: expected %d got %s" % (n, end[n], dj.end))
        if isobj:
            # children by name: the last one of that name, as in json
            names = [txt[w["k"]] for w in want] + NAMES
            ask = [rng.choice(names) for _ in range(rng.randint(1, 4))]
            found = dj.find_children(*ask)
            for a, (v, vp) in zip(ask, found):
                hit = [w for w in want if txt[w["k"]] == a]
                if not hit:
                    if (v, vp) != (None, None):
                        return fail("child found that is not there", "%r: %r" % (a, (v, vp)))
                elif vp != pos[hit[-1]["v"]]:
                    return fail("wrong child found", "%r: %r" % (a, (v, vp)))
        if rng.random() < .3 and len(list(dj)) != len(want):
            return fail("second iteration differs", "token %d" % n)
        rng.shuffle(inner)
        for v, m in inner:
            walk(v, m)
            # the same container found from its position alone
            other = DumbJson(src, pos[m])
            if (other.type, other.start, other.end) != (v.type, v.start, end[m]):
                fail("embedded container differs when read from its position", repr((other.start, other.end)))

    try:
        walk(DumbJson(src), 1)
    except Exception as e:
        fail("reading crashed", "%s: %s" % (type(e).__name__, e))
    refusal(rep, c, DumbJson, src, gaps, rng)


LINE = re.compile(r"\bline (\d+)")


def refusal(rep, c, DumbJson, src, gaps, rng):
    """ something that is no token, in front of a token """
    n = rng.randrange(len(gaps))
    at = rng.randint(*gaps[n])
    bad = src[:at] + rng.choice("x@;'=é?") + src[at:]
    rep.count("damaged documents")
    try:
        DumbJson(bad).end
    except ValueError as e:
        m = LINE.search(str(e))
        if c["located"][n] and not m:
            rep.fail("the refusal of a text does not say where", "%s; %r" % (e, bad), case=c)
        elif m and int(m.group(1)) != bad.count("\n", 0, at) + 1:
            rep.fail("a text is refused on another line", "expected %d: %s; %r" % (bad.count("\n", 0, at) + 1, e, bad), case=c)
    except Exception as e:
        rep.fail("a text that is no JSON crashed the reader", "%s: %s; %r" % (type(e).__name__, e, bad), case=c)
    else:
        rep.fail("a text that is no JSON was read", repr(bad), case=c)
