"""C24: subtitle numbering and timing rules."""
import re
from . import tlc, engine
from .b_text import SUB


def timing(kind, t, vtt, rng):
    """ (written, normalised or None) """
    dot = "." if vtt else ","
    h, m, s, ms = t // 3600000, t // 60000 % 60, t // 1000 % 60, t % 1000
    hms = "%02d:%02d:%02d" % (h, m, s)
    if kind in ("short", "shortnone"):
        hms = "%02d:%02d" % (m, s)
    if kind in ("full", "short"):
        return "%s%s%03d" % (hms, dot, ms), "%s.%03d" % (hms, ms)
    if kind == "ms1":
        return "%s%s%d" % (hms, dot, ms // 100), "%s.%d00" % (hms, ms // 100)
    if kind == "ms2":
        return "%s%s%02d" % (hms, dot, ms // 10), "%s.%02d0" % (hms, ms // 10)
    if kind in ("none", "shortnone"):
        return hms, hms + ".000"
    if kind == "wide":
        h += 100
        return "%d:%d:%d%s%03d" % (h, m, s, dot, ms), "%02d:%02d:%02d.%03d" % (h, m, s, ms)
    full = "%s%s%03d" % (hms, dot, ms)
    if kind == "word":
        return rng.choice(["x", "aa:bb:cc", full + "x", "x" + full, hms + dot + "1x", "00:0x:01" + dot + "000", "hello"]), None
    if kind == "few":
        return ("%02d%s%03d" % (s, dot, ms) if vtt else rng.choice(["%02d:%02d%s%03d" % (m, s, dot, ms), "%d" % s])), None
    if kind == "many":
        return "00:%s%s%03d" % (hms, dot, ms), None
    if kind == "badms":
        return hms + dot + rng.choice(["x", "1" + dot + "2", "0:1"]), None
    if kind == "sep":
        return hms + ("," if vtt else ".") + "%03d" % ms, None
    if kind == "empty-field":
        return rng.choice(["%02d::%02d" % (h, s), ":%02d:%02d" % (m, s), "%02d:%02d:" % (h, m)]) + dot + "%03d" % ms, None
    raise AssertionError(kind)


def render(c, rng, line0):
    vtt = c["fmt"] == "VTT"
    out = "WEBVTT\n\n" if vtt else "\n" * (line0 - 1)
    want, last, t = [], 0, rng.randint(0, 10 ** 7)
    for n, cue in enumerate(c["cues"]):
        t += rng.randint(1000, 99999)
        a, an = timing(cue["st"], t, vtt, rng)
        t += rng.randint(1000, 99999)
        z, zn = timing(cue["en"], t, vtt, rng)
        arrow = " --> "
        tl = a + rng.choice([" --> ", "  -->  ", "\t-->\t"]) + z
        if cue["arrow"] == "glued":
            tl = rng.choice([a + "-->" + z, a + " -->" + z, a + "--> " + z])
        elif cue["arrow"] == "other":
            tl = a + rng.choice([" -->> ", " --->> "] if vtt else [" -->> ", " to ", " —> ", " ==> "]) + z
        elif cue["arrow"] == "short-arrow":
            tl = a + " -> " + z
        elif cue["arrow"] == "missing":
            tl = a + " " + z
        elif cue["arrow"] == "no-end":
            tl = a + " -->"
        elif cue["arrow"] == "no-start":
            tl = "--> " + z
        elif cue["set"]:
            tl += rng.choice([" X1:0 X2:1", " align:left size:50%", " line:0", " a b  c"])
        num = {"next": last + 1, "skip": last + 3}.get(cue["num"], last)
        numtext = {"same": "%d" % last, "lower": "%d" % (last - 1) if last > 1 else "%d" % last, "zero": "0", "negative": "-%d" % (last + 1),
                   "word": rng.choice(["x", "1x", "one", "1 2", "#%d" % (last + 1)]), "float": "%d.5" % (last + 1)}.get(cue["num"])
        if numtext is None:
            numtext = rng.choice(["%d", "%d", "%d ", "%03d"]) % num
        last = num
        if vtt:
            head = "".join(rng.choice(["intro", "1", "%d" % (n + 1), "00:01", "a b", "NOTE x", "first ", "a\t", " lead", "é 日", "->", "\u00a0x\u00a0"]) + "\n" for _ in range(cue["id"]))
        else:
            head = numtext + "\n"
        lines = []
        for _ in range(cue["lines"]):
            while True:
                x = SUB(rng).split("\n")[0].strip()
                if x and "-->" not in x:
                    break
            lines.append(x)
        body = "\n".join(lines)
        out += head + tl + ("\n" + body if lines else "")
        out += "\n" * (cue["gap"] + 1)
        want.append(dict(order=num if not vtt else None, key=tl if vtt else numtext.strip(), string=body, occurrences="%s,%s" % (an, zn)))
    return out, want


def run(rep, deep):
    jobs = []
    for fmt in ("SRT", "VTT"):
        jobs.append((dict(FMT=fmt, MAXCUES=1, FULL=True), None, 3000 if not deep else None, 1))
        jobs.append((dict(FMT=fmt, MAXCUES=2, FULL=False), 30 if not deep else 600, 3000 if not deep else 60000, 1))
        jobs.append((dict(FMT=fmt, MAXCUES=9, FULL=True), 25 if not deep else 400, 4000 if not deep else 60000, 1))
    for defs, sim, cap, reps in jobs:
        r = tlc.run("Subtitles", dict(defs, EMIT=True), invariants=["InvVerdict", "InvFirst", "InvAscending", "InvLine", "Emit"], simulate=sim, depth=12, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cases = r.cases
        if cap and len(cases) > cap:
            g = engine.rng_for(rep.seed, "sub", defs)
            good = [c for c in cases if not c["verdict"]["fault"]]
            bad = [c for c in cases if c["verdict"]["fault"]]
            good = g.sample(good, min(len(good), cap // 2))
            cases = good + g.sample(bad, min(len(bad), cap - len(good)))
        rep.distinct += len(cases)
        for n, c in enumerate(cases):
            if n % 3000 == 1:
                rep.sample(c)
            one(rep, c)


def one(rep, c):
    from openformats.exceptions import ParseError
    from openformats.formats.srt import SrtHandler
    from openformats.formats.vtt import VttHandler
    rng = engine.rng_for(rep.seed, "sub", c)
    v = c["verdict"]
    line0 = 1
    # the first line of the first cue as the specification has it
    if c["fmt"] == "SRT" and v["fault"] and len(c["cues"]) >= 1:
        used = sum(2 + q["lines"] + q["gap"] for q in c["cues"][:-1])
        base = v["line"] - used
        line0 = base if v["fault"] in ("data", "number", "order") else base - 1
    src, want = render(c, rng, line0)
    if rng.random() < .4:
        src = src.replace("\n", "\r\n")
    rep.count("subtitle files (%s)" % c["fmt"], 1, len(c["cues"]))

    def fail(what, detail):
        rep.fail("%s: %s" % (c["fmt"], what), "%s; %r" % (detail, src), case=c)

    H = SrtHandler() if c["fmt"] == "SRT" else VttHandler()
    try:
        template, strings = H.parse(src)
    except ParseError as e:
        if not v["fault"]:
            if not c["found"] and c["fmt"] == "VTT":
                return
            return fail("a correct file was rejected", str(e))
        if str(e).startswith("Unexpected timing format") and v["fault"] in ("start", "end"):
            # known finding vtt_unexpected_timing_line
            if str(e) == "Unexpected timing format on line %d" % (v["line"] - c["cues"][-1]["id"] + 2):
                return
        m = re.findall(r"(?:on|at|in) line (\d+)", str(e))
        if m and int(m[0]) != v["line"]:
            fail("the wrong line is reported (%s)" % v["fault"], "expected line %d: %s" % (v["line"], e))
        elif not m:
            fail("no line is reported", str(e))
        return
    except Exception as e:
        return fail("parsing crashed", "%s: %s" % (type(e).__name__, e))
    if v["fault"]:
        return fail("a faulty file was accepted (%s)" % v["fault"], "line %d" % v["line"])
    exp = [want[f["cue"] - 1] for f in c["found"]]
    got = [dict(order=s.order if c["fmt"] == "SRT" else None, key=s.key, string=s.string, occurrences=s.occurrences) for s in strings]
    if got != exp:
        return fail("the cues are read differently", "expected %r got %r" % (exp, got))
    if H.compile(template, strings) != src:
        fail("compiling it unchanged changes it", "")
