"""C14: the transcription engine, both ways: behaviours of Transcriber.tla are
replayed on the engine, and calls recorded from the engine while handlers run
are checked against Transcriber.tla."""
import random
from . import tlc, engine, core

CH = {"a": ["a", "Z", "0"], "b": ["é", "日", " ", "\t"], "n": ["\n"], "w": ["word", "<b>", "x" * 40]}


def render(seq, rng, pick):
    """concrete text and offsets of every abstract position"""
    out, offs = "", [0]
    for i, c in enumerate(seq):
        t = pick(i, c)
        out += t
        offs.append(len(out))
    return out, offs


def generated(rep, maxops, sources, simulate, cap, sections=False):
    from openformats.transcribers import Transcriber
    texts = [(), ("a",), ("n",), ("a", "n", "b")]
    r = tlc.run("Transcriber", dict(SOURCES=set(sources), TEXTS=set(texts), MAXOPS=maxops, SECTIONS=sections, EMIT=True),
                invariants=["InvLine", "InvIdentity", "InvGone", "Emit"], simulate=simulate, depth=maxops + 2,
                seed=rep.seed, workers=4 if not simulate else 1)
    rep.tlc(r)
    cases = r.cases
    rng = random.Random(rep.seed)
    if cap and len(cases) > cap:
        cases = rng.sample(cases, cap)
    rep.distinct += len(cases)
    for n, c in enumerate(cases):
        rng = engine.rng_for(rep.seed, "tr", c["ops"], c["src"])
        for dos in (False, True):
            one(rep, Transcriber, c, rng, dos)
        rep.count("engine", 2, 2 * len(c["ops"]) + 6)
        if n % 2000 == 0:
            rep.sample(c)


def one(rep, Transcriber, c, rng, dos):
    m = {}
    src, offs = render(c["src"], rng, lambda i, ch: rng.choice(CH[ch]))
    # characters of the source are replaced one by one, so texts of removed
    # and copied pieces can be told apart
    pieces = [src[offs[i]:offs[i + 1]] for i in range(len(c["src"]))]
    hasnl = "n" in c["src"]
    given = src.replace("\n", "\r\n") if dos else src
    dos_file = dos and hasnl
    t = Transcriber(given)
    if t.source != src:
        rep.fail("the engine's source is not the text with UNIX line ends", "%r -> %r" % (given, t.source), case=c)
        return
    p = 0
    added = []
    expect_pieces = []
    for op, ob in zip(c["ops"], c["obs"]):
        o, a = op["op"], op["arg"]
        if o == "copy":
            t.copy(offs[p + a] - offs[p])
        elif o == "skip":
            t.skip(offs[p + a] - offs[p])
        elif o in ("copy_until", "skip_until"):
            getattr(t, o)(offs[a])
        elif o == "copy_to_end":
            t.copy_to_end()
        elif o == "add":
            s = "".join("\n" if ch == "n" else rng.choice(CH[ch]) for ch in a)
            if dos_file:
                s = "".join(rng.choice(["\n", "\r\n"]) if ch == "\n" else ch for ch in s)
            t.add(s)
            added.append(s)
        elif o == "remove_section":
            t.remove_section(a) if a or rng.random() < .5 else t.remove_section()
        else:
            getattr(t, o)()
        p = ob["ptr"]
        if t.ptr != offs[p]:
            rep.fail("pointer differs after %s" % o, "expected %s got %s; %s" % (offs[p], t.ptr, c), case=c)
            return
        if t.line_number != ob["line"]:
            rep.fail("line number differs after %s" % o, "expected %s got %s; %s" % (ob["line"], t.line_number, c), case=c)
            return
    # the expected text, followed piece by piece
    exp = expected(c, pieces, added)
    unix = exp.replace("\r\n", "\n")
    want = unix.replace("\n", "\r\n") if dos_file else exp
    got = t.get_destination()
    if got != want:
        rep.fail("destination differs", "%s; source=%r ops=%s" % (core.diff(want, got), given, c["ops"]), case=c)
        return
    if t.get_destination(enforce_newline_type="DOS") != unix.replace("\n", "\r\n"):
        rep.fail("destination with DOS line ends requested differs", "%r; ops=%s" % (t.get_destination(enforce_newline_type="DOS"), c["ops"]), case=c)
    if "\r" not in exp and t.get_destination(enforce_newline_type="UNIX") != exp:
        rep.fail("destination with UNIX line ends requested differs", "%r; ops=%s" % (t.get_destination(enforce_newline_type="UNIX"), c["ops"]), case=c)
    if t.get_destination() != got:
        rep.fail("asking for the destination changes it", c, case=c)


def expected(c, pieces, added):
    """Concrete text of the specification's destination.  The specification
    works on abstract characters; here the same steps are taken on the concrete
    pieces, and the two must agree character class by character class."""
    dest, p, k = [], 0, 0
    for op, ob in zip(c["ops"], c["obs"]):
        o, a = op["op"], op["arg"]
        if o.startswith("copy"):
            dest.append("".join(pieces[p:max(p, ob["ptr"])]))
        elif o == "add":
            dest.append(added[k])
            k += 1
        elif o == "mark_section_start":
            dest.append(1)
        elif o == "mark_section_end":
            dest.append(2)
        elif o == "remove_section":
            starts = [i for i, d in enumerate(dest) if d == 1]
            s = starts[len(starts) - 1 - a]
            ends = [i for i in range(s, len(dest)) if dest[i] == 2]
            e = ends[0] if ends else len(dest) - 1
            for i in range(s, e + 1):
                dest[i] = 0
        p = ob["ptr"]
    text = "".join(d for d in dest if isinstance(d, str))
    assert text.replace("\r\n", "\n").count("\n") == c["text"].count("n"), "harness model out of step"
    return text


# ---------------------------------------------------------------------------
# code -> specification

class Recorder(object):
    """Stands in for the engine's methods while handlers run."""
    OPS = ("copy", "copy_until", "copy_to_end", "skip", "skip_until", "add", "mark_section_start", "mark_section_end", "remove_section")

    def __init__(self):
        self.traces = {}
        self.busy = False

    def __enter__(self):
        from openformats.transcribers import Transcriber
        self.cls, self.saved = Transcriber, {}
        for o in self.OPS:
            self.saved[o] = Transcriber.__dict__[o]
            setattr(Transcriber, o, self.wrap(o, self.saved[o]))
        self.saved["get_destination"] = Transcriber.__dict__["get_destination"]
        get = self.saved["get_destination"]
        rec = self

        def get_destination(t, *a, **k):
            r = get(t, *a, **k)
            if not a and not k:
                tr = rec.of(t)
                tr["text"] = r
            return r
        Transcriber.get_destination = get_destination
        return self

    def of(self, t):
        return self.traces.setdefault(id(t), dict(t=t, src=t.source, nl=t.newline_type, ops=[], text=None))

    def wrap(self, o, f):
        rec = self

        def method(t, *a, **k):
            tr = rec.of(t)
            if rec.busy:                      # a call made by another call
                return f(t, *a, **k)
            rec.busy = True
            try:
                r = f(t, *a, **k)
            finally:
                rec.busy = False
            arg = (list(a) + list(k.values()) + [0])[0]
            tr["ops"].append(dict(op=o, arg=0 if o == "add" else arg, text=arg if o == "add" else "", line=t.line_number, ptr=t.ptr))
            tr["text"] = None
            return r
        return method

    def __exit__(self, *a):
        for o, f in self.saved.items():
            setattr(self.cls, o, f)


def chars(s):
    # lone carriage returns count as text
    return [c if c != "\n" else "n" for c in s.replace("n", "N")]


def recorded(rep, formats, ndocs, limit):
    """Runs handlers on documents and validates the engine calls they make."""
    have = engine.bindings()
    traces = []
    formats = [f for f in formats if f in have]
    r = tlc.run("Lifecycle", dict(FORMATS=set(formats), MINLEN=2, MAXLEN=6, EDITS={"keep", "drop", "tr"}, ADDS={()}, HISTORIES={()},
                                  NEWLINES={"UNIX", "DOS"}, MAXEDIT=99, EMIT=True), invariants=["Emit"], simulate=ndocs * 6 * len(formats), seed=rep.seed, workers=1, depth=60)
    rep.tlc(r)
    per = {}
    for c in r.cases:
        k = per.setdefault(c["fmt"], [])
        if len(k) >= ndocs:
            continue
        k.append(c)
        b = have[c["fmt"]]()
        rng = engine.rng_for(rep.seed, "rec", c)
        with Recorder() as rec:
            try:
                core.replay(b, c, rng, {"C14"})
            except core.Skip:
                continue
        for tr in rec.traces.values():
            if tr["text"] is not None and tr["ops"] and len(tr["src"]) < 900 and len(tr["ops"]) < 90:
                traces.append(tr)
    seen, uniq = set(), []
    for tr in traces:
        k = (tr["src"], repr(tr["ops"]))
        if k not in seen:
            seen.add(k)
            uniq.append(tr)
    rng = random.Random(rep.seed)
    rng.shuffle(uniq)
    uniq = uniq[:limit]
    if not uniq:
        return
    js = []
    for tr in uniq:
        text = tr["text"]
        dos = tr["nl"] == "DOS"
        if dos:
            if "\n" in text.replace("\r\n", ""):
                rep.fail("mixed line ends in the text of an engine fed with a DOS file", core.short(text), case=None)
            text = text.replace("\r\n", "\n")
        fix = (lambda s: s.replace("\r\n", "\n")) if dos else (lambda s: s)
        ops = [dict(op=o["op"], arg=o["arg"], text=chars(fix(o["text"])), line=o["line"], ptr=o["ptr"]) for o in tr["ops"]]
        # characters as numbers keeps TLC's strings apart from each other
        js.append(dict(src=chars(tr["src"]), ops=ops, text=chars(text)))
    import json
    extra = {"traces.json": json.dumps(js, ensure_ascii=True)}
    v = tlc.run("TranscriberTrace", dict(TRACES=tlc.Raw('JsonDeserialize("traces.json")'), SOURCES=set(), TEXTS=set(), MAXOPS=0, SECTIONS=False, EMIT=False),
                spec="TSpec", invariants=["InvLine", "TEmit"], extra_files=extra, workers=4, view="TView")
    rep.tlc(v)
    ok = {c["trace"] for c in v.cases}
    rep.count("traces recorded from handlers", len(js), sum(len(t["ops"]) for t in js))
    for i, tr in enumerate(uniq, 1):
        if i not in ok:
            rep.fail("recorded engine calls do not follow the specification",
                     core.short(dict(source=tr["src"], ops=tr["ops"], text=tr["text"]), 3000), case=None)


def run(rep, deep):
    s3 = [(), ("a",), ("n",), ("a", "n"), ("n", "b"), ("a", "n", "w"), ("n", "n", "a"), ("a", "b", "n")]
    generated(rep, 4, [("a", "n", "b"), ("n", "w"), ()], None, None if deep else 4000)
    generated(rep, 9, s3 + [("a", "n", "b", "n"), ("a", "w", "n", "n", "b", "a")], 20000 if deep else 800, 60000 if deep else 5000)
    generated(rep, 16, [("a", "b", "a", "n", "b", "w", "n", "a")], 20000 if deep else 1500, 40000 if deep else 1500, sections=True)
    recorded(rep, ["SRT", "VTT", "PLAINTEXT", "KEYVALUEJSON", "STRUCTURED_JSON", "ARB", "CHROME_V3", "ANDROID", "STRINGSDICT", "CUSTOM_XML", "YAML"],
             40 if deep else 8, 1500 if deep else 250)
