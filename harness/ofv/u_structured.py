"""C19: structured JSON metadata."""
import json, multiprocessing
from . import tlc, engine

TEXTS = ["note", "a \"b\"", "back\\slash", "new\nline", "tab\t", "é 日 \U0001f642", "{x}", ", ", "{ ,", "\\u0041", "5", "null", "a/b", "\x01", "string", "\"context\": \"z\""]


def literal(text, rng):
    return json.dumps(text, ensure_ascii=rng.random() < .5)


def layout(rng):
    nl = rng.choice(["\n  ", "\n\t\t", "\n", " ", "", "\n\n    "])
    return dict(first=rng.choice([nl, nl, "", " "]), sep=nl, before=rng.choice(["", "", "", " ", "\n"]), colon=rng.choice([": ", ": ", ":", " : ", ":\n  "]), last=rng.choice(["", "\n", " ", nl]))


def work(job):
    from openformats.formats.json import StructuredJsonHandler as H
    from openformats.strings import OpenString
    seed, cases = job
    fails, done = [], 0
    for c in cases:
        rng = engine.rng_for(seed, c)
        lay = layout(rng)
        def limit_old():
            return rng.choice(["5", "100", "1e2", "1.50", "-0", "0.5E1", '"12"', "true"])
        entries, new = [], []
        for n, (e, u) in enumerate(zip(c["ents"], c["upd"])):
            fields, k = [], 0
            for x in e:
                f = x["f"]
                if f == "string":
                    if rng.random() < .3:
                        fields.append(("string", "{ n, plural, one {a%d} other {b %d} }" % (n, n), None))
                    else:
                        fields.append(("string", rng.choice(["text %d" % n, "caf\\u00e9", "a \\\"q\\\" b", "x, y", "} ,"]), None))
                    continue
                if f == "blank":
                    fields.append(("string", rng.choice([" ", "\\n"][:1]), None))
                    continue
                k += 1
                if f in ("context", "developer_comment"):
                    raw = {"old": literal("%s %d" % (rng.choice(TEXTS), n), rng), "empty": '""', "null": "null"}[x["v"]]
                elif f == "character_limit":
                    raw = {"old": limit_old(), "empty": '""', "null": "null"}[x["v"]]
                else:
                    f, raw = "f%d" % k, dict(text=lambda: literal(rng.choice(TEXTS), rng), number=lambda: rng.choice(["5", "1E5", "-0", "1.50", "null", "true", "false"]),
                                             object=lambda: rng.choice(["{}", '{"a":"b"}', '{ "string": "inner", "context": "q" }', '{"x": [1, {"y": "}"}]}']),
                                             list=lambda: rng.choice(["[]", '["a", "b"]', '[{"string": "inner"}]', "[1,[2]]"]))[f]()
                fields.append((f, None, raw))
            entries.append(fields)
            vals = {}
            for f, ch in u.items():
                if ch == "new":
                    vals[f] = rng.choice(TEXTS) + " new" if f != "character_limit" else rng.choice([7, 0, 12345, "9 chars", 2.5])
                elif ch == "clear":
                    vals[f] = "" if f != "character_limit" else None
            new.append(vals)

        def member(f, lit):
            return '"%s"%s%s' % (f, lay["colon"], lit)

        def entry(fields):
            return "{" + lay["first"] + (lay["before"] + "," + lay["sep"]).join(member(f, '"%s"' % s if raw is None else raw) for f, s, raw in fields) + lay["last"] + "}"

        # entries may stand in groups
        opened, close = [], []
        body = []
        for n, fs in enumerate(entries):
            body.append((n, rng.choice([0, 0, 0, 1, 2])))
        def whole(texts):
            out = []
            for (n, deep) in body:
                t = texts[n]
                for d in range(deep):
                    t = '{"g%d": %s}' % (d, t)
                out.append('"e%d": %s' % (n, t))
            return "{" + (",\n").join(out) + "}"
        src = whole([entry(f) for f in entries])
        json.loads(src)

        def bad(what, detail):
            fails.append((what, detail, c))
        try:
            t, s = H().parse(src)
            s = list(s)
        except Exception as e:
            bad("valid file is rejected", "%s: %s for %r" % (type(e).__name__, e, src))
            continue
        idx = [n for n, e in enumerate(c["ents"]) if any(x["f"] == "string" for x in e)]
        if len(s) != len(idx):
            bad("number of strings differs", "%r in %r" % ([x.key for x in s], src))
            continue
        # the metadata that was read
        ok = True
        for o, n in zip(s, idx):
            for f in ("context", "developer_comment", "character_limit"):
                raws = [r for g, _, r in entries[n] if g == f]
                old = json.loads(raws[0]) if raws else None
                want = old or ("" if f != "character_limit" else old)
                if getattr(o, f) != want:
                    ok = False
                    bad("metadata is read differently", "%s of %s is %r instead of %r in %r" % (f, o.key, getattr(o, f), want, src))
        if not ok:
            continue
        strings, final = [], []
        for o, n in zip(s, idx):
            kw = {k: getattr(o, k) for k in OpenString.DEFAULTS}
            kw.update(new[n])
            final.append(kw)
            strings.append(OpenString(o.key, dict(o.string) if o.pluralized else o.string, pluralized=o.pluralized, **kw))
        try:
            out = H().compile(t, strings)
        except Exception as e:
            bad("compiling crashed", "%s: %s for %r" % (type(e).__name__, e, src))
            continue
        try:
            pairs = json.loads(out, object_pairs_hook=lambda p: ("obj", p))
        except ValueError as e:
            bad("compiled file is not JSON", "%s: %r from %r with %r" % (e, out, src, new))
            continue
        done += 1
        texts, added = [], False
        for n, (fs, o) in enumerate(zip(entries, c["out"])):
            res = []
            for (f, st, raw), x in zip(fs, o):
                if raw is not None and f in new[n] and x["v"] in ("new", "cleared"):
                    raw = ("new", new[n][f])
                res.append((f, st, raw))
            for x in o[len(fs):]:
                added = True
                res.append((x["f"], None, ("new", new[n][x["f"]])))
            texts.append(res)
        # member by member
        top = dict(pairs[1])
        broken = False
        for (n, deep) in body:
            v = top["e%d" % n]
            for d in range(deep):
                v = v[1][0][1]
            got = v[1]
            want = [(f, json.loads('"%s"' % st) if raw is None else raw[1] if isinstance(raw, tuple) else json.loads(raw, object_pairs_hook=lambda p: ("obj", p))) for f, st, raw in texts[n]]
            k = len(entries[n])
            if got[:k] != want[:k] or sorted(map(repr, got[k:])) != sorted(map(repr, want[k:])):
                broken = True
                bad("entry is written differently", "expected %r, got %r; %r from %r" % (want, got, out, src))
        if broken:
            continue
        if not added:
            exp = whole([entry([(f, st, raw if not isinstance(raw, tuple) else json.dumps(raw[1], ensure_ascii=False)) for f, st, raw in fs]) for fs in texts])
            same = [fs for fs in texts if any(isinstance(r, tuple) for _, _, r in fs)]
            if (not same and out != src) or json.loads(exp) != json.loads(out):
                bad("file is written differently", "expected %r, got %r" % (exp, out))
            elif same:
                # all the text that is not a new value is the source's
                pos = 0
                for fs, src_fs in zip(texts, entries):
                    for (f, st, raw), (f2, st2, raw2) in zip(fs, src_fs):
                        lit = '"%s"%s' % (f, lay["colon"]) + ("" if isinstance(raw, tuple) else '"%s"' % st if raw is None else raw)
                        p = out.find(lit, pos)
                        if p < 0:
                            bad("text of another field changed", "%r not found in %r from %r" % (lit, out, src))
                            broken = True
                            break
                        pos = p + len(lit)
                    if broken:
                        break
        # what was supplied reads back
        try:
            s2 = list(H().parse(out)[1])
        except Exception as e:
            bad("compiled file is rejected", "%s: %s for %r" % (type(e).__name__, e, out))
            continue
        for a, kw, o in zip(s2, final, strings):
            got = (a.key, a.string, a.context, a.developer_comment, a.character_limit)
            lim = kw["character_limit"]
            want = (o.key, o.string, kw["context"], kw["developer_comment"], lim)
            if got != want and not (got[:4] == want[:4] and lim in ("", None) and a.character_limit in ("", None)):
                bad("metadata reads back differently", "expected %r, got %r" % (want, got))
        if len(s2) != len(s):
            bad("compiled file reads back differently", "%r" % out)
    return fails, done


def run(rep, deep):
    jobs = []
    for defs, sim, cap in ((dict(MAXENT=1, MAXFIELDS=4 if deep else 3, BLANKS=False), None, None if deep else 9000),
                           (dict(MAXENT=2, MAXFIELDS=2, BLANKS=True), None if deep else 1500, 60000 if deep else 5000),
                           (dict(MAXENT=4, MAXFIELDS=6, BLANKS=True), 4000 if deep else 250, 40000 if deep else 6000)):
        r = tlc.run("StructuredMeta", dict(defs, EMIT=True), invariants=["InvRead", "InvOrder", "InvNothing", "InvOnce", "Emit"],
                    simulate=sim, depth=40, seed=rep.seed, workers=4 if not sim else 1)
        rep.tlc(r)
        cs = r.cases
        if cap and len(cs) > cap:
            cs = engine.rng_for(rep.seed, "meta", defs["MAXENT"]).sample(cs, cap)
        rep.distinct += len(cs)
        rep.sample(cs[0])
        jobs += [(rep.seed, cs[k::4]) for k in range(4)]
    with multiprocessing.Pool(8) as pool:
        for fails, done in pool.imap_unordered(work, jobs):
            rep.count("structured metadata", done, done)
            for what, detail, c in fails[:20]:
                rep.fail(what, detail, case=c)
