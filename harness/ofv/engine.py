"""Generates behaviours with TLC and replays them, in parallel over formats."""
import hashlib, importlib, json, multiprocessing, os, random, sys, time, traceback
from . import core, tlc

MODULES = ["b_text", "b_json", "b_xml", "b_po", "b_yaml", "b_md", "b_office"]


def bindings():
    out = {}
    for m in MODULES:
        try:
            mod = importlib.import_module("ofv." + m)
        except ModuleNotFoundError as e:
            if ("ofv." + m) in str(e):
                continue
            raise
        for c in mod.BINDINGS:
            out[c.name] = c
    return out


def rng_for(*parts):
    return random.Random(hashlib.sha256(json.dumps(parts, sort_keys=True).encode()).hexdigest())


def _work(job):
    name, cases, seed, reps, props, budget = job
    b = bindings()[name]()
    b.name = name
    fails, steps, done, samples, skipped = [], 0, 0, [], 0
    t0 = time.time()
    for case in cases:
        for rep in range(reps):
            rng = rng_for(seed, name, case, rep)
            try:
                fs, st = core.replay(b, case, rng, props)
            except core.Skip:
                skipped += 1
                continue
            except Exception:
                fs, st = [], 0
                fails.append(dict(harness=traceback.format_exc(), case=case, rep=rep, fmt=name))
                if len(fails) > 20:
                    return name, fails, steps, done, samples, skipped
                continue
            steps += st
            done += 1
            if done == 1 or (done % 997 == 0 and len(samples) < 3):
                samples.append(case)
            for f in fs:
                if props and not (f.props & props):
                    continue
                fails.append(dict(fmt=name, case=case, rep=rep, seed=seed, props=sorted(f.props), what=f.what, detail=f.detail))
            if len(fails) > 40:
                return name, fails, steps, done, samples, skipped
        if budget and time.time() - t0 > budget:
            break
    return name, fails, steps, done, samples, skipped


class Result(object):
    def __init__(self):
        self.states = self.transitions = self.replayed = self.steps = self.skipped = 0
        self.fails, self.samples, self.by_format = [], [], {}
        self.distinct = 0


def lifecycle(formats, seed, maxlen=3, minlen=0, edits=("keep",), adds=((),), histories=((),),
              newlines=("UNIX",), maxedit=99, simulate=None, reps=1, props=None, cap=None, procs=8, budget=None,
              result=None, invariants=("InvTemplate", "InvOrder", "InvRoundTrip", "InvFidelity", "InvDrop", "InvTranslatable", "InvComment", "InvBalanced")):
    have = bindings()
    formats = [f for f in formats if f in have]
    res = result or Result()
    r = tlc.run("Lifecycle", dict(FORMATS=set(formats), MINLEN=minlen, MAXLEN=maxlen, EDITS=set(edits),
                                  ADDS=set(tuple(a) for a in adds), HISTORIES=set(tuple(h) for h in histories),
                                  NEWLINES=set(newlines), MAXEDIT=maxedit, EMIT=True),
                invariants=list(invariants) + ["Emit"], simulate=simulate, seed=seed, workers=4 if not simulate else 1, depth=8 * maxlen + 10)
    res.states += r.states
    res.transitions += r.transitions
    by = {}
    for c in r.cases:
        by.setdefault(c["fmt"], []).append(c)
    jobs = []
    for f, cs in sorted(by.items()):
        if cap and len(cs) > cap:
            rg = rng_for(seed, f, "cap")
            cs = rg.sample(cs, cap)
        res.distinct += len(cs)
        n = max(1, min(4, len(cs) // 150))
        for k in range(n):
            jobs.append((f, cs[k::n], seed, reps, props, budget))
    jobs.sort(key=lambda j: -len(j[1]))
    with multiprocessing.Pool(procs) as pool:
        for name, fails, steps, done, samples, skipped in pool.imap_unordered(_work, jobs):
            res.fails += fails
            res.steps += steps
            res.replayed += done
            res.skipped += skipped
            res.samples += samples
            x = res.by_format.setdefault(name, [0, 0])
            x[0] += done
            x[1] += skipped
    return res


def parallel(rep, work, jobs, procs=8):
    """ runs work(job) -> Report for every job, each in a process, and adds the results up """
    with multiprocessing.Pool(procs) as pool:
        for r in pool.imap(work, jobs, chunksize=1):
            rep.states += r.states
            rep.transitions += r.transitions
            rep.traces += r.traces
            rep.steps += r.steps
            rep.distinct += r.distinct
            for s in r.samples:
                rep.sample(s)
            for k, (n, sk) in r.by.items():
                b = rep.by.setdefault(k, [0, 0])
                b[0] += n
                b[1] += sk
            rep.fails += r.fails
            rep.harness += r.harness
