"""Collects what a check explored, decides its outcome and writes evidence."""
import hashlib, json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


class Report(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.steps = self.distinct = 0
        self.samples, self.fails, self.by = [], [], {}
        self.notes, self.assumptions, self.known = [], [], []
        self.harness = []
        self.exhaustive = None

    def tlc(self, run):
        self.states += run.states
        self.transitions += run.transitions

    def add_lifecycle(self, r, label="lifecycle"):
        self.states += r.states
        self.transitions += r.transitions
        self.traces += r.replayed
        self.steps += r.steps
        self.distinct += r.distinct
        for f, (n, sk) in sorted(r.by_format.items()):
            b = self.by.setdefault(f, [0, 0])
            b[0] += n
            b[1] += sk
        for s in r.samples[:6]:
            self.sample(s)
        for f in r.fails:
            (self.harness if "harness" in f else self.fails).append(f)

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def count(self, name, n=1, steps=0):
        """n behaviours replayed on the real code under the given heading"""
        self.traces += n
        self.steps += steps
        b = self.by.setdefault(name, [0, 0])
        b[0] += n

    def fail(self, what, detail, **kw):
        self.fails.append(dict(what=what, detail=str(detail)[:4000], **kw))

    def finish(self):
        wall = time.time() - self.t0
        lines, seen = [], {}
        for f in self.fails:
            k = (f.get("fmt", ""), f["what"])
            seen.setdefault(k, []).append(f)
        d = os.path.join(VERIF, "replays")
        for (fmt, what), fs in sorted(seen.items()):
            f = min(fs, key=lambda x: len(json.dumps(x.get("case", ""), default=str)) + len(x["detail"]))
            os.makedirs(d, exist_ok=True)
            h = hashlib.md5(json.dumps(f, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(d, "%s-%s.json" % (self.prop, h))
            with open(path, "w") as fh:
                json.dump(dict(f, property=self.prop), fh, indent=1, default=str, ensure_ascii=True)
            lines.append((path, fmt, what, len(fs), f["detail"]))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                   steps_compared=self.steps, distinct_behaviours=self.distinct,
                   per_part={k: v[0] for k, v in sorted(self.by.items())},
                   not_expressible={k: v[1] for k, v in sorted(self.by.items()) if v[1]},
                   explanation="; ".join(self.notes))
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(lines))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % self.prop)
        with open(tmp, "w") as fh:
            json.dump(ev, fh, indent=1, ensure_ascii=True, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", "%s.json" % self.prop))
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for path, fmt, what, n, detail in lines[:25]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  %s: %s (%d cases)" % (fmt or "-", what, n))
            print("  " + detail[:1200])
        print("%s %s: %d states, %d transitions, %d behaviours replayed, %d comparisons, %.1f s%s" % (
            self.prop, self.tier, self.states, self.transitions, self.traces, self.steps, wall,
            "" if not lines else ", %d kinds of violation" % len(lines)))
        if lines:
            return 1
        if self.harness:
            print("HARNESS ERROR (not a verdict):", file=sys.stderr)
            for h in self.harness[:3]:
                print(h["harness"], h.get("case"), file=sys.stderr)
            return 2
        if self.traces == 0:
            print("HARNESS ERROR: nothing was replayed", file=sys.stderr)
            return 2
        return 0
