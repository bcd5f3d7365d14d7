"""Running TLC and reading the behaviours it emits."""
import hashlib, json, os, re, shutil, subprocess, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class Run(object):
    def __init__(self):
        self.states = self.transitions = 0
        self.cases = []
        self.out = ""
        self.errors = []


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v, ensure_ascii=True)
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, dict):
        return "[" + ", ".join("%s |-> %s" % (k, tla(x)) for k, x in v.items()) + "]"
    raise TypeError(v)


def run(module, defs, invariants=(), spec="Spec", simulate=None, depth=60, seed=1,
        workers=4, timeout=600, postcondition=None, properties=(), extra_files=None,
        constraint=None, heap="3g", view=None):
    """Model-check `module` with constant definitions `defs`; returns a Run.
    Raises TLCError if an invariant is violated or TLC fails."""
    d = tempfile.mkdtemp(prefix="ofv-tlc-")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        for name, content in (extra_files or {}).items():
            with open(os.path.join(d, name), "w", encoding="utf-8") as fh:
                fh.write(content)
        mc = ["---- MODULE MC ----", "EXTENDS %s" % module]
        cfg = ["SPECIFICATION %s" % spec, "CONSTANTS"]
        for k, v in defs.items():
            mc.append("Def_%s == %s" % (k, v if isinstance(v, Raw) else tla(v)))
            cfg.append("  %s <- Def_%s" % (k, k))
        if not defs:
            cfg.pop()
        mc.append("====")
        for i in invariants:
            cfg.append("INVARIANT %s" % i)
        for i in properties:
            cfg.append("PROPERTY %s" % i)
        if constraint:
            cfg.append("CONSTRAINT %s" % constraint)
        if postcondition:
            cfg.append("POSTCONDITION %s" % postcondition)
        if view:
            cfg.append("VIEW %s" % view)
        cfg.append("CHECK_DEADLOCK FALSE")
        with open(os.path.join(d, "MC.tla"), "w") as fh:
            fh.write("\n".join(mc) + "\n")
        with open(os.path.join(d, "MC.cfg"), "w") as fh:
            fh.write("\n".join(cfg) + "\n")
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4",
               "-Djava.io.tmpdir=" + d, "-Dfile.encoding=UTF-8", "-Dstdout.encoding=UTF-8",
               "-cp", JARS, "tlc2.TLC", "-config", "MC.cfg", "-workers", str(workers), "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "meta")]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
        cmd.append("MC.tla")
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r = Run()
    rest = []
    seen = set()
    for line in out.split("\n"):
        if line.startswith('"CASE '):
            if line in seen:
                continue
            seen.add(line)
            r.cases.append(line)
        else:
            rest.append(line)
    r.out = "\n".join(rest)
    r.cases.sort()
    r.cases = [json.loads(json.loads(l)[5:]) for l in r.cases]
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", r.out)
    if m:
        r.transitions, r.states = int(m.group(1)), int(m.group(2))
    else:
        m = re.search(r"The number of states generated: (\d+)", r.out)
        if m:
            r.transitions = r.states = int(m.group(1))
    ok = p.returncode == 0 and "Error:" not in r.out
    if not ok:
        raise TLCError("TLC failed (rc %s) on %s:\n%s" % (p.returncode, module, r.out[-4000:]))
    return r


class Raw(str):
    """A TLA+ expression given literally."""
