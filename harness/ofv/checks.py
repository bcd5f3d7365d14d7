"""What each check explores."""
import json, random

from . import core, engine, report, tlc

TEXT = ["PLAINTEXT", "SRT", "VTT"]
JSONS = ["KEYVALUEJSON", "STRUCTURED_JSON", "ARB", "CHROME", "CHROME_V3"]
ANDROIDS = ["ANDROID", "ANDROID_UNESCAPED", "BETA_ANDROID"]
XMLS = ANDROIDS + ["CUSTOM_XML", "CUSTOM_XML_TAGS"]
DICT = ["STRINGSDICT"]
POS = ["PO", "POT", "PO_TARGET"]
YAMLS = ["YAML", "YAML_I18N"]
MDS = ["MARKDOWN", "MARKDOWN_V2", "MARKDOWN_JSX"]
ALL = TEXT + JSONS + XMLS + DICT + POS + YAMLS + MDS
DROPS = ["SRT", "VTT"] + JSONS + ANDROIDS + DICT + POS + ["PO_DIRECT"] + YAMLS
SYNC = ["KEYVALUEJSON", "STRUCTURED_JSON", "ARB", "CHROME"] + POS
PLURAL = list(JSONS) + ANDROIDS + DICT + POS + ["YAML_I18N"]
META = ["STRUCTURED_JSON", "ARB", "CHROME", "CHROME_V3", "SRT", "VTT"] + ANDROIDS + POS + YAMLS

# formats whose entries all stand in groups need longer documents
NESTED = {"STRINGSDICT"}

PLS = ["pl5", "pl15", "pl135", "plall"]
CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def lc(rep, formats, **kw):
    for fs, more in ((set(formats) - NESTED, 0), (NESTED & set(formats), 3)):
        if not fs:
            continue
        k = dict(kw, maxlen=kw.get("maxlen", 3) + more, minlen=kw.get("minlen", 0))
        rep.add_lifecycle(engine.lifecycle(sorted(fs), rep.seed, props={rep.prop}, **k))


def deep(rep):
    return rep.tier == "thorough"


def pick(rep, quick, thorough):
    return thorough if deep(rep) else quick


@check
def C01(rep):
    """Parse/compile round trip over all documents up to a bound."""
    lc(rep, ALL, maxlen=pick(rep, 3, 4), newlines=["UNIX", "DOS"], reps=pick(rep, 1, 4), cap=pick(rep, 1500, 40000))
    lc(rep, ALL, minlen=4, maxlen=9, newlines=["UNIX", "DOS"], simulate=pick(rep, 1500, 20000), reps=pick(rep, 1, 2))


@check
def C02(rep):
    lc(rep, ALL, maxlen=pick(rep, 3, 4), newlines=["UNIX", "DOS"], reps=pick(rep, 1, 4), cap=pick(rep, 1500, 40000))
    lc(rep, ALL, minlen=4, maxlen=9, newlines=["UNIX", "DOS"], simulate=pick(rep, 1500, 20000), reps=pick(rep, 1, 2))


@check
def C03(rep):
    lc(rep, ALL, maxlen=3, reps=pick(rep, 1, 6), cap=pick(rep, 1500, 20000), histories=[[], ["parse"]])
    lc(rep, ALL, minlen=4, maxlen=10, simulate=pick(rep, 1500, 20000), reps=pick(rep, 1, 2))


@check
def C04(rep):
    lc(rep, ALL, maxlen=pick(rep, 2, 3), edits=["keep", "tr"], reps=pick(rep, 3, 6), cap=pick(rep, 1500, 40000))
    lc(rep, ALL, minlen=3, maxlen=8, edits=["keep", "tr"] + PLS, simulate=pick(rep, 1500, 20000), reps=pick(rep, 1, 2))


@check
def C05(rep):
    lc(rep, DROPS, maxlen=pick(rep, 3, 4), edits=["keep", "drop"], reps=pick(rep, 1, 3), cap=pick(rep, 1800, 40000))
    lc(rep, DROPS, minlen=3, maxlen=9, edits=["keep", "tr", "drop"], newlines=["UNIX", "DOS"], simulate=pick(rep, 1500, 20000))


@check
def C06(rep):
    lc(rep, ALL, maxlen=pick(rep, 2, 3), edits=["keep", "tr"], newlines=["DOS", "UNIX"], reps=pick(rep, 2, 4), cap=pick(rep, 1200, 30000))
    lc(rep, ALL, minlen=3, maxlen=9, edits=["keep", "tr", "drop"], newlines=["DOS"], simulate=pick(rep, 1200, 20000))


@check
def C07(rep):
    lc(rep, SYNC, maxlen=pick(rep, 3, 4), edits=["keep", "drop"], reps=pick(rep, 1, 2), cap=pick(rep, 1500, 40000))
    lc(rep, SYNC, maxlen=2, edits=["keep", "drop"], adds=[["sg"], ["sgM"], ["sg", "sg"], ["pl"], ["sgX", "sg"]], newlines=["UNIX", "DOS"], reps=pick(rep, 1, 3), cap=pick(rep, 1500, 40000))
    lc(rep, SYNC, minlen=3, maxlen=9, edits=["keep", "tr", "drop"], adds=[[], ["sg"], ["sg", "sgM"]], newlines=["UNIX", "DOS"], simulate=pick(rep, 1200, 20000))


HIST = [["parse"], ["cycle"], ["fail"], ["partial"], ["fail", "cycle"], ["partial", "fail"], ["cycle", "parse", "fail"]]


@check
def C08(rep):
    lc(rep, ALL, maxlen=2, edits=["keep", "drop"], histories=HIST, reps=pick(rep, 1, 3), cap=pick(rep, 1200, 20000))
    lc(rep, ALL, minlen=2, maxlen=6, edits=["keep", "tr", "drop"] + PLS, adds=[[], ["sg"]], histories=HIST, simulate=pick(rep, 1200, 20000))


@check
def C09(rep):
    lc(rep, PLURAL, maxlen=pick(rep, 2, 3), edits=["keep"] + PLS, reps=pick(rep, 2, 4), cap=pick(rep, 1500, 40000))
    lc(rep, PLURAL, minlen=3, maxlen=7, edits=["keep", "tr"] + PLS, newlines=["UNIX", "DOS"], simulate=pick(rep, 1500, 20000))


@check
def C12(rep):
    lc(rep, ALL, maxlen=pick(rep, 3, 4), reps=pick(rep, 1, 3), cap=pick(rep, 1500, 40000))
    lc(rep, ALL, minlen=3, maxlen=9, edits=["keep", "tr", "drop"], newlines=["UNIX", "DOS"], simulate=pick(rep, 1500, 20000))


@check
def C13(rep):
    lc(rep, META, maxlen=pick(rep, 3, 4), histories=[[], ["parse"], ["fail"]], reps=pick(rep, 1, 3), cap=pick(rep, 1800, 40000))
    lc(rep, META, minlen=3, maxlen=9, edits=["keep", "drop"], newlines=["UNIX", "DOS"], simulate=pick(rep, 1500, 20000))


@check
def C14(rep):
    """The transcription engine."""
    from . import u_transcriber
    u_transcriber.run(rep, deep(rep))


@check
def C16(rep):
    """ICU plural messages."""
    from . import u_icu
    u_icu.run(rep, deep(rep))


@check
def C15(rep):
    """Templates, translated files and rejected files."""
    from . import u_poclass
    u_poclass.run(rep, deep(rep))
    lc(rep, POS, maxlen=3, reps=pick(rep, 1, 3), cap=pick(rep, 1500, 20000))


@check
def C22(rep):
    """The positional JSON reader."""
    from . import u_jsonreader
    u_jsonreader.run(rep, deep(rep))


@check
def C23(rep):
    """The positional XML reader."""
    from . import u_xmlreader
    u_xmlreader.run(rep, deep(rep))


@check
def C10(rep):
    """Escaping and unescaping."""
    from . import u_escape
    u_escape.run(rep, deep(rep))


@check
def C24(rep):
    """Subtitle files."""
    from . import u_subtitles
    u_subtitles.run(rep, deep(rep))
    lc(rep, ['SRT', 'VTT'], maxlen=pick(rep, 3, 4), reps=pick(rep, 1, 3), cap=pick(rep, 2500, 20000))


@check
def C21(rep):
    """YAML scalars and documents generated from strings alone."""
    from . import u_yaml
    u_yaml.run(rep, deep(rep))
    lc(rep, YAMLS, maxlen=pick(rep, 3, 4), edits=['keep', 'tr'], reps=pick(rep, 1, 3), cap=pick(rep, 1500, 20000))


@check
def C20(rep):
    """The language of a translated file."""
    from . import u_locale
    u_locale.run(rep, deep(rep))


@check
def C19(rep):
    """Structured JSON metadata."""
    from . import u_structured
    u_structured.run(rep, deep(rep))


@check
def C11(rep):
    """Malformed files."""
    from . import u_faults
    u_faults.run(rep, deep(rep))


@check
def C17(rep):
    """Office documents."""
    from . import u_office
    u_office.run(rep, deep(rep))


@check
def C18(rep):
    """Packages and temporary data."""
    from . import u_package
    u_package.run(rep, deep(rep))


@check
def C25(rep):
    """Direction marks of office documents."""
    from . import u_direction
    u_direction.run(rep, deep(rep))


@check
def C26(rep):
    """Parts of office documents and the origin of their strings."""
    from . import u_deck
    u_deck.run(rep, deep(rep))


# ---------------------------------------------------------------------------

def replay_file(prop, path):
    """Runs the case of a replay file again on the current tree."""
    f = json.load(open(path))
    if "case" in f and "rep" in f and f.get("fmt") in engine.bindings():
        b = engine.bindings()[f["fmt"]]()
        rng = engine.rng_for(f["seed"], f["fmt"], f["case"], f["rep"])
        fails, steps = core.replay(b, f["case"], rng, {prop})
        fails = [x for x in fails if prop in x.props]
        for x in fails:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (x.what, x.detail))
        print("replayed %s: %s" % (json.dumps(f["case"]), "violation" if fails else "holds"))
        return 1 if fails else 0
    if isinstance(f.get("case"), dict) and f["case"].get("kind") in ("direction", "deck"):
        from . import u_deck, u_direction
        unit = u_deck if f["case"]["kind"] == "deck" else u_direction
        rep = report.Report(prop, "quick", f.get("seed", 1))
        engine.parallel(rep, unit.again, [(prop, f.get("seed", 1), f["case"])], procs=1)
        for x in rep.fails:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (x["what"], x["detail"]))
        return 1 if rep.fails else 0
    if isinstance(f.get("case"), dict) and "dialect" in f["case"]:
        from . import u_office
        rep = report.Report(prop, "quick", f.get("seed", 1))
        u_office.judge_all(rep, f["case"]["dialect"], f["case"]["cases"])
        for x in rep.fails:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (x["what"], x["detail"]))
        return 1 if rep.fails else 0
    if isinstance(f.get("case"), dict) and "history" in f["case"]:
        from . import u_package
        rep = report.Report(prop, "quick", f.get("seed", 1))
        engine.parallel(rep, u_package.again, [(prop, f.get("seed", 1), f["case"]["history"])], procs=1)
        for x in rep.fails:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  %s: %s" % (x["what"], x["detail"]))
        return 1 if rep.fails else 0
    print(json.dumps(f, indent=1))
    print("this case is run again by the check itself")
    return 0
