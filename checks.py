"""The pipelines of the individual properties."""
import json

from check import Broken

CHECKS = {}
TECH = {}
LEVEL_NOTE = {}


def check(pid):
    def d(f):
        CHECKS[pid] = f
        return f
    return d


# ----------------------------------------------------------------- periods
def periods(c, what, verdict):
    c.build()
    # 1. the rules themselves: every edit history within the bounds
    c.design("PeriodsMC", "SPECIFICATION SpecEdit\nCONSTANTS MaxP = 2 Vals = {%s} MVals = {3}\nINVARIANT Inv\n"
             % ("0, 2" if c.thorough else "2"), name="edits",
             timeout=700)
    # 2. every document state with up to 3 periods, exported with its answers
    r = c.design("PeriodsMC", "SPECIFICATION SpecAll\nCONSTANTS MaxP = 3 Vals = {%s} MVals = {%s}\nINVARIANT Inv Export\n"
                 % (("0, 2, 5", "0, 6") if c.thorough else ("0, 2", "6")), name="docs", timeout=700)
    c.harness("periods-replay", c.export(r, "cases"), c.p("replay.out"), what)
    c.replayed(c.p("replay.out"), "document states")
    r = c.design("PeriodsMC", "SPECIFICATION SpecEdit\nCONSTANTS MaxP = 2 Vals = {2} MVals = {3}\nINVARIANT Inv Export\n",
                 name="edits-export", timeout=700)
    c.harness("periods-replay", c.export(r, "cases2"), c.p("replay2.out"), what)
    c.replayed(c.p("replay2.out"), "edited states (detached, foreign, unparented periods)")
    # 3. recorded editing sessions judged by TLC
    c.harness("periods-record", c.p("sessions.ndjson"))
    c.judge("PeriodsTrace", verdict, c.p("sessions.ndjson"))


@check("C10")
def c10(c):
    periods(c, "start", "StartVerdict")


@check("C11")
def c11(c):
    periods(c, "dur", "DurVerdict")


@check("C12")
def c12(c):
    periods(c, "type", "TypeVerdict")


# --------------------------------------------------------------- durations
@check("C13")
def c13(c):
    c.build()
    for name, cfg in (("strings", "SPECIFICATION SpecAll\nCONSTANTS MaxLen = %d Mode = 1\nINVARIANT Laws SelfRender Export\n" % (6 if c.thorough else 5)),
                      ("pieces", "SPECIFICATION SpecOdd\nCONSTANTS MaxLen = 3 Mode = 1\nINVARIANT Laws SelfRender Export\n"),
                      ("forms", "SPECIFICATION SpecForm\nCONSTANTS MaxLen = 4 Mode = %d\nINVARIANT Laws SelfRender ExportForm\n" % (2 if c.thorough else 1))):
        r = c.design("DurationsMC", cfg, name=name, timeout=800)
        c.harness("dur-replay", c.export(r, name + ".cases"), c.p(name + ".out"))
        c.replayed(c.p(name + ".out"), name)
    c.harness("dur-record", c.p("dur.ndjson"))
    c.judge("DurationsTrace", "ParseVerdict", c.p("dur.ndjson"))


@check("C14")
def c14(c):
    c.build()
    c.design("DurationsMC", "SPECIFICATION SpecForm\nCONSTANTS MaxLen = 4 Mode = %d\nINVARIANT Laws SelfRender\n" % (2 if c.thorough else 1), name="forms", timeout=800)
    c.harness("render-record", c.p("render.ndjson"))
    c.judge("DurationsTrace", "RenderVerdict", c.p("render.ndjson"))


@check("C15")
def c15(c):
    c.build()
    if c.thorough:
        c.design("DateTimesMC", "SPECIFICATION Spec\nCONSTANTS Years <- %s\nINVARIANT Laws\n" % "AllYears", name="calendar", timeout=880)
    r = c.design("DateTimesMC", "SPECIFICATION Spec\nCONSTANTS Years <- %s\nINVARIANT Laws Export\n" % ("SomeYears" if c.thorough else "FewYears"), name="calendar-export", timeout=880)
    c.harness("dt-replay", c.export(r, "dt.cases"), c.p("dt.out"))
    c.replayed(c.p("dt.out"), "calendar")
    c.harness("dt-record", c.p("dt.ndjson"))
    c.judge("DateTimesTrace", "Verdict1", c.p("dt.ndjson"))


# --------------------------------------------------------------- documents
DOCLAWS = "SPECIFICATION Spec\nINVARIANTS Reflexive Exclusive Decided NoiseFree NoHom Sharp Reached Export\n"


def doc_cases(c, laws=True):
    """the schema and every document of the walk through it"""
    r = c.design("DocMC", DOCLAWS if laws else "SPECIFICATION Spec\nINVARIANTS Export\n", name="documents", timeout=600)
    return c.export(r, "cases.nd")


def docs(c, mode, verdict, cases=None):
    f = c.p("docs-%s.nd" % mode)
    c.harness("doc-record", cases or doc_cases(c), f, mode, timeout=700)
    c.judge("DocTrace", verdict, f, name="%s-%s" % (verdict, mode), timeout=800, heap="12g")


@check("C01")
def c01(c):
    c.build()
    docs(c, "round", "RoundVerdict")
    c.harness("built-record", c.p("built.nd"))
    c.judge("DocTrace", "BuiltVerdict", c.p("built.nd"), heap="12g", timeout=800)


@check("C02")
def c02(c):
    c.build()
    f = c.p("rewrite.nd")
    c.harness("rewrite-record", doc_cases(c), f, timeout=700)
    c.judge("DocTrace", "RewriteVerdict", f, heap="12g", timeout=800)


@check("C03")
def c03(c):
    c.build()
    cases = doc_cases(c)
    docs(c, "ns", "NsVerdict", cases)
    c.harness("built-ns-record", c.p("built.nd"))
    c.judge("DocTrace", "NsVerdict", c.p("built.nd"), name="NsVerdict-built", heap="12g", timeout=800)
    if c.thorough:
        docs(c, "scte", "NsVerdict", cases)


@check("C04")
def c04(c):
    c.build()
    docs(c, "noise", "NoiseVerdict")


# ----------------------------------------------------------------- package xml
XMLLAWS = "INVARIANTS Balanced Forward Streamed Again Lenient Uniform Export\n"


@check("C17")
def c17(c):
    c.build()
    bounds = [(3, 46, 1, "fragments3"), (4, 16, 1, "fragments4")]
    if c.thorough:
        bounds = [(3, 46, 1, "fragments3"), (4, 26, 1, "fragments4"), (5, 10, 1, "fragments5"), (4, 38, 20, "fragments4b")]
    for maxf, nf, frm, name in bounds:
        r = c.design("XmlMC", "SPECIFICATION Spec\nCONSTANTS MaxF = %d NF = %d From = %d\n" % (maxf, nf, frm) + XMLLAWS,
                     name=name, timeout=800, heap="12g")
        c.harness("xml-replay", c.export(r, name + ".cases"), c.p(name + ".out"))
        c.replayed(c.p(name + ".out"), name)
    f = c.p("texts.nd")
    c.harness("xml-record", doc_cases(c, laws=False), f)
    c.judge("XmlTrace", "Both", f, timeout=800, heap="12g")


@check("C20")
def c20(c):
    c.build()
    r = c.design("Scte", "SPECIFICATION Spec\nINVARIANTS Found Export\nPROPERTY Wrapped\n", name="events")
    c.harness("scte-replay", c.export(r, "scte.cases"), c.p("scte.out"))
    c.replayed(c.p("scte.out"), "events, schemes and constructors")
    docs(c, "scte", "RoundVerdict")


@check("C21")
def c21(c):
    c.build()
    # which texts are documents at all
    for maxf, nf, name in ([(3, 25, "texts3"), (4, 17, "texts4")] if c.thorough else [(3, 25, "texts3")]):
        r = c.design("RejectMC", "SPECIFICATION Spec\nCONSTANTS MaxF = %d NF = %d\nINVARIANTS Laws Uniform Export\n" % (maxf, nf),
                     name=name, timeout=800, heap="12g")
        c.harness("reject-replay", c.export(r, name + ".cases"), c.p(name + ".out"))
        c.replayed(c.p(name + ".out"), name)
    # which strings are values of which attributes
    cases = doc_cases(c, laws=False)
    r = c.design("ValuesMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Long = %d\nINVARIANTS Laws Export\n" % ((5, 2) if c.thorough else (4, 1)),
                 name="values", timeout=800, heap="12g")
    c.harness("values-replay", cases, c.export(r, "values.cases"), c.p("values.out"))
    c.replayed(c.p("values.out"), "values in every place of the schema")
    f = c.p("rejects.nd")
    c.harness("reject-record", cases, f)
    c.judge("RejectTrace", "Verdict21", f, timeout=800, heap="12g")


# ------------------------------------------------------------- the element tree
TREEOPS = 'Ops = {"append", "insert", "drop", "link", "setall", "clone", "reread", "val"}'


def tree(c, what, verdict):
    hist = [(3, "{1, 2, 3}", TREEOPS, "histories3")] if c.thorough else [
        (2, "{1, 2, 3}", TREEOPS, "histories2"),
        (3, "{2}", 'Ops = {"append", "setall", "clone", "reread", "link"}' if what == "links" else 'Ops = {"insert", "drop", "clone", "val"}', "histories3")]
    for n, start, ops, name in hist:
        r = c.design("TreeMC", "SPECIFICATION Spec\nCONSTANTS Max = %d Start = %s %s\nINVARIANTS Laws Export\nPROPERTY Apart\n" % (n, start, ops),
                     name=name, timeout=800, heap="12g")
        c.harness("tree-replay", c.export(r, name + ".cases"), c.p(name + ".out"), what)
        c.replayed(c.p(name + ".out"), name)
    f = c.p("sessions.nd")
    c.harness("tree-record", f)
    c.judge("TreeTrace", verdict, f, timeout=800, heap="12g")


@check("C08")
def c08(c):
    c.build()
    tree(c, "links", "LinkVerdict")


@check("C09")
def c09(c):
    c.build()
    # a clone that shares no memory with the original is independent of it
    c.design("Heap", "SPECIFICATION Spec\nCONSTANTS NCells = 5 Shared = FALSE\nINVARIANT StaysApart\nPROPERTY OneSees\n", name="heap", timeout=600)
    tree(c, "copies", "CopyVerdict")
    f = c.p("clones.nd")
    c.harness("clone-record", doc_cases(c, laws=False), f)
    c.judge("CloneTrace", "CloneVerdict", f, timeout=800, heap="12g")


# ----------------------------------------------------------------- writing
@check("C06")
def c06(c):
    c.build()
    c.design("Sink", 'SPECIFICATION Spec\nCONSTANTS Sizes = {0, 1, 3, %d} MaxCalls = %d Errors = {"", "E1", "E2"}\nINVARIANTS CountExact Complete FirstError\n'
             % ((7, 5) if c.thorough else (5, 4)), name="contract")
    r = c.design("SinkPlan", "SPECIFICATION Spec\nCONSTANTS MaxCalls = %d\nINVARIANT Export\n" % (4 if c.thorough else 3), name="plans")
    f = c.p("sink.nd")
    c.harness("sink-record", c.export(r, "plans.nd"), f)
    c.judge("SinkTrace", "SinkVerdict", f, timeout=800, heap="12g")


@check("C07")
def c07(c):
    c.build()
    inv = "INVARIANTS Clean Exclusive Apart Forgets"
    c.design("Pool", "SPECIFICATION Spec\nCONSTANTS Threads = {1, 2} Encs = {1, 2%s} MaxLen = 0 Missing = {}\n%s\n" % (", 3" if c.thorough else "", inv), name="pool")
    r = c.design("Pool", "SPECIFICATION LogSpec\nCONSTANTS Threads = {1} Encs = {1} MaxLen = %d Missing = {}\n%s Export\n" % (4 if c.thorough else 3, inv),
                 name="uses", timeout=800, heap="12g")
    f = c.p("uses.nd")
    c.harness("pool-replay", c.export(r, "uses.cases"), f)
    c.judge("PoolTrace", "FuncVerdict", f)
    f = c.p("histories.nd")
    c.harness("pool-record", f)
    c.judge("PoolTrace", "FuncVerdict", f, timeout=800, heap="12g")
    # goroutines, under the race detector; every process starts with nothing cached
    c.build(race=True)
    runs = []
    for i in range(24 if c.thorough else 6):
        f = c.p("stress%d.nd" % i)
        if c.harness("pool-stress", f, env_extra={"VV_RUN": str(c.seed * 1000 + i), "GORACE": "halt_on_error=1 exitcode=66"}) is not None:
            runs.append(json.loads(open(f).read()))
    if runs:
        f = c.p("stress.nd")
        with open(f, "w") as o:
            for x in runs:
                o.write(json.dumps(x) + "\n")
            # and all of them together: the order of events does not matter either
            obs = {}
            for x in runs:
                for e in x["obs"]:
                    obs[(e["k"], e["d"])] = e
            keys = sorted(obs)
            for i in range(0, len(keys), 300):
                o.write(json.dumps({"id": "all:%d" % i, "acts": [], "pan": "", "changed": "", "obs": [obs[k] for k in keys[max(0, i - 4):i + 300]]}) + "\n")
        c.judge("PoolTrace", "FuncVerdict", f)


# ----------------------------------------------------- inheritance, templates
@check("C16")
def c16(c):
    c.build()
    r = c.design("LookupMC", "SPECIFICATION SpecT\nCONSTANTS Mode = 1 MaxLen = %d NF = %d\nINVARIANTS Laws1 Export1\n" % ((4, 14) if c.thorough else (3, 16)),
                 name="templates", timeout=800, heap="12g")
    c.harness("lookup-replay", c.export(r, "templates.cases"), c.p("templates.out"), "templates")
    c.replayed(c.p("templates.out"), "templates")
    r = c.design("LookupMC", "SPECIFICATION Spec2\nCONSTANTS Mode = 2 MaxLen = %d NF = 1\nINVARIANTS Laws2 Export2\n" % (3 if c.thorough else 2),
                 name="inheritance", timeout=800)
    c.harness("lookup-replay", c.export(r, "inherit.cases"), c.p("inherit.out"), "inherit")
    c.replayed(c.p("inherit.out"), "inheritance")
    f = c.p("sessions.nd")
    c.harness("lookup-record", f)
    c.judge("LookupTrace", "LookVerdict", f, timeout=800, heap="12g")


# ------------------------------------------------------------- character data
@check("C05")
def c05(c):
    c.build()
    cases = doc_cases(c, laws=False)
    for mode, n, nl, name, what in ([(1, 3, 24, "strings", "write"), (2, 3, 29, "spellings", "read")] +
                                    ([(1, 5, 8, "strings5", "write"), (2, 4, 15, "spellings4", "read")] if c.thorough else [])):
        r = c.design("TextMC", "SPECIFICATION Spec\nCONSTANTS Mode = %d MaxLen = %d NL = %d\nINVARIANTS Laws%d Export%d\n" % (mode, n, nl, mode, mode),
                     name=name, timeout=800, heap="12g")
        c.harness("text-replay", cases, c.export(r, name + ".cases"), c.p(name + ".out"), what)
        c.replayed(c.p(name + ".out"), name)
    f = c.p("strings.nd")
    c.harness("text-record", cases, f)
    c.judge("TextTrace", "TextVerdict", f, timeout=800, heap="12g")


# ------------------------------------------------------------------- builders
@check("C22")
def c22(c):
    c.build()
    r = c.design("Profiles", "SPECIFICATION Spec\nCONSTANTS MaxL = %d MaxP = %d\nINVARIANTS Laws Export\n" % ((7, 3) if c.thorough else (5, 3)), name="profiles")
    c.harness("profile-replay", c.export(r, "profiles.cases"), c.p("profiles.out"))
    c.replayed(c.p("profiles.out"), "profile lists")
    r = c.design("BuildMC", "SPECIFICATION Spec\nCONSTANTS Max = %d Big2 = %s\nINVARIANTS Laws Export\nPROPERTY Stays\n" % ((3, "FALSE") if c.thorough else (2, "TRUE")),
                 name="operations", timeout=800, heap="12g")
    f = c.p("enumerated.nd")
    c.harness("build-replay", c.export(r, "operations.cases"), f)
    c.judge("BuildTrace", "BuildVerdict", f, timeout=800, heap="12g")
    f = c.p("sessions.nd")
    c.harness("build-record", f)
    c.judge("BuildTrace", "BuildVerdict", f, timeout=800, heap="12g")
    f = c.p("seconds.nd")
    c.harness("seconds-record", f)
    c.judge("BuildTrace", "SecVerdict", f)


# ----------------------------------------------------------------- the encoder
@check("C18")
def c18(c):
    c.build()
    core = [1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 14, 15, 17]
    runs = [(2, range(1, 54), "pairs"), (3, core + [9, 19, 22, 23], "triples")]
    if c.thorough:
        runs = [(2, range(1, 54), "pairs"), (3, range(1, 31), "triples"), (4, core[:10], "quadruples"), (5, [2, 3, 5, 7, 13, 19], "quintuples")]
    for n, letters, name in runs:
        r = c.design("EncMC", "SPECIFICATION Spec\nCONSTANTS MaxLen = %d Letters = {%s}\nINVARIANTS Laws Export\n" % (n, ",".join(map(str, letters))),
                     name=name, timeout=800, heap="12g")
        f = c.p(name + ".nd")
        c.harness("enc-replay", c.export(r, name + ".cases"), f)
        c.judge("EncTrace", "EncTraceVerdict", f, timeout=800, heap="12g")
    f = c.p("sessions.nd")
    c.harness("enc-record", f)
    c.judge("EncTrace", "EncTraceVerdict", f, timeout=800, heap="12g")


@check("C19")
def c19(c):
    c.build()
    runs = [(2, c.thorough, "types")]
    if c.thorough:
        runs.append((3, False, "types3"))
    for n, full, name in runs:
        r = c.design("TagsMC", "SPECIFICATION Spec\nCONSTANTS Max = %d Full = %s\nINVARIANTS Laws Uniform Export\n" % (n, "TRUE" if full else "FALSE"),
                     name=name, timeout=800, heap="12g")
        f = c.p(name + ".nd")
        c.harness("tags-replay", c.export(r, name + ".cases"), f)
        c.judge("TagsTrace", "TagVerdict", f, timeout=800, heap="12g")
    r = c.design("TagTextMC", "SPECIFICATION Spec\nCONSTANTS MaxFlags = %d\nINVARIANTS Laws Export\n" % (3 if c.thorough else 2), name="texts", timeout=600)
    f = c.p("texts.nd")
    c.harness("tags-replay", c.export(r, "texts.cases"), f)
    c.judge("TagsTrace", "TagVerdict", f, timeout=800, heap="12g")
    r = c.design("ShapesMC", "SPECIFICATION Spec\nCONSTANTS Max = %d\nINVARIANTS Laws Export\n" % (3 if c.thorough else 2), name="shapes", timeout=600)
    f = c.p("shapes.nd")
    c.harness("shapes-replay", c.export(r, "shapes.cases"), f)
    c.judge("ShapesTrace", "ShapeVerdict", f, timeout=600)
    for i in range(4 if c.thorough else 1):
        f = c.p("values%d.nd" % i)
        c.harness("tags-record", f, str(i))
        c.judge("TagsTrace", "TagVerdict", f, timeout=800, heap="12g")
