"""What check.py does for each property."""

OPS = {2: "ay", 3: "am", 4: "ad", 5: "ah", 6: "an", 7: "as", 8: "drop", 9: "apply"}

ASSUMPTIONS = [
    "TLC and the Json and IOUtils community modules are right about what they evaluate.",
    "A bounded world stands for the unbounded one where the specification is checked by TLC; where it is proved (thorough tier), TLAPS and its back ends Z3, Zenon and Isabelle are right.",
    "The harness reports what the library returned; it does not judge it.",
]


# ---- what the specification itself is checked for ----
def cfg(constants, spec="Spec", invariants=(), properties=(), view=None):
    out = ["CONSTANTS"] + ["  " + c for c in constants] if constants else []
    out += ["SPECIFICATION " + spec, "CHECK_DEADLOCK FALSE"]
    if view:
        out.append("VIEW " + view)
    if invariants:
        out.append("INVARIANTS " + " ".join(invariants))
    if properties:
        out.append("PROPERTIES " + " ".join(properties))
    return "\n".join(out) + "\n"


def world(invariants, properties=(), size="quick"):
    spm, mph, hpd, lo, hi, tables = {
        "tiny": (2, 2, 2, 1970, 1972, "QuickTables"),
        "quick": (3, 2, 2, 1970, 1972, "QuickTables"),
        "wide": (3, 2, 2, 1969, 1973, "AllTables"),
        "long": (4, 3, 2, 1968, 1976, "AllTables"),
    }[size]
    return {
        "module": "MCMomentWorld", "checked": list(invariants) + list(properties), "workers": 6,
        "world": "every second of %d-%d, days of %d x %d x %d seconds, leap-second tables %s" % (lo, hi, hpd, mph, spm, tables),
        "cfg": cfg(["SPM = %d" % spm, "MPH = %d" % mph, "HPD = %d" % hpd, "MinYear = %d" % lo, "MaxYear = %d" % hi,
                    "Tables <- " + tables], invariants=["TypeOK"] + list(invariants), properties=properties),
    }


def programs(thorough):
    inv, prop = ["AlwaysExists", "CarrySmall", "NoExcess"], ["RestKept", "ApplyMovesOn", "FailKeeps"]
    return {
        "module": "MCMomentOps", "checked": inv + prop, "workers": 6,
        "world": "all programs of builds, additions and carry resolutions over two years of %d-second days" % (6 if thorough else 4),
        "cfg": cfg(["SPM = 2", "MPH = 1", "HPD = %d" % (3 if thorough else 2), "MinYear = 1971", "MaxYear = 1972", "Tab <- TabDef", "Starts <- StartsDef",
                    "YearArgs <- YearArgsDef", "MonthArgs <- MonthArgsDef", "DayArgs <- DayArgsDef", "HourArgs <- HourArgsDef",
                    "MinuteArgs <- MinuteArgsDef", "SecondArgs <- SecondArgsDef"], invariants=inv, properties=prop, view="View"),
    }


def builder(thorough):
    inv = ["BuildsWhatExists", "OneVerdict", "YearTooLate", "ReadsBack", "StartOfPeriod"]
    return {
        "module": "MCBuilder", "checked": inv + ["BuildKeeps"], "workers": 6,
        "world": "every sequence of setter calls and builds over small field values",
        "cfg": cfg(["SPM = 2", "MPH = 2", "HPD = 2", "MinYear = 1971", "MaxYear = 1972", "Tab <- TabDef",
                    "FieldValues <- FieldValuesDef"], invariants=inv, properties=["BuildKeeps"]),
    }


def timeline(invariants, thorough):
    return {
        "module": "MCTimelineWorld", "checked": list(invariants), "workers": 4,
        "world": "every instant and pair of instants of %d tick types of 3 to %d bits at scales 1, 2 and 6" % ((6, 6) if thorough else (4, 4)),
        "cfg": cfg(["Types <- " + ("BigTypesDef" if thorough else "TypesDef"), "Scales <- ScalesDef", "Low <- LowDef", "High <- HighDef"],
                   invariants=["TypeOK"] + list(invariants)),
    }


def days(thorough):
    last = 9999 if thorough else 100
    inv = ["TypeOK", "NumberOfDate", "DateOfNumber", "YearOfNumber", "DayOfYear", "Cycle", "Julian", "Anchor"]
    return {
        "module": "DayWalk", "checked": inv, "workers": 1, "world": "every day of the years 0-%d, one after the other" % last,
        "cfg": cfg(["FirstYear = 0", "LastYear = %d" % last], invariants=inv),
    }


BIGINT = {
    "module": "MCBigInt", "checked": ["exact integers against TLC's own"], "workers": 4, "world": "pairs of small and digit-boundary integers",
    "cfg": cfg([], invariants=["WellFormedResults", "AddCommutes", "SubUndoes", "MulDistributes", "MulCommutes", "OrderBySign", "DivBack"]),
}


def cursor(longest):
    inv = ["Inside", "ManyIsSingles", "SeesAll", "BackAndForth", "PeeksAgree"]
    return {
        "module": "CursorWorld", "checked": inv, "workers": 1, "world": "all positions in sequences of up to %d elements, all operations" % longest,
        "cfg": cfg(["MaxLen = %d" % longest, "Printing = TRUE"], invariants=inv, view="View"),
    }


def sharing(thorough, own_date=True):
    inv, prop = ["TypeOK", "LooksRight", "KnowsClock"], ["Undisturbed"]
    m = {
        "module": "MCSharing", "checked": inv + prop, "workers": 4,
        "world": "all interleavings of %s threads' lookups in a shared table and readings of a running clock" % ("three" if thorough else "two"),
        "cfg": cfg(["Threads = %s" % ("{1, 2, 3}" if thorough and own_date else "{1, 2}"), "Tab <- TabDef", "Days = %s" % ("{0, 2, 7}" if thorough else "{0, 1, 2, 4, 7}"),
                    "LastTick = %d" % (1 if thorough else 2), "OwnDate = %s" % str(own_date).upper()], invariants=inv, properties=prop),
    }
    if not own_date:
        m.update(fails="KnowsClock", checked=["KnowsClock"], world="the same with one broken-down date for all threads, as a law that must fail")
    return m


# ---- what is proved of the specification (by TLAPS, in the thorough tier) ----
TABLES_PROVED = ["Induction", "HalvingProofs", "LeapProofs"]
WORLD_PROVED = ["MomentProofs", "DayProofs", "SecondsProofs", "WorldProofs"]
PROOFS = {
    "C01": (["MomentProofs", "DayProofs", "SecondsProofs", "BuilderProofs"], ["BuildsShow", "BuiltAlways"]),
    "C02": (["MomentProofs", "DayProofs", "SecondsProofs", "BuilderProofs"], ["FieldsShow", "BuiltAlways"]),
    "C03": (["MomentProofs", "DayProofs", "SecondsProofs", "BuilderProofs"], ["BuiltAlways", "BuilderKept"]),
    "C05": (["MomentProofs"], ["Years", "YearsAreMonths"]),
    "C06": (WORLD_PROVED, ["Months", "MonthsCompose", "OrderKept"]),
    "C07": (WORLD_PROVED, ["Days", "DaysCompose", "NextDay", "OrderKept"]),
    "C08": (WORLD_PROVED, ["Minutes", "Hours", "OrderKept"]),
    "C09": (WORLD_PROVED, ["SecondsSound", "SecondsCompose", "SecondsCancel", "TicksTellApart", "SecondsRange", "SecondsReach", "TickIsSecond", "Order", "OrderKept"]),
    "C10": (WORLD_PROVED + ["ProgramProofs"], ["Years", "Months", "Days", "Minutes", "SecondsSound", "Carries", "Nothing", "AlwaysHolds", "AlwaysMovesOn"]),
    "C11": (WORLD_PROVED + ["ProgramProofs"], ["AlwaysKept"]),
    "C12": (["MomentProofs", "DayProofs", "SecondsProofs"], ["DayAtIs", "DayIsOne", "AccumulatedIs", "AccumulatedStep", "DeltaIs"]),
    "C13": (["MomentProofs", "DayProofs", "SecondsProofs"], ["ClockRuns"]),
    "C14": (["MomentProofs", "DayProofs", "SecondsProofs"], ["ClockRuns", "DaysFollow"]),
    "C15": (["TimelineProofs"], ["AddSub", "SubAdd", "EpochAdd", "AddReports"]),
    "C16": (["TimelineProofs"], ["FloorExists", "FloorGreatest", "FloorUnique", "FloorFits", "SplitParts", "ExtendFloor"]),
    "C17": (["TimelineProofs"], ["ConvertSame"]),
    "C18": (["TimelineProofs"], ["OrderAnti", "OrderSame", "OrderTransitive", "OrderExtended"]),
    "C19": (["TimelineProofs"], ["FloorQuotient", "CeilQuotient"]),
    "C20": (["CursorProofs"], ["Inside", "NoneIsNowhere", "OneMoreForth", "OneMoreBack", "TooMany", "BackAndForth", "PeeksAgree"]),
    "C21": (["GregorianProofs"], ["DateOfNumber", "NumberOfDate", "NumberOfNext"]),
    "C23": (WORLD_PROVED + ["ProgramProofs"], ["SecondsRange", "AlwaysKept"]),
    "C25": (["SharingProofs"], ["AsAlone", "NoneDisturbed"]),
    "C22": (["GregorianProofs"], ["DateOfNumber", "NumberOfDate", "NumberOfNext"]),
}


def proofs(prop):
    if prop not in PROOFS:
        return []
    modules, theorems = PROOFS[prop]
    if modules == ["SharingProofs"]:
        modules = TABLES_PROVED + modules
    if "MomentProofs" in modules:
        modules = TABLES_PROVED + ["GregorianProofs"] + modules
    return [{"proof": modules, "checked": theorems}]


def models(prop, thorough):
    """The worlds checked for a property, and in the thorough tier the proofs."""
    return worlds(prop, thorough) + (proofs(prop) if thorough else [])


def worlds(prop, thorough):
    size = "wide" if thorough else "quick"
    w = lambda inv, props=(), s=None: world(inv, props, s or size)  # noqa: E731
    m = {
        "C01": lambda: [builder(thorough), w(["FieldsShow"])],
        "C02": lambda: [builder(thorough), w(["FieldsShow", "FieldsDetermine"])],
        "C03": lambda: [builder(thorough)],
        "C04": lambda: [w(["FieldsDetermine"])],
        "C05": lambda: [w(["YearLaw"])],
        "C06": lambda: [w(["MonthLaw", "MonthsCompose", "OrderKept"], s="wide" if thorough else "tiny")],
        "C07": lambda: [days(thorough), w(["DayLaw", "DaysOneByOne", "DaysCompose", "DayAfter"], s="wide" if thorough else "tiny")],
        "C08": lambda: [w(["MinuteLaw", "HourLaw"])],
        "C09": lambda: [w(["ElapsedCounts", "ElapsedDenotes", "SecondsFromGenesis", "SecondsFromEpoch", "SecondsBack", "SecondsRange", "SecondsCancel", "SecondsReach", "SecondsEnds", "OneSecond", "Order"], ["TickIsSecond"])]
        + ([w(["SecondsCompose"], s="tiny")] if thorough else []),
        "C10": lambda: [w(["AllSound", "CarriesMove", "NoCarryNoMove", "NothingMoves"], s="wide" if thorough else "tiny")] + ([programs(True)] if thorough else []),
        "C11": lambda: [programs(thorough)],
        "C12": lambda: [w(["TableLookups", "ElapsedCounts", "ElapsedDenotes", "ClockAgrees", "FieldsShow"], s="long" if thorough else "quick")],
        "C13": lambda: [w(["ClockAgrees", "ClockRuns", "TableLookups"], s="long" if thorough else "quick")],
        "C14": lambda: [w(["ClockAgrees", "SecondsFromEpoch", "ElapsedCounts"], s="long" if thorough else "quick")],
        "C15": lambda: [timeline(["AddSub", "SubAdd", "EpochAdd"], thorough), BIGINT],
        "C16": lambda: [timeline(["FloorOnce", "FloorBelow", "SplitParts", "ExtendFloor"], thorough), BIGINT],
        "C17": lambda: [timeline(["ConvertSame"], thorough), BIGINT],
        "C18": lambda: [timeline(["OrderTotal", "OrderTransitive"], thorough), BIGINT],
        "C19": lambda: [timeline(["DivideRounds"], thorough), BIGINT],
        "C20": lambda: [],
        "C21": lambda: [days(thorough)],
        "C22": lambda: [days(thorough)],
        "C23": lambda: [w(["SecondsRange", "SecondsEnds", "YearLaw"]), builder(thorough)],
        "C24": lambda: [programs(thorough), w(["FieldsDetermine"])],
        "C25": lambda: [sharing(thorough), sharing(thorough, False)],
    }
    return m[prop]()


# ---- how it is bound to the code ----
def dt(driver, shards=(8, 48)):
    return {"driver": driver, "bin": "dt", "spec": "TraceDT", "shards": shards}


def own(driver, tables=(11, 66), shards=(8, 48)):
    """The same driver with leap-second tables of our own making, one process each."""
    return {"driver": driver, "bin": "dt", "spec": "TraceDT", "tables": tables, "shards": shards}


def both(driver):
    return [dt(driver), own(driver)]


def tl(driver, shards=(8, 48)):
    return {"driver": driver, "bin": "tl", "spec": "TraceTL", "shards": shards}


def hooked(driver, spec, shards=(8, 48)):
    return {"driver": driver, "bin": "hooked", "spec": spec, "shards": shards}


# a process whose system clock counts leap seconds, as its C library's calendar has it
COUNTING = {"args": ("--counting", "1"), "env": {"TZ": "right/UTC"}}
ELSEWHERE = {"args": ("--local", "1"), "env": {"TZ": "AAA3:30BBB"}}
CLOCKS = [dt("c22now", (4, 16)), own("c22now", (6, 44), (4, 16)), dict(dt("c22now", (2, 16)), **ELSEWHERE),
          dict(dt("c22now", (2, 16)), **COUNTING), dict(own("c22now", (8, 66), (4, 16)), **COUNTING)]

def threads(n, runs=(40, 400), shards=(4, 16)):
    return {"driver": "threads", "bin": "threads", "spec": "TraceDT", "threads": n, "runs": runs, "shards": shards}


SHARED = [threads(8), dict(threads(3, shards=(2, 16)), **COUNTING), dict(threads(16, shards=(4, 16)), tables=(6, 44))]

TABLES = own("c12", (44, 440), (1, 1))
# runs: (generator runs, behaviours in each), quick and thorough
GEN_OPS = {"driver": "replay-ops", "bin": "dt", "module": "GenMomentOps", "length": 30, "width": 14, "runs": ((4, 300), (40, 3000))}
GEN_BUILDER = {"driver": "replay-builder", "bin": "dt", "module": "GenBuilder", "length": 40, "width": 12, "runs": ((4, 300), (40, 3000))}
ALL_CURSORS = {"driver": "replay-cursor", "bin": "hooked", "exhaustive": True, "width": 9, "model": cursor(7), "runs": ((1, 0), (1, 0))}

VALUE = ["outcome", "fields", "carry", "nanosecond", "precision", "panic", "unchecked_value"]
BUILD = ["build_outcome", "build_panic", "build_fields", "build_nanosecond", "build_precision", "build_unchecked_.*", "build_again", "build_fresh"]


def p(aspects, drivers, generators=(), **more):
    return dict(aspects=aspects, drivers=list(drivers), generators=list(generators), **more)


PROPERTIES = {
    "C01": p(["build_outcome", "build_panic"], both("c01"), [GEN_BUILDER]),
    "C02": p(["build_fields", "build_nanosecond", "build_precision"], both("c02"), [GEN_BUILDER]),
    "C03": p(BUILD, both("c03"), [GEN_BUILDER]),
    "C04": p(["equality"], both("c04")),
    "C05": p(VALUE, both("c05"), [GEN_OPS], ops=["ay"]),
    "C06": p(VALUE, both("c06"), [GEN_OPS], ops=["am"]),
    "C07": p(VALUE, both("c07"), [GEN_OPS], ops=["ad"]),
    "C08": p(VALUE, both("c08"), [GEN_OPS], ops=["ah", "an"]),
    "C09": p(VALUE, both("c09"), [GEN_OPS], ops=["as"]),
    "C10": p(["outcome", "panic", "fields", "carry", "has_carry", "unwrap", "drop", "apply", "apply_panic", "apply_fields", "apply_unchecked"], both("c10"), [GEN_OPS]),
    "C11": p(["nanosecond", "precision", "apply_nanosecond", "apply_precision", "equal_start", "kept"], both("c11"), [GEN_OPS]),
    "C12": p(None, [TABLES]),
    "C13": p(["sys.*"], both("c13")),
    "C14": p(["agree"], both("c14")),
    "C15": p(None, [tl("c15")]),
    "C16": p(None, [tl("c16")]),
    "C17": p(None, [tl("c17")]),
    "C18": p(None, [tl("c18")]),
    "C19": p(None, [tl("c19")]),
    "C20": p(None, [hooked("c20", "TraceCursor")], [ALL_CURSORS]),
    "C21": p(None, [hooked("c21", "TraceCivil")]),
    "C22": p(None, [hooked("c22", "TraceCivil")] + CLOCKS),
    "C23": p(["panic", "outcome", "apply", "apply_panic", "apply_unchecked", "unchecked_.*", "build_outcome", "build_panic", "build_unchecked_.*"], both("c23"), [GEN_OPS, GEN_BUILDER]),
    "C24": p(["equal_built", "fields", "carry", "nanosecond", "precision", "outcome", "kept"], both("c24"), [GEN_OPS]),
    "C25": p(None, SHARED),
}
