"""What each property's check runs: harness, entry, parameters, bounds."""

ASSUMPTIONS = [
    "The encoded program is LLVM IR that rustc (release profile, opt-level 1, overflow checks on, panic=abort) emits for /repo's sources, "
    "their dependencies and the parts of std that are linked in, plus the harness; the IR semantics of the engine are trusted, and spot-checked by replaying sampled paths natively.",
    "Allocation never fails; addresses are concrete; hash seeds are one fixed value; the environment has no variables set; log output is off.",
    "Operating system calls go to an in-memory file system model (regular files, directories, /dev/full); nothing else runs concurrently.",
]

SPECS = {}


def spec(prop, bounds, outside, runs, **kw):
    SPECS[prop] = dict(bounds=bounds, outside=outside, runs=runs, **kw)


def run(bin, entry, need, tiers=("quick", "thorough"), bound="", samples=6, **params):
    return dict(bin=bin, entry=entry, need=need, tiers=tiers, bound=bound, samples=samples, params=params)


T = ("thorough",)
Q = ("quick", "thorough")

# ---------------------------------------------------------------- tracing
TRACE_BOUNDS = ("requirement graphs of 1 to 4 artefacts in fifteen relation shapes (one lower, two or three lowers, two relations, chains, joins, cycles, an artefact related to itself, "
                "lower sorting before upper); per artefact up to 2 requirements with up to 2 covers and 2 depends references in total; "
                "every requirement and reference id symbolic: a letter and an arbitrary printable byte, in some runs also the letter alone (all equalities and orders between ids); titles absent, empty or one arbitrary printable byte; each reference in a line of its own or several in one line")
TRACE_OUTSIDE = "larger graphs; other relation shapes; ids that are repeated between artefacts (except where duplicates are the property)"


def G(shape, tiers=Q, **p):
    """one family of graphs; references not mentioned do not exist"""
    for a in "ABC":
        p.setdefault("c" + a, 0)
        p.setdefault("d" + a, 0)
    return shape, tiers, p


GRAPHS = [
    G(0, nA=2, nB=1, cB=1, dA=1),
    G(0, nA=2, nB=2, cB=1),
    G(0, nA=1, nB=2, cB=1, dA=1),
    G(0, T, nA=2, nB=2, cB=1, dA=1),
    G(0, nA=1, nB=3, cB=1),
    G(0, nA=3, nB=1, cB=2),
    G(0, nA=1, nB=1, cB=1, dA=1, cA=1, dB=1, idlen=1),
    G(1, nA=1, nB=1, nC=1, cB=1, dA=2),
    G(1, nA=1, nB=1, nC=1, cB=1, cC=1),
    G(2, nA=1, nB=1, nC=1, cC=1, dA=2),
    G(1, T, nA=1, nB=1, nC=1, cB=1, cC=1, dA=2),
    G(2, T, nA=1, nB=1, nC=1, cB=1, cC=1, dA=2),
    G(3, nA=1, nB=1, nC=1, cB=1, cC=1, dA=1, dB=1),
    G(4, nA=1, nB=1, nC=1, cC=2, dA=1),
    G(4, T, nA=1, nB=1, nC=1, cC=2, dA=1, dB=1),
    G(5, nA=1, nB=1, cB=1, cA=1, dA=1, dB=1),
    G(5, nA=1, nB=2, cA=2, dB=1),
    G(6, nA=1, nB=1, nC=1, cA=1, cC=1, dB=1),
    G(6, T, nA=1, nB=1, nC=1, cA=1, cC=1, dB=2),
    G(7, nA=1, nB=1, nC=1, cB=1, cC=1, dA=1),
    G(8, nA=1, nB=1, nC=1, cA=1, cB=1, dA=1, dC=1),
    G(0, T, nA=2, nB=2, cB=2, dA=1),
    G(0, T, nA=2, nB=2, cB=1, dA=2),
    G(0, T, nA=3, nB=3, cB=1),
    G(1, T, nA=2, nB=1, nC=1, cB=1, cC=1, dA=1),
    G(3, T, nA=2, nB=1, nC=1, cB=1, cC=1, dA=1, dB=1),
    G(7, T, nA=1, nB=1, nC=2, cB=1, cC=1, dA=1),
    G(8, T, nA=2, nB=1, nC=1, cA=1, cB=1, dA=1, dC=1),
    G(11, nA=2, cA=1, dA=1),
    G(12, nA=1, nB=1, cA=1, cB=1),
    G(13, nA=1, nB=1, nC=1, cB=1, cC=1, dA=1),
    G(0, arts=3, nA=1, nB=1, nC=1, cB=1, cC=1),
    G(0, nA=2, nB=1, cB=2, oneline=1),
    G(1, nA=1, nB=1, nC=1, dA=2, oneline=1),
    G(0, T, nA=2, nB=2, cB=2, oneline=1),
    G(9, T, nA=1, nB=1, nC=1, cB=1, cC=1),
    G(9, T, nA=1, nB=1, nC=1, cB=1, dA=2),
    G(10, T, nA=1, nB=1, nC=1, cB=1, cC=1),
    G(10, T, nA=1, nB=1, nC=1, dB=1, cC=1, dA=1),
    G(14, T, nA=1, nB=1, cB=1, dA=1),
]
# with titles each requirement and reference has two or three more cases
TITLED = [
    G(0, nA=1, nB=1, cB=1, dA=1, titles=2),
    G(0, nA=1, nB=2, cB=1),
    G(0, nA=2, nB=1, cB=2),
    G(0, nA=1, nB=1, dA=2, oneline=1),
    G(0, T, nA=2, nB=1, cB=2, oneline=1),
    G(0, nA=2, nB=1, dA=1),
    G(1, nA=1, nB=1, nC=1, dA=1),
    G(2, nA=1, nB=1, nC=1, cC=1),
    G(1, T, nA=1, nB=1, nC=1, cB=1, dA=1),
    G(2, T, nA=1, nB=1, nC=1, cC=1, dA=1),
    G(3, nA=1, nB=1, nC=1, cC=1, dA=1),
    G(5, nA=1, nB=1, cA=1, dB=1),
    G(0, T, nA=2, nB=2, cB=1, dA=1),
    G(4, T, nA=1, nB=1, nC=1, cC=1, dA=1, dB=1),
    G(7, T, nA=1, nB=1, nC=1, cB=1, cC=1, dA=1),
    G(8, T, nA=1, nB=1, nC=1, cA=1, dA=1, dC=1),
]


def shapes(prop, need, graphs=GRAPHS, **kw):
    r = []
    for s, tiers, p in graphs:
        r.append(run("trace", "h_trace", [], tiers, prop=prop, shape=s, **{**kw, **p}))
    # the labels only have to be reached somewhere: ask the first run
    r[0]["need"] = need
    return r


spec("C01", TRACE_BOUNDS, TRACE_OUTSIDE, shapes(1, ["covered downwards", "covered upwards", "nothing covered", "several coverages"]))
spec("C02", TRACE_BOUNDS, TRACE_OUTSIDE, shapes(2, ["covered", "uncovered"]))
IGNORING = [
    G(0, nA=1, nB=1, cB=1, dA=1, cA=1, dB=1, idlen=1),
    G(0, nA=2, nB=2, cB=1),
    G(3, nA=1, nB=1, nC=1, cB=1, cC=1),
    G(8, nA=1, nB=1, nC=1, dA=1, dC=1),
]
spec("C03", TRACE_BOUNDS, TRACE_OUTSIDE,
     shapes(3, ["derived", "covers something", "ignored"], IGNORING, flags=1) + shapes(3, ["derived", "covers something"]))
spec("C04", TRACE_BOUNDS, TRACE_OUTSIDE, shapes(4, ["resolved", "dangling"]))
spec("C05", TRACE_BOUNDS, TRACE_OUTSIDE, shapes(5, ["wrong title", "missing title", "right title"], TITLED, flags=2, titles=1))
spec("C06", TRACE_BOUNDS, TRACE_OUTSIDE, shapes(6, ["duplicate", "several duplicates", "unique"]))
spec("C07", TRACE_BOUNDS, TRACE_OUTSIDE, shapes(7, ["used", "unused"]))

# ---------------------------------------------------------------- what the controller adds to the tracing
SPECS["C06"]["runs"] += [
    run("ctl", "h_within", ["first", "repeated", "several repetitions"], ids=26, reqs=3),
    run("ctl", "h_within", [], T, ids=26, reqs=4),
]
SPECS["C05"]["runs"] += [run("ctl", "h_within", ["without title"], ids=26, reqs=2)]
IGNORE_LABELS = ["not set, below nothing", "not set, below something", "set"]


def no_refs(**p):
    for a in "ABC":
        p.setdefault("c" + a, 0)
        p.setdefault("d" + a, 0)
    p.setdefault("ids", 26)
    return p


SPECS["C03"]["runs"] += [run("ctl", "h_ignore", IGNORE_LABELS, **no_refs(shape=0, nA=1, nB=1, cB=1))] + [
    run("ctl", "h_ignore", [], **no_refs(shape=s, nA=1, nB=1, nC=1)) for s in (1, 3, 4, 5, 6, 7, 8)] + [
    run("ctl", "h_ignore", [], **no_refs(shape=99, arts=2, nA=1, nB=1)), run("ctl", "h_ignore", [], **no_refs(arts=3, nA=1, nB=1, nC=1, cC=1))]

# ---------------------------------------------------------------- verdict and jobs
spec("C08", "projects of 2 to 3 artefacts written as files in the in-memory file system, up to 2 requirements per artefact and 2 references, symbolic ids; every combination of missing and malformed files, "
     "repeated ids, title and ignore settings; trace jobs in each supported format",
     "larger projects; source formats other than JSON (C10, C19); problems of the configuration (C23)",
     [
         run("ctl", "h_verdict", ["nothing wrong", "only: uncovered", "only: derived", "only: dangling", "only: unused relation", "several problems"], **no_refs(nA=1, nB=1, dA=1, cB=1)),
         run("ctl", "h_verdict", ["only: duplicate"], **no_refs(nA=2, nB=2, cB=1)),
         run("ctl", "h_verdict", ["only: title", "requirement without title"], **no_refs(nA=1, nB=1, cB=1, titles=1, plain=1, **{"with": 3})),
         run("ctl", "h_verdict", ["artefact with a bad file"], **no_refs(nA=1, nB=1, cB=1, ignore=3, faults=3)),
         run("ctl", "h_verdict", ["repeated id in an artefact", "only: artefact"], **no_refs(nA=2, nB=1, cB=2, dups=3)),
         run("ctl", "h_verdict", [], **no_refs(shape=3, nA=1, nB=1, nC=1, cB=1, cC=1, ignore=4)),
         run("ctl", "h_verdict", [], **no_refs(shape=1, nA=1, nB=1, nC=1, cB=1, cC=1)),
         run("ctl", "h_verdict", [], **no_refs(shape=2, nA=1, nB=1, nC=1, cB=1, cC=1)),
         run("ctl", "h_verdict", [], **no_refs(shape=5, nA=1, nB=1, cA=1, ignore=3)),
         run("ctl", "h_verdict", [], **no_refs(nA=1, nB=1, dA=1, cB=1, format=1)),
         run("ctl", "h_verdict", [], **no_refs(nA=1, nB=1, dA=1, cB=1, ids=4, format=2)),
         run("ctl", "h_verdict", [], **no_refs(shape=99, arts=2, nA=1, nB=1, ignore=3, faults=1)),
         run("ctl", "h_verdict", [], **no_refs(arts=3, nA=1, nB=1, nC=1, cB=1, ignore=4, faults=4)),
         run("ctl", "h_verdict", [], T, **no_refs(nA=2, nB=2, cB=1, dA=1)),
         run("ctl", "h_verdict", [], T, **no_refs(nA=2, nB=1, cB=2, titles=1, plain=1, **{"with": 3})),
         run("ctl", "h_verdict", [], T, **no_refs(shape=3, nA=2, nB=1, nC=1, cB=1, cC=1, ignore=7)),
     ])
spec("C09", "up to 3 configured jobs, each parse or trace and each setting of the return code; every list of up to 3 (quick: 2) job names, an unknown one among them, as requested or as default jobs; projects with and without problems",
     "more jobs; jobs whose output cannot be written (C21)",
     [
         run("ctl", "h_jobs", ["failed", "succeeded", "failure that does not count", "unknown job"], jobs=2, runs=2),
         run("ctl", "h_jobs", [], jobs=3, runs=2),
         run("ctl", "h_jobs", [], jobs=2, runs=3),
         run("ctl", "h_default", ["no default jobs", "failed", "succeeded", "failure that does not count", "unknown job"], jobs=2, runs=2),
         run("ctl", "h_default", [], jobs=3, runs=2),
         run("ctl", "h_sequence", ["several in order", "single"], runs=2),
         run("ctl", "h_sequence", [], T, runs=3),
         run("ctl", "h_jobs", [], T, jobs=3, runs=3),
         run("ctl", "h_default", [], T, jobs=3, runs=3),
     ])
spec("C10", "two artefacts of any of the four source formats, each file good, missing, a directory, not UTF-8, malformed or cut after any number of bytes; artefacts of three files in these states, named one by one or by four kinds of pattern, relative and absolute base directory",
     "more files; permission errors and errors in the middle of reading a file; symbolic links",
     [run("ctl", "h_inputs", ["good", "missing", "directory", "not utf-8", "malformed"], arts=2)] +
     [run("ctl", "h_files", ["good", "bad", "missing", "not matched"], pattern=p, abs=a) for p in range(4) for a in range(2)] +
     [run("ctl", "h_inputs", [], arts=1, cut=1), run("ctl", "h_inputs", [], T, arts=3), run("ctl", "h_inputs", [], T, arts=2, cut=1)])

# ---------------------------------------------------------------- source formats
MD_OUT = "longer files; more symbolic bytes; nesting of the symbolic part other than the fifteen starts and six ends used; a colon that is followed by blanks only; characters of ids beyond ASCII are sampled (nine characters)"
MD_BOUND = ("markdown files of one of fifteen starts, up to 7 symbolic bytes (alphabets: the format's special characters, letters and digits; or all bytes), or up to 4 (quick: 3) lines each of thirteen kinds with symbolic ids and texts, and one of six ends")


def md(what, need):
    def m(need, tiers=Q, **p):
        return run("md", "h_md", need, tiers, what=what, **p)
    return [
        m(need, head=1, lines=3), m([], head=0, lines=3),
        m([], head=1, lines=4, kinds=1871, tail=2), m([], head=0, uni=1),
        m([], head=0, bytes=7, alphabet=0, tail=1), m([], head=6, bytes=6, alphabet=0), m([], T, head=6, bytes=5, alphabet=1, tail=1),
        m([], head=7, bytes=4, alphabet=1),
        m([], head=12, bytes=2, alphabet=4, tail=1), m([], head=13, bytes=2, alphabet=4, tail=1), m([], head=14, bytes=2, alphabet=4, tail=1),
        m([], T, head=3, bytes=5, alphabet=1, tail=2), m([], head=3, bytes=4, alphabet=1, tail=2),
        m([], T, head=11, bytes=5, alphabet=1, tail=2), m([], head=11, bytes=4, alphabet=1, tail=2),
        m([], head=2, bytes=4, alphabet=1, tail=3), m([], head=5, bytes=4, alphabet=1, tail=3), m([], head=1, bytes=4, alphabet=0, tail=3),
        m([], Q if what == 2 else T, head=9, bytes=4, alphabet=1, tail=2), m([], Q if what == 2 else T, head=10, bytes=4, alphabet=1, tail=2),
        m([], head=8, bytes=3, alphabet=1, tail=2), m([], T, head=8, bytes=4, alphabet=1, tail=2),
        m([], head=4, bytes=4, alphabet=1, tail=5),
        m([], T, head=1, lines=4, tail=2), m([], T, head=0, lines=4),
        m([], T, head=12, bytes=3, alphabet=4, tail=2), m([], T, head=13, bytes=3, alphabet=4, tail=2), m([], T, head=14, bytes=3, alphabet=4, tail=2),
        m([], T, head=2, bytes=5, alphabet=1, tail=3), m([], T, head=5, bytes=5, alphabet=1, tail=3), m([], T, head=1, bytes=4, alphabet=2, tail=3),
        m([], T, head=9, bytes=5, alphabet=1, tail=2), m([], T, head=10, bytes=5, alphabet=1, tail=2),
    ]


spec("C11", MD_BOUND, MD_OUT, md(1, ["requirement", "plain heading"]))
spec("C12", MD_BOUND, MD_OUT, md(2, ["requirement", "short list", "text attribute", "reference", "reference with title", "duplicate attribute", "format error", "second paragraph"]))


def mono(need, tiers=Q, **p):
    return run("mono", "h_mono", need, tiers, **p)


spec("C13", "mono requirement files of one of six starts, up to 6 symbolic bytes (the format's special characters, letters, digits; or all bytes) and one of four ends; file names of up to 4 symbolic characters",
     "longer files; more symbolic bytes; characters of ids beyond ASCII; a colon that is followed by blanks only",
     [
         mono(["title", "no title", "reference", "with title"], head=0, bytes=6, alphabet=0), mono([], head=0, bytes=5, alphabet=1), mono([], head=1, bytes=6, alphabet=0, tail=1),
         mono([], head=3, bytes=4, alphabet=1), mono([], head=4, bytes=4, alphabet=1, tail=2), mono(["two on one line"], head=5, bytes=4, alphabet=0, tail=3),
         mono([], head=1, bytes=2, alphabet=3, tail=1), mono([], head=4, bytes=2, alphabet=3), mono([], path=4),
         mono([], head=2, bytes=3, alphabet=1), mono([], T, head=2, bytes=4, alphabet=1), mono([], T, head=3, bytes=5, alphabet=1),
         mono([], T, head=4, bytes=5, alphabet=1, tail=2), mono([], T, head=5, bytes=5, alphabet=0, tail=3),
     ])


def rs(need, tiers=Q, **p):
    return run("rustp", "h_rust", need, tiers, **p)


spec("C14", "rust files of up to 3 items nested up to 4 deep (functions, modules, implementations, trait implementations, traits, constants), names symbolic (equal or different), up to 3 marks in seven kinds of places and eleven forms; files that are not rust",
     "marks with braces or brackets, marks as items, generic types and paths in implementations, other places of marks; larger files",
     [
         rs(["id", "id and title", "quoted id", "no argument", "bad title", "bad id", "too many", "other macro", "title with escape", "raw title"], forms=11, places=7),
         rs(["several marks"], forms=11, marks=2), rs(["mod", "impl", "impl of a trait", "trait", "mark in a constant"], items=2, depth=1),
         rs(["outside of an item"], mode=2, forms=11), rs(["not a rust file"], mode=3, depth=1), rs([], depth=3), rs([], items=3), rs([], items=2, marks=2),
         rs([], mode=1, depth=1, forms=1), rs([], T, mode=1, depth=1, places=3, forms=1), rs([], T, mode=1, depth=1, forms=2),
     ])
spec("C15", "one or two requirements; each field in turn a text of up to 3 arbitrary ASCII characters, one arbitrary character of two or three bytes, or 300 bytes of characters of three bytes; every combination of absent and present parts, kinds of places, up to 2 references",
     "longer texts and more requirements; characters of four bytes",
     [run("fmt", "h_json", ["two"], field=f, len=3) for f in range(10)] +
     [run("fmt", "h_json", [], field=f, len=1, alphabet=2) for f in range(10)] +
     [run("fmt", "h_json", [], field=f, alphabet=3) for f in range(10)] +
     [run("fmt", "h_json", ["one"], field=10, len=0, vary=1), run("fmt", "h_json", [], field=10, len=0, vary=1, locs=4, refs=2, deps=0),
      run("fmt", "h_json", [], field=10, len=0, vary=1, list=1)])

# ---------------------------------------------------------------- reports
spec("C16", "trace results with up to two requirements in each of two artefacts, each uncovered along up to three relations, derived, or not, and up to one error of each of the fourteen kinds in an artefact and in the trace; names with symbolic letters",
     "larger results; the wording of messages; several errors of different kinds in one list (thorough: two)",
     [run("fmt", "h_gnu", ["uncovered", "derived", "problems", "no problem"], reqs=1), run("fmt", "h_gnu", [], reqs=2, rels=2, errors=0, art_errors=0), run("fmt", "h_gnu", [], reqs=1, rels=3, errors=0, art_errors=0), run("fmt", "h_gnu", [], reqs=1, errors=2, art_errors=0, samples=4),
      run("fmt", "h_gnu", [], reqs=0, errors=2, art_errors=1, letters=1, samples=4),
      run("fmt", "h_gnu", [], T, reqs=2)])
spec("C17", "as C01 with up to 2 requirements and 2 references in all and optional one-letter titles (trace report); requirements with and without references, description and attributes (requirements report)",
     "larger graphs; ids repeated between artefacts; texts that contain markdown",
     [
         run("fmt", "h_mdtrace", ["uncovered", "derived", "tracing error", "upwards", "downwards"], **no_refs(ids=4, plain=1, nA=1, nB=1, cB=1, dA=1)),
         run("fmt", "h_mdtrace", [], **no_refs(ids=4, plain=1, nA=1, nB=2, dA=2, oneline=1)),
         run("fmt", "h_mdtrace", [], **no_refs(ids=4, plain=1, nA=2, nB=1, cB=2, oneline=1)),
         run("fmt", "h_mdtrace", ["no tracing error"], **no_refs(ids=4, plain=1, nA=1, nB=1, cB=1)),
         run("fmt", "h_mdtrace", [], **no_refs(ids=4, plain=1, shape=1, nA=1, nB=1, nC=1, cB=1, cC=1)),
         run("fmt", "h_mdtrace", [], **no_refs(ids=4, plain=1, shape=2, nA=1, nB=1, nC=1, cB=1, cC=1)),
         run("fmt", "h_mdtrace", [], **no_refs(ids=4, plain=1, shape=3, nA=1, nB=1, nC=1, cB=1, cC=1)),
         run("fmt", "h_mdtrace", [], **no_refs(ids=4, plain=1, titles=1, nA=1, nB=1, cB=1)),
         run("fmt", "h_mdtrace", ["description"], **no_refs(ids=4, plain=1, desc=1, nA=1, nB=1, cB=1)),
         run("fmt", "h_mderrors", ["artefact error", "error of the trace", "no error"], letters=1, max=1),
         run("fmt", "h_mderrors", [], T, letters=1, max=2),
         run("fmt", "h_mdreqs", ["references", "description", "several", "few"], **no_refs(desc=1, ids=4, nA=1, nB=1, cB=1, dA=1)),
         run("fmt", "h_mdreqs", [], **no_refs(ids=4, nA=2, nB=1, cB=2)),
         run("fmt", "h_mdreqs", [], **no_refs(ids=4, plain=1, titles=1, nA=1, nB=1, cB=1, dB=1)),
         run("fmt", "h_mdtrace", [], T, **no_refs(ids=26, nA=2, nB=1, cB=1)),
         run("fmt", "h_mdtrace", [], T, **no_refs(ids=4, plain=1, shape=4, nA=1, nB=1, nC=1, cC=2, dA=1)),
         run("fmt", "h_mdtrace", [], T, **no_refs(ids=4, plain=1, nA=2, nB=2, cB=1)),
     ])
spec("C18", "up to 2 requirements in each of 2 artefacts, symbolic ids, two files, two line numbers, every kind of place",
     "more requirements; ids longer than two characters; ids repeated between artefacts",
     [run("fmt", "h_tags", ["none", "one", "several"], arts=1), run("fmt", "h_tags", [], arts=2, reqs=1), run("fmt", "h_tags", [], arts=1, reqs=2, lines=4), run("fmt", "h_tags", [], T, arts=2, reqs=2, lines=1)])


def rob(parser, holes, nbytes, tiers=Q):
    return [run("rob", "h_bytes", [], tiers, samples=2, parser=parser, hole=h, bytes=nbytes, alphabet=0) for h in holes]


r19 = rob(0, range(10), 1) + rob(1, range(4), 1) + rob(2, range(8), 1) + rob(3, range(6), 1) + rob(2, range(8), 2) + rob(0, (0, 1, 2, 4), 2)
r19[0]["need"] = ["good", "bad"]
spec("C19", "files of each source format with up to 2 arbitrary bytes at each of 28 positions of interest; imported requirements with one arbitrary character (ASCII, escaped, two bytes) in each of nine fields; texts of 300 bytes in characters of three bytes in all these places; the configuration with an arbitrary byte at sampled positions; all six reports of each",
     "more arbitrary bytes; other positions",
     r19 + [run("rob", "h_value", [], samples=2, field=f, alphabet=a, bytes=1) for f in range(9) for a in range(4)] +
     [run("rob", "h_long", [], samples=2, parser=p) for p in range(4)] +
     rob(0, range(3, 10), 2, T) + rob(3, range(6), 2, T) + rob(1, range(4), 2, T) +
     [run("cli", "h_mutate", [], T, samples=2, pos=p, bytes=1) for p in range(0, 290)])
spec("C20", "as C08; every rotation and a swap of the order in which artefacts are declared; all trace reports and the JSON requirements report",
     "larger projects; order of relations and jobs",
     [
         run("ctl", "h_order", ["same order", "other order"], **no_refs(nA=1, nB=1, dA=1, cA=1)),
         run("ctl", "h_order", [], **no_refs(nA=1, nB=1, dA=1, cB=1, format=1)),
         run("ctl", "h_order", [], **no_refs(nA=1, nB=1, dA=1, cB=1, ids=4, format=2)),
         run("ctl", "h_order", [], **no_refs(shape=1, nA=1, nB=1, nC=1, cB=1, cC=1)),
         run("ctl", "h_order", [], **no_refs(shape=3, nA=1, nB=1, nC=1, cB=1, cC=1)),
         run("ctl", "h_order", [], **no_refs(nA=2, nB=2, cB=1)),
         run("ctl", "h_order", ["reversed"], **no_refs(nA=2, nB=1, cB=1, ids=4, format=1, reverse=1)),
         run("ctl", "h_order", [], **no_refs(nA=2, nB=2, cB=1, reverse=1)),
         run("ctl", "h_order", [], **no_refs(shape=99, arts=3, nA=1, nB=1, nC=1)),
         run("ctl", "h_order", [], T, **no_refs(shape=4, nA=1, nB=1, nC=1, cC=2, dA=1)),
         run("ctl", "h_order", [], T, **no_refs(shape=3, nA=1, nB=1, nC=1, cB=1, cC=1, format=1)),
         run("ctl", "h_order", [], T, **no_refs(nA=2, nB=2, cB=1, dA=1)),
     ])
spec("C21", "a project with and without problems, each of the six reports; output cut after n bytes (every n that is a multiple of the step), a full device, a directory, a path below a file, missing directories, an older longer file, standard output on a full device",
     "other errors of the file system; larger reports",
     [run("ctl", "h_output", ["complete", "cut"], mode=0, step=11), run("ctl", "h_output", ["refused"], mode=1), run("ctl", "h_output", [], mode=2), run("ctl", "h_output", [], mode=3),
      run("ctl", "h_output", [], T, mode=0, step=5)])
spec("C22", "place texts of one of six starts and up to 5 symbolic characters; places of any kind with file names of 1 to 2 arbitrary printable characters",
     "longer texts; numbers beyond 64 bits",
     [run("loc", "h_loc", ["file", "line", "line and column"] if h == 0 else [], head=h, bytes=4, alphabet=0) for h in range(6)] +
     [run("loc", "h_loc", [], head=0, bytes=2, alphabet=1), run("loc", "h_loc", [], head=2, bytes=4, alphabet=2), run("loc", "h_print", ["printed"]),
      run("loc", "h_loc", [], T, head=0, bytes=5, alphabet=0), run("loc", "h_loc", [], T, head=2, bytes=5, alphabet=2)])
spec("C23", "a configuration with two artefacts and a relation whose ids are arbitrary capital letters, four versions, and seven kinds of damage; a configuration with an arbitrary byte at sampled positions",
     "other structures of the configuration; more than one changed byte",
     [run("cli", "h_config", ["accepted", "refused"])] +
     [run("cli", "h_mutate", ["success", "errors", "refused"] if p == 27 else [], samples=2, pos=p, bytes=1) for p in [3, 27, 54] + list(range(15, 290, 16))])
spec("C24", "a project with and without problems; job names any letters; jobs by name or by default; with and without the options for the configuration file (in the same or another directory) and base directory, long and short; each setting of the return code; output to a file, standard output and a full device",
     "other combinations of these (each run varies some of them); other options of the command line",
     [run("cli", "h_exit", ["no problems", "problems", "problems that do not count", "unwritable output"], vary=28), run("cli", "h_exit", ["unknown job"], vary=2), run("cli", "h_exit", [], vary=1),
      run("cli", "h_exit", [], T, vary=6), run("cli", "h_exit", [], T, vary=5),
      run("cli", "h_exit", [], T, vary=3), run("cli", "h_exit", [], T, vary=30)])
spec("C25", "as C01 with up to 2 references (JSON trace report); every pair of query and format",
     "larger graphs; texts that need escapes (C15)",
     [run("fmt", "h_jsontrace", ["written"], **no_refs(nA=1, nB=1, cB=1, dA=1)), run("fmt", "h_jsontrace", [], **no_refs(shape=3, nA=1, nB=1, nC=1, cB=1, cC=1)), run("fmt", "h_support", ["supported", "refused"]),
      run("fmt", "h_jsontrace", [], **no_refs(nA=1, nB=1, cB=1, titles=1)), run("fmt", "h_jsontrace", [], T, **no_refs(nA=2, nB=2, cB=1, ids=8))])
