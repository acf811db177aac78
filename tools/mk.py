#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
TECH = "symbolic execution of the compiled IR of the real code with an SMT solver (z3) deciding every branch and assertion within stated bounds; counterexamples replayed natively"
NOTE = ("Every path of the real code (LLVM IR of /repo, its dependencies and std, regenerated on each run) is explored for all values of the symbolic inputs within the bounds; "
        "branch feasibility and assertions are decided by z3. Trusted: rustc's IR, the engine's IR and OS model (spot-checked by replaying sampled paths against the native binary), z3. Bounds: ")


def prop(id, title, statement, over, text, why, files, mech, note, claimed=True, reason=""):
    PROPS.append({
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": list(dict.fromkeys(files)), "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })
    if claimed:
        CHECKS.append({
            "property": id, "quick_cmd": f"python3 check.py {id} quick", "thorough_cmd": f"python3 check.py {id} thorough",
            "technique": TECH, "level": "model_checking", "level_note": NOTE + note,
        })
    else:
        NA.append({"property": id, "reason": reason})


GRAPHS = "every requirement graph: any ids, references, titles and relations between the artefacts"
TR = ["src/trace.rs", "src/models.rs"]
FEW = "The data tests run about a dozen fixed projects; a graph has unboundedly many combinations of equal and different ids, and a wrong lookup shows only for particular ones."

prop("C01", "Coverage along a relation is exactly what the references say",
     "Along each configured relation, a requirement of the upper artefact is recorded as covered by a requirement of a lower artefact if and only if the lower one lists it under Covers or it lists the lower one under Depends. "
     "Each such reference gives exactly one coverage entry, naming both requirements, the direction and the place of the reference, and nothing else is recorded.",
     ["inputs", "configurations"], GRAPHS, FEW, TR, [("relation tracing", "src/trace.rs: trace_relation")],
     "1-4 artefacts, up to 3 requirements and 2 references each, fifteen relation shapes, symbolic ids.")
prop("C02", "A requirement is listed as uncovered exactly when nothing covers it",
     "For each relation the uncovered list contains every requirement of the upper artefact that no requirement of any of the relation's lower artefacts covers, each once, and no other requirement. "
     "With several relations the decision is made per relation: coverage along one does not count for another.",
     ["inputs", "configurations"], GRAPHS, FEW, TR, [("uncovered requirements", "src/trace.rs: trace_relation")],
     "as C01.")
prop("C03", "A requirement is derived exactly when it covers nothing",
     "A requirement that covers no requirement along any relation is listed as derived, once, under its artefact, and a requirement that covers one is not. "
     "Artefacts that ignore derived requirements list none; without an explicit setting those are exactly the artefacts that are below no other.",
     ["inputs", "configurations"], GRAPHS + "; every combination of the ignore setting", FEW, TR + ["src/controller.rs"], [("derived requirements", "src/trace.rs: add_artefact, trace_relation"), ("default of the ignore setting", "src/controller.rs: Controller::new")],
     "as C01, with every ignore setting on smaller graphs.")
prop("C04", "References that lead nowhere are reported, and only those",
     "Every Covers or Depends reference that is not followed along some relation is reported as an error that names the referring requirement, the referenced id and the place of (the first of) its references to that id. "
     "A reference that is recorded as coverage is never reported this way.",
     ["inputs", "configurations"], GRAPHS, FEW, TR, [("dangling references", "src/trace.rs: add_artefact, trace_relation, validate_upwards, validate_downwards")],
     "as C01.")
prop("C05", "Titles given with references are validated",
     "A reference whose title differs from the title of the requirement it leads to is reported as wrong, naming both requirements, the wrong title and the place; a reference with the right title is not. "
     "A reference without a title is reported exactly when the artefact of the referenced requirement demands titles; such an artefact also reports each of its own requirements that has none.",
     ["inputs", "configurations"], GRAPHS + "; every combination of missing, equal and different titles and of the artefacts' title setting", FEW, TR, [("title validation", "src/trace.rs: trace_relation")],
     "2-3 artefacts, up to 2 requirements and 2 references each; titles absent, empty or one of two letters.")
prop("C06", "Every repeated requirement id is reported",
     "Ids are unique in the whole project: each further requirement with an id that is already taken, in the same or another artefact, is reported as a duplicate naming both places. "
     "Ids that occur once are never reported, and within one artefact the first requirement with the id is the one that is kept.",
     ["inputs", "configurations"], GRAPHS, FEW, TR + ["src/controller.rs"], [("duplicates between artefacts", "src/trace.rs: add_artefact"), ("duplicates within an artefact", "src/controller.rs: parse_from_config")],
     "as C01.")
prop("C07", "A relation is reported as unused exactly when nothing is covered along it",
     "A configured relation along which no coverage is found is reported as unused; a relation with at least one coverage is not.",
     ["inputs", "configurations"], GRAPHS, FEW, TR, [("unused relations", "src/trace.rs: trace_relation")],
     "as C01.")

# ------------------------------------------------------------------ verdict, jobs, inputs
prop("C08", "A job fails exactly when there is something to report",
     "A trace job ends with errors detected if and only if some artefact has an error, or the trace has an error, an uncovered or a derived requirement; in a project without any of these it succeeds. "
     "A parse job ends with errors detected if and only if some artefact has an error. The output format makes no difference.",
     ["inputs", "configurations"], "every project: any requirements, references, settings and states of the source files", "A continuous integration job relies on the verdict for projects nobody has tested; a swallowed error shows only when it is the single problem of a project.",
     ["src/controller.rs", "src/trace.rs"], [("verdict", "src/controller.rs: run")],
     "2-3 artefacts, up to 2 requirements each, every problem alone and in combination.")
prop("C09", "Exactly the requested jobs run, in order, and their failures count",
     "Exactly the jobs that are requested by name, or the default jobs if none are, are run in that order, and the whole run fails if and only if at least one of them that sets the return code (the default) detects errors, wherever it stands in the list. "
     "If any requested job is unknown, or no default jobs are configured, the run is refused with an error and no job is run.",
     ["configurations", "histories"], "every list of requested jobs (repetitions and unknown names included), every result and return code setting of each job", "The tests run one job at a time; the order of several jobs and the last or first failure decide.",
     ["src/controller.rs"], [("jobs", "src/controller.rs: run_jobs_by_name, run_default_jobs, run_jobs")],
     "up to 3 jobs, up to 3 requests.")
prop("C10", "Unusable input files are reported and spoil nothing else",
     "A configured file that is missing, is a directory or cannot be parsed is reported as an error of its artefact that names the file, and fails the job without ending it. "
     "The requirements of all other files, and what can still be read of that file's format, are collected all the same, and nothing is made up; files that a pattern does not match are not missed.",
     ["inputs", "fault_sequences"], "every combination of source formats and states (good, missing, directory, not UTF-8, malformed) of the files of an artefact, named or by pattern", "Each fault alone may be tested, but that a fault of one file does not hide another file needs all combinations.",
     ["src/controller.rs", "src/parsers/mod.rs", "src/parsers/markdown.rs", "src/parsers/monoreq.rs", "src/parsers/rust.rs", "src/controller.rs"], [("reading artefacts", "src/controller.rs: parse_from_config, parse_multiple_files, glob_paths")],
     "2 artefacts of any format in any state; 3 files of one artefact in any state, four kinds of patterns.")

# ------------------------------------------------------------------ source formats
BYTES = "A parser sees arbitrary text; the tests have a dozen files. Which line ends what depends on the combination of the lines before, and single characters decide."
prop("C11", "Every requirement heading of a markdown file gives one requirement",
     "In a markdown file, every heading of the form ID: Title, where the id is a letter followed by letters, digits or underscores, at any level gives exactly one requirement with this id, the title without surrounding blanks, and the line of the heading; headings of another form and all other lines give none. "
     "A line that does not fit does not keep later requirements of the file from being found.",
     ["inputs"], "every text", BYTES,
     ["src/parsers/markdown.rs"], [("parser states", "src/parsers/markdown.rs: parse and its states")],
     "fifteen contexts with up to 7 symbolic bytes, or 3-4 lines of thirteen kinds.")
prop("C12", "All content of a markdown requirement is kept or reported with its line",
     "The text after a requirement heading is its description; an attribute (capitalised word and colon) holds the text that follows; Covers and Depends, as comma separated ids in the same line or as a list with ids and optional titles, give one reference per entry with its id, title and line. "
     "Repeated attributes and lines that do not fit are reported with their line. Nothing else is added, and nothing is lost except what follows a reported line up to the next heading.",
     ["inputs"], "every text", BYTES,
     ["src/parsers/markdown.rs"], [("parser states", "src/parsers/markdown.rs: parse and its states")],
     "as C11.")
prop("C13", "A mono requirement file is one requirement with all its references",
     "A mono requirement file gives exactly one requirement: its id is the file name without extension, and its title is the first line with word characters, without what surrounds them. "
     "Every id after a fat arrow is a Depends reference with its line and, if a colon and a text follow, that text as title; nothing else is.",
     ["inputs"], "every text and file name", BYTES,
     ["src/parsers/monoreq.rs", "src/parsers/mod.rs"], [("parser", "src/parsers/monoreq.rs: parse")],
     "six contexts with up to 6 symbolic bytes.")
prop("C14", "Coverage marks in Rust code belong to the item around them",
     "Every requirement_covered! mark in an expression or statement inside named items (functions, modules, implementations, traits, at any nesting) gives one Covers reference with the id, the title if given, and line and column of the mark, of the requirement named by the path of those items and located at the innermost one; an item gives at most one requirement. "
     "Marks that cannot be used (bad arguments, no item around) and files that are not Rust are reported with their place. Other macros, comments and strings give nothing.",
     ["inputs", "programs"], "every Rust source with marks", "The tests have two sources; nesting, repetition and equal names of items combine without limit.",
     ["src/parsers/rust.rs"], [("visitor", "src/parsers/rust.rs")],
     "up to 3 items nested up to 4 deep with symbolic names, up to 3 marks in seven places and eleven forms.")
prop("C15", "Requirements written as JSON come back unchanged",
     "Requirements exported with a parse job in JSON format and imported as a JSON artefact have the same ids, titles, places, references, tags and attributes, whatever characters their texts contain, and none is lost or added. "
     "The export also has every error of every artefact; a plain list of requirements can be imported as well.",
     ["inputs"], "every set of requirements: any texts, absent and present parts, kinds of places", "A field that is renamed, skipped or lossy for certain values shows only with those values; no test imports what it exported.",
     ["src/formatters/serialize.rs", "src/controller.rs", "src/models.rs"], [("export", "src/formatters/serialize.rs"), ("import", "src/controller.rs: parse_json"), ("representation", "src/models.rs")],
     "texts of up to 3 arbitrary ASCII characters or an arbitrary two or three byte character per field; all combinations of optional parts.")

# ------------------------------------------------------------------ reports
prop("C16", "The GNU error report has every problem, once, with its place",
     "The GNU error report has a line for each error of an artefact or of the trace, each requirement that is uncovered (per relation) or derived, that starts with the place (file:line) and names the requirements, attributes, artefacts and wrong titles involved. "
     "No problem is left out or reported twice, and nothing else is reported.",
     ["inputs"], "every result of a trace", "Editors and CI rely on the report for every kind of error; most kinds occur in no expected output of the tests.",
     ["src/formatters/gnuerr.rs", "src/formatters/mod.rs"], [("report", "src/formatters/gnuerr.rs")],
     "two artefacts with up to two requirements, up to two errors of each of the fourteen kinds.")
prop("C17", "The markdown reports show everything the trace found",
     "The markdown trace report lists every uncovered requirement under its relation, every derived one under its artefact, every error of artefacts and trace with the names involved and its place, and every requirement with id, title, text, place and each of its coverages upwards and downwards with the place of the reference; nothing is left out or made up. "
     "The markdown requirements report has every requirement once, sorted by id, with its title, description, attributes, references and place, and every error of an artefact.",
     ["inputs"], "every result of a trace without repeated ids", "The tests compare two reports; a lookup that fails for some combination of relations, ids and references leaves an entry out silently.",
     ["src/formatters/markdown.rs", "src/aggregator.rs"], [("trace report", "src/formatters/markdown.rs: tracing"), ("requirements report", "src/formatters/markdown.rs: requirements")],
     "graphs of 2-3 artefacts with up to 2 requirements each, symbolic ids and titles.")
prop("C18", "The tags file has one sorted entry per requirement with a line",
     "The tags report has exactly one entry for each requirement whose place has a line: id, file and line, whether or not a column is known. All lines of the file are sorted by byte value, as the header promises and editors require for binary search.",
     ["inputs"], "every set of requirements and places", "Order matters for every pair of ids, across artefacts; the test has one project.",
     ["src/formatters/tags.rs"], [("report", "src/formatters/tags.rs")],
     "up to 2 requirements in each of 2 artefacts, symbolic ids.")
prop("C19", "No input makes the program crash",
     "Whatever bytes the source files contain, parsing, tracing and all reports end without a panic: every report is written completely as UTF-8 text (JSON reports as JSON), and the verdict of a job is the same in every format.",
     ["inputs"], "every content of the source files", "A panic hides behind single bytes: an unexpected character inside an id, a cut character, an odd escape.",
     ["src/parsers/markdown.rs", "src/parsers/monoreq.rs", "src/controller.rs", "src/parsers/rust.rs", "src/formatters/mod.rs", "src/controller.rs"], [("parsers", "src/parsers"), ("formatters", "src/formatters")],
     "1-2 arbitrary bytes at 28 positions of files of the four formats; arbitrary characters in the fields of imported requirements; six reports each.")
prop("C20", "Results do not depend on the order of artefacts and imported requirements",
     "Reordering the artefacts in the configuration changes neither the verdict nor any byte of the trace reports or of the JSON requirements report. "
     "The same holds for the order of the requirements in a JSON source, as long as their ids are unique.",
     ["configurations", "inputs"], "every project and every order of its artefacts and requirements", "Relations compare the graph under two orders, for all graphs; tests have one order.",
     ["src/controller.rs", "src/trace.rs", "src/models.rs", "src/formatters/mod.rs"], [("graph", "src/models.rs: Graph"), ("tracing", "src/trace.rs: trace")],
     "2-3 artefacts, up to 2 requirements each, rotations and a swap of artefacts, reversed requirements.")
prop("C21", "Output that cannot be written completely is an error",
     "A job whose output cannot be written completely (no space after any number of bytes, a full device, a directory or a file in the way, also for standard output) ends the run with an error, never with success. "
     "Otherwise the file holds exactly the complete report, missing directories are created and an older longer file is replaced.",
     ["fault_sequences", "crash_points"], "every report and every number of bytes after which writing fails", "Tests do not let writes fail; the last buffered bytes are lost silently.",
     ["src/controller.rs", "src/formatters/mod.rs", "src/main.rs"], [("output", "src/controller.rs: run"), ("formatters", "src/formatters/mod.rs")],
     "six reports of a small project, output cut after any multiple of 11 (thorough: 5) bytes.")
prop("C22", "Places keep their meaning between text form and value",
     "The text file, file:line or file:line:column is read as a place by splitting off the last one or two fields of digits, whatever other colons the file name has, and every place is written back as the same text, so that reading what was written gives the same place.",
     ["inputs"], "every text and every place", "File names with colons and digits make the split ambiguous; tests use plain names.",
     ["src/models.rs"], [("text form", "src/models.rs: Location")],
     "six starts with up to 5 symbolic characters; file names of up to 2 arbitrary printable characters.")
prop("C23", "A bad configuration is refused before anything is run",
     "A configuration that cannot be read or parsed, has an unsupported version, repeats an artefact id or mentions in a relation an artefact that does not exist ends the program with exit code 2 before any job is run or output is written. "
     "Every other configuration is accepted, and no configuration makes the program crash.",
     ["configurations", "inputs"], "every text of the configuration file", "Tests use valid configurations.",
     ["src/main.rs", "src/models.rs", "src/controller.rs"], [("validation", "src/models.rs: Config::validate"), ("start", "src/main.rs")],
     "artefact and relation ids any capital letters; four versions; seven kinds of damage; any byte at sampled positions.")
prop("C24", "The exit code tells the result of the run",
     "The program ends with exit code 0 if the run detected no errors that count, 1 if it did, and 2 if the run was not possible (configuration, unknown job, output), for jobs given by name as well as default jobs, with the configuration file and base directory of the options -c (--config) and -b (--base).",
     ["configurations", "inputs"], "every result, way to select jobs, return code setting and output", "The unit tests do not run the program; scripts rely on the code.",
     ["src/main.rs", "src/controller.rs"], [("exit code", "src/main.rs")],
     "one project in two states; job names any letters; combinations of options in four groups.")
prop("C25", "The JSON trace report is complete and no job is silently ignored",
     "The JSON report of a trace contains the complete result: artefacts, relations with covered and uncovered requirements, derived requirements and errors, as it can be read back. "
     "A combination of query and format that is not supported is refused with an error; the supported ones are written.",
     ["inputs", "configurations"], "every trace result; every pair of query and format", "The tests compare a few fixed reports.",
     ["src/formatters/serialize.rs", "src/formatters/mod.rs", "src/models.rs"], [("report", "src/formatters/serialize.rs"), ("choice of the format", "src/formatters/mod.rs")],
     "graphs of 2-3 artefacts with symbolic ids.")

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": CHECKS, "not_applicable": NA,
           "notes": "No hooks: the harnesses use the crate's public interface, and for the command line a copy of /repo/src/main.rs made at build time."},
          open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
