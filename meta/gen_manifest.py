#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json and the list of repairs in known_findings.json."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
CLAIMED = sys.argv[1:] if len(sys.argv) > 1 else [l.strip() for l in open(os.path.join(root, "meta", "claimed.txt")) if l.strip()]
FAULT = {"C02", "C06", "C09", "C10", "C11", "C12", "C13", "C19", "C20", "C23"}
COMMON = ("Seeded search, not enumeration: a fixed number of seeded runs (quick) or ten minutes of them (thorough). The real code of gosec's packages runs, instrumented in a "
          "build overlay (scheduler, channels, mutexes, map order, clock, files, environment, command execution, AI client); package loading, the go command and the AI service are simulated. "
          "Preemption only at gosec's own statements and synchronisation operations; third-party code runs atomically in between. ")
NOTE = {
 "C01": "Oracle: the same scan under the benign schedule with concurrency 1, plus vector-clock race detection in the scan.",
 "C02": "Oracle: an independent account of every path plus scans of the healthy packages alone.",
 "C03": "Oracle: the set of files that the tags select, computed with go/build/constraint, and the findings planted in them.",
 "C04": "Oracle: scans of each package alone, also in a fresh process.",
 "C05": "Oracle: deadlock, leak and step-bound detection of the scheduler; loads counted after the fatal result.",
 "C06": "Oracle: no panic, healthy packages keep their findings, errors recorded. Broken programs are mutations of the corpus, not all programs. One known finding.",
 "C07": "Oracle: an independent model of directives (own comment map, own range arithmetic) over the findings of a scan that ignores directives.",
 "C08": "Oracle: byte comparison of two executions of the command under different schedules, concurrency and map orders.",
 "C09": "Oracle: the bytes of a fault-free report; every failing call must give an error or failure status. Write offsets are enumerated for small reports and drawn for larger ones.",
 "C10": "Oracle: an independent exit-status model fed by a reference scan and the list of faults that fired.",
 "C11": "Oracle: report and exit status of the same execution without suggestions, log of the simulated service, virtual clock.",
 "C12": "Oracle: the configuration read in one piece; previous settings kept on failure; the command must not scan after a failed read.",
 "C13": "Oracle: an independent walk of the generated tree, with the injected listing failures.",
 "C14": "Oracle: each analyzer alone; vector-clock race detection on instrumented package-level and shared state.",
 "C15": "Oracle: a new analyzer per segment of the history; sums of separate scans without reset.",
 "C16": "Oracle: each report created alone from a fresh copy of the result, deep comparison of the result before and after.",
 "C17": "Oracle: an independent reader of the SARIF document compared with the findings given.",
 "C18": "Oracle: the scan without tracking and the directive model of C07.",
 "C19": "Oracle: the fault-free scan.",
 "C20": "Oracle: an independent model of the version chain; scans compared with scans of the expected version.",
 "C21": "Oracle: independent counts over the files loaded, the directive model and the report.",
 "C22": "Oracle: independent readers of the nine formats, whose content is compared with the findings given, or with those of a reference scan for the command.",
 "C23": "Oracle: an account of opened and closed files kept by the file seam, and pictures of the directories, environment and working directory before and after.",
 "C25": "Oracle: the included and not excluded rules and the unmarked files filtered out of a scan with all rules.",
 "C26": "Oracle: an executable model of the settings over generated lines, a scan without settings, and a scan with one rule's settings.",
 "C27": "Oracle: a reader of the generated source compared with a model of the document; pictures of the directories before and after.",
 "C24": "Oracle: an independent tokeniser and line splitter over the source texts; token numbers compared between two layouts of one program.",
}
NA = {
 "C30": "A pure function of the scanned program: no schedule, clock, I/O, fault or history influences what one rule matches in a file; the question is input coverage, which simulation does not decide.",
 "C31": "Soundness of a static analysis over all programs: a pure function of the SSA form, without schedule, fault or time; it needs proof or program generation with an execution oracle, not simulation.",
 "C32": "A constant table lookup: nothing nondeterministic to schedule and no fault to inject; enumeration of the rule list would settle it.",
 "C34": "A pure function of a file's import declarations and expressions; no schedule, fault, time or history takes part.",
}
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "deterministic simulation with fault injection: seeded search over schedules, orders and faults, replayable by seed or minimised trace",
                       "level": "fault_enumeration" if i in FAULT else "exploration",
                       "level_note": COMMON + NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check is not built yet.")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks instrument a build overlay of the current working tree (tool/instr), so the shipped sources stay as they are. ./run.sh replay FILE replays a violation."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")

FIXED = [l.rstrip("\n") for l in open(os.path.join(root, "meta", "fixed.txt")) if l.strip()]
k = json.load(open(os.path.join(root, "known_findings.json")))
k["fixed"] = FIXED
json.dump(k, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
open(os.path.join(root, "known_findings.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
