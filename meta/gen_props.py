#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Scan outcome does not depend on concurrency, scheduling or repetition",
 "For fixed sources, configuration, rule selection and build tags, a scan of a set of package directories yields the same findings (rule, file, line, column, severity, confidence, snippet), the same metrics and the same recorded errors for every concurrency value of at least one, every interleaving of the loading workers, every order in which package loads finish and every repetition, including every iteration order of unordered collections. The scan itself contains no data race.",
 ["schedules", "configurations", "inputs"],
 "all interleavings of workers, collector and closer, concurrency 1..n, all load completion orders, all map iteration orders, over package sets drawn from the sample corpus",
 "Tests scan one or two packages once, on whatever interleaving the Go runtime picks; they compare counts only, and a lost or duplicated result under one particular completion order is invisible.",
 ["analyzer.go", "rules/", "analyzers/"],
 [("worker pool: jobs/results channels, wait group, closer goroutine", "analyzer.go:Process"),
  ("mutex around the shared load configuration", "analyzer.go:load"),
  ("single collector goroutine owns issues, stats and errors", "analyzer.go:Process, updateIssues")],
 ["Analyzer.Report()"], "source instrumentation of the built copy (scheduler, channel, mutex, map-order seams)",
 [("jobs, results, quit", "work distribution between workers and collector", "analyzer.go:Process"),
  ("Analyzer.issues/stats/errors", "accumulated result of the scan", "analyzer.go:Analyzer")])

prop("C02", "Every requested package is accounted for exactly once, also when loads fail",
 "For every list of package directories and every subset of them whose loading fails (unreadable directory or file, conflicting package clauses, loader error, packages returned with errors), each path is accounted for exactly once: either its files are analysed and its findings reported, or an error is recorded for it (and every error the loader attaches to a package it returns is recorded at the position it names), or it is skipped because the path does not exist or holds no Go files for this build (files that use cgo, which the go command translates, count as loaded but are not examined). A failure of one package never removes, adds or changes findings, metrics or errors of another.",
 ["fault_sequences", "schedules", "inputs"],
 "all subsets of failing loads, fault kinds, package lists (with non-existing and empty directories), schedules",
 "Tests inject at most one failure in a single-package scan; which packages survive a failure next to concurrently loading ones is never observed.",
 ["analyzer.go", "errors.go"],
 [("AppendError keyed by path, NoGoError filtered", "analyzer.go:AppendError"),
  ("ParseErrors converts loader errors", "analyzer.go:ParseErrors"),
  ("one result per job", "analyzer.go:Process worker")],
 ["Analyzer.Report()", "error map keyed by path or file"], "simulated package loader and file faults")

prop("C03", "Build tags apply to every scanned package",
 "When a scan is given build tags, every scanned package is selected and loaded with all of these tags, whatever its position in the list, the number of packages, the concurrency and the schedule; no package is analysed as if the tags were absent, and a scan without tags never sees tags of another scan.",
 ["schedules", "configurations"],
 "tag lists, package lists with tag-guarded files, concurrency, schedules, several scans on one analyzer",
 "The only tag test scans one package, so state left behind by the first load is never seen by a second one.",
 ["analyzer.go"],
 [("build context tags set before importing the directory", "analyzer.go:load"), ("mutex around the shared configuration", "analyzer.go:load")],
 ["files analysed", "loader configuration of each load"], "simulated package loader")

prop("C04", "Findings of a package do not depend on the other packages scanned with it",
 "The findings and recorded errors attributed to the files of a package in a scan of several packages are exactly those of a scan of that package alone, for every other set of packages scanned with it and every order in which they are analysed.",
 ["histories", "schedules", "inputs"],
 "sets and orders of packages from the corpus plus packages built to leave rule state behind, load completion orders, file orders inside a package",
 "Tests scan samples one at a time with a fresh analyzer; state kept inside rule instances between files and packages never meets a second package.",
 ["rules/tls.go", "rules/implicit_aliasing.go", "rules/readfile.go", "rules/sql.go", "rules/fileperms.go", "analyzer.go"],
 [("per-file context is rebuilt", "analyzer.go:CheckRules"), ("rule structs reset their own state", "rules/tls.go:resetVersion, rules/implicit_aliasing.go")],
 ["Analyzer.Report() grouped by file"], "simulated loader decides the order")

prop("C05", "A scan always terminates, leaks nothing and stops promptly on a fatal error",
 "Every scan returns after finitely many steps for every concurrency of at least one, every number of packages including none, whatever source they hold (cyclic, recursive, deeply nested or highly repetitive source included), every failure combination and every interleaving, and when it has returned none of the goroutines it started is left blocked or running. When a package's errors cannot be interpreted the scan returns an error, all workers stop, and each worker starts at most one further package load after that point.",
 ["schedules", "fault_sequences", "configurations"],
 "schedules, concurrency 1..60, package counts 0..8, load failures and fatal parse errors at any position, generated source with growing chains, call graphs, jumps and nesting",
 "A deadlock or goroutine leak needs a particular interleaving of the quit, results and jobs channels; tests run one package with free scheduling and do not look for leaks.",
 ["analyzer.go", "resolve.go", "rules/", "analyzers/"],
 [("quit channel closed on fatal error, wait group, closer goroutine", "analyzer.go:Process")],
 ["return of Analyzer.Process", "goroutines alive afterwards"], "simulated scheduler")

prop("C06", "No source, complete or not, crashes the scan",
 "Scanning source in whatever shape, also source that does not compile (missing dependencies, undefined names, wrong argument counts, syntax errors, files that disappear or become unreadable during the load), never panics or aborts the process: the scan completes, records the errors of the affected packages, and still reports the findings of the unaffected packages; every finding names its rule, a scanned file and lines which that file has.",
 ["fault_sequences", "inputs"],
 "dependency-resolution faults for any subset of imports, torn and mutated source files, well-typed rewrites into unusual shapes, unreadable files, over the corpus, next to healthy packages",
 "Tests cover a handful of broken samples; which rule dereferences missing type information depends on which import or expression is missing.",
 ["analyzer.go", "rules/", "analyzers/", "helpers.go"],
 [("recover around SSA construction", "analyzer.go:buildSSA"), ("nil checks on type information in rules", "rules/, analyzers/")],
 ["Analyzer.Process returns", "findings of healthy packages"], "simulated importer with missing packages, torn reads")

prop("C07", "Inline suppressions are exact and independent of processing order",
 "An inline directive (#nosec, the configured alternative tag, or gosec:disable, with optional rule list and justification) suppresses exactly the findings whose reported lines lie inside, or enclose, the lines of the code its comment is attached to and whose rule it lists (every rule if it lists none), and each suppression carries the directive's justification (a comment with its adjacent lines carries at most one directive). This holds for any number of such comments in a file, nested, overlapping or on one line, in every order in which they are processed, and no directive affects another file; with the option to ignore directives, none has an effect.",
 ["schedules", "inputs", "configurations"],
 "files with several overlapping, nested and adjacent directives, every comment processing order, several files and packages, with and without the global options",
 "Directive attachments live in an unordered map; tests use one directive per file, so merging and lookup of overlapping ranges is never exercised in more than one order.",
 ["analyzer.go"],
 [("ignores.add/get by line range", "analyzer.go:ignores"), ("directive parsing", "analyzer.go:ignore, findNoSecDirective"), ("comment map traversal", "analyzer.go:updateIgnores")],
 ["Analyzer.Report() with and without suppression tracking"], "map iteration order seam")

prop("C08", "A sorted report is byte-for-byte reproducible",
 "With sorting enabled (the default), two runs of the command over the same sources and flags write byte-identical reports in every format, whatever the concurrency, the order in which packages finish and the iteration order of unordered collections.",
 ["schedules", "configurations"],
 "whole command runs under different schedules, discovery orders, map orders; all nine formats; several roots",
 "The sort test compares hand-made lists; it never sees two findings that tie on every compared key arriving in two different orders.",
 ["cmd/gosec/sort_issues.go", "cmd/gosec/main.go", "errors.go", "helpers.go", "report/"],
 [("sortIssues", "cmd/gosec/sort_issues.go"), ("sortErrors", "errors.go")],
 ["bytes of the report"], "whole-program simulation of the command")

prop("C09", "A report that could not be written completely is never reported as written",
 "For every report format and every point at which writing the destination fails (error, short write, full disk, failing close), creating the report returns an error, or the command exits with a failure status; when success is returned, the destination holds exactly the bytes that a write without faults produces.",
 ["fault_sequences", "crash_points", "configurations"],
 "each of the nine formats, failure at each write call and byte offset, short writes, close errors, chunked writers, findings sets of different sizes",
 "Tests write into an in-memory buffer that never fails.",
 ["report/", "cmd/gosec/main.go"],
 [("writers return the writer's error", "report/*/writer.go"), ("saveReport", "cmd/gosec/main.go")],
 ["error returned by report creation", "bytes at the destination", "exit status"], "file seam")

prop("C10", "The exit status tells whether the scan was clean and complete",
 "The command exits 0 only if the selected scan finished, every requested output was produced, and it found neither unsuppressed findings at or above the severity and confidence thresholds nor source errors, or the no-fail option was given and the scan and outputs completed; in every other case, including an unreadable configuration, a log file that cannot be created, a report file or standard output that cannot be written, malformed option values or thresholds, no packages to scan and failed package loads, with or without the quiet option, it exits with a non-zero status.",
 ["fault_sequences", "configurations", "schedules"],
 "flag combinations, finding and error mixes, faults on every file the command opens, reads, writes or closes",
 "main() is not executed by any test; the status is the result of flags, findings and failures acting together.",
 ["cmd/gosec/main.go"],
 [("exit, filterIssues, saveReport, printReport, loadConfig", "cmd/gosec/main.go")],
 ["process exit status", "files written"], "whole-program simulation of the command")

prop("C11", "AI suggestions are best effort and never disturb the scan",
 "Whatever the AI service does (errors, empty or malformed answers, missing content, delays, hanging until the deadline, failing to connect), the command still emits the report with all findings unchanged except for their suggestion text and keeps the exit status it would have without suggestions; suggestion generation ends within 60 simulated seconds of being started, and the client is closed exactly once. Each distinct finding description is requested at most once, and a suggestion attached to a finding is the service's answer for that finding's description; if the service answers every request at once, every finding carries its suggestion.",
 ["fault_sequences", "schedules", "inputs"],
 "fault at any request, any answer shape, any latency, finding lists with repeated descriptions",
 "Tests use a mock that answers once, immediately; deadlines, partial failures and malformed answers are not exercised.",
 ["autofix/ai.go", "cmd/gosec/main.go"],
 [("context deadline, per-description cache", "autofix/ai.go:generateSolutionByGemini"), ("errors are only logged", "cmd/gosec/main.go")],
 ["autofix.GenerateSolution", "report", "requests seen by the simulated service"], "simulated service below the genai client, virtual clock")

prop("C12", "Configuration reading is all-or-nothing and independent of chunking",
 "Reading a configuration gives the same settings however the reader splits the bytes; if the reader fails at any point or the bytes are truncated or malformed, an error is returned and the configuration keeps its previous settings, and the command aborts with a failure status instead of scanning with other settings. Writing a configuration to a failing destination returns an error.",
 ["fault_sequences", "crash_points", "inputs"],
 "every chunking, every failing byte offset, every truncation point of generated configurations",
 "Tests read whole valid documents from memory, plus one invalid document.",
 ["config.go", "cmd/gosec/main.go"],
 [("ReadFrom, convertGlobals, WriteTo", "config.go"), ("loadConfig", "cmd/gosec/main.go")],
 ["Config after ReadFrom", "exit status of the command"], "reader and file seam")

prop("C13", "Package discovery loses nothing silently",
 "Expanding a recursive path returns each directory below it that directly contains a Go file and is not excluded exactly once, whatever the traversal; when a directory that is not excluded cannot be listed or examined, an error is reported instead of silently returning fewer directories, and an unreadable excluded directory does not prevent the scan.",
 ["fault_sequences", "inputs"],
 "generated directory trees, exclusion patterns, listing and stat failures at any node",
 "Tests expand small fault-free trees.",
 ["helpers.go", "cmd/gosec/main.go"],
 [("PackagePaths walk callback", "helpers.go:PackagePaths"), ("isExcluded", "helpers.go")],
 ["PackagePaths result or error"], "file system seam (walk)")

prop("C14", "Independent analyzers in one process do not influence each other",
 "Several analyzers used concurrently in one process, each by one goroutine, with their own configuration and rules, and several reports being generated concurrently, behave exactly as if each were used alone: same findings, metrics and errors, no data race and no crash.",
 ["schedules", "histories"],
 "two to four analyzers with different configurations and packages, all interleavings at statement granularity",
 "No test runs two analyzers at once; package-level state shared between instances only matters then.",
 ["analyzer.go", "rules/", "analyzers/", "issue/issue.go", "cwe/data.go", "report/"],
 [("all mutable state lives in the analyzer or rule instance", "analyzer.go, rules/"), ("package-level tables are read-only", "issue/issue.go, cwe/data.go")],
 ["Analyzer.Report() of each analyzer"], "simulated scheduler with statement-level preemption and race detection")

prop("C15", "A reset analyzer behaves like a new one",
 "After any history of scans, errors and aborted scans, an analyzer that is reset and given rules and analyzers again produces exactly the findings, metrics and errors that a newly created analyzer with the same settings produces; without reset, consecutive scans accumulate exactly the sum of their separate results. Results reported before a reset are not changed by it.",
 ["histories", "fault_sequences"],
 "sequences of scan, failing scan, reset and rule loading operations over the corpus",
 "Tests reset once, in one place, and compare only the number of findings.",
 ["analyzer.go"],
 [("Reset", "analyzer.go:Reset"), ("accumulating issues, stats, errors", "analyzer.go")],
 ["Analyzer.Report()"], "simulated loader")

prop("C16", "Each emitted report depends only on the scan result",
 "When one run emits several reports (standard output and an output file, in any two formats), or a caller creates several reports from the same result, each report is byte-identical to the one produced when it is the only one, in every order; creating a report changes neither the findings nor the metrics nor the errors it is given, also when creation fails part-way.",
 ["histories", "fault_sequences", "configurations"],
 "ordered pairs and sequences of the nine formats over one result, with suppressed findings, failing destinations in between",
 "Tests create exactly one report per result.",
 ["report/formatter.go", "report/", "cmd/gosec/main.go"],
 [("CreateReport filters suppressed findings", "report/formatter.go")],
 ["bytes of each report", "result handed to report creation"], "writer seam")

prop("C17", "SARIF references are consistent for every order of findings",
 "In every SARIF report, each result's rule index points at the rule descriptor with the result's rule identifier, rule descriptors and taxa are unique, every referenced weakness is listed as a taxon, and the results are exactly the findings in their order, with the line region and suppressions of the finding; this holds for every order in which findings arrive.",
 ["schedules", "inputs"],
 "unsorted scans under different schedules, findings in any order over any subset of rules",
 "Tests build reports from one or two findings in rule order; an index that goes stale when a later finding inserts a rule before it needs three findings in a specific order.",
 ["report/sarif/formatter.go"],
 [("addRuleInOrder", "report/sarif/formatter.go"), ("weakness map", "report/sarif/formatter.go:GenerateReport")],
 ["SARIF document"], "schedule-dependent finding order")

prop("C18", "Tracking suppressions changes what is recorded, never what is reported",
 "For every mix of inline directives and excluded or included rules, the findings without suppressions in a tracking scan are exactly the findings of the same scan without tracking, and every other finding carries exactly one external record if its rule is deselected plus one record per inline directive covering it, with kind and justification of its own directive and never a record belonging to another finding; later findings never alter the records of earlier ones.",
 ["histories", "configurations", "schedules"],
 "rule selections, directive placements, packages, map orders, finding orders",
 "Tests look at one suppressed finding; sharing of record storage between findings appears only with several findings on one directive.",
 ["analyzer.go", "rules/rulelist.go", "analyzers/analyzerslist.go"],
 [("getSuppressionsAtLineInFile", "analyzer.go"), ("RuleSuppressedMap", "rule.go"), ("AnalyzerSuppressedMap", "analyzers/analyzers_set.go")],
 ["Analyzer.Report()"], "map iteration order seam")

prop("C19", "Findings survive source files that vanish or change after loading",
 "If a source file is removed, truncated, replaced (also by a directory) or becomes unreadable at any moment after it has been parsed, the scan still completes and reports every finding with the same rule, file, line, column, severity and confidence; only the code snippet may be missing or reflect the new content.",
 ["fault_sequences", "crash_points"],
 "open and read failures, truncation and removal at any file access made while reporting",
 "Tests never modify files during a scan.",
 ["issue/issue.go", "analyzers/util.go"],
 [("New opens the file for the snippet and ignores failure", "issue/issue.go:New"), ("issueCodeSnippet", "analyzers/util.go")],
 ["Analyzer.Report()"], "file seam")

prop("C20", "Go version detection never breaks a scan",
 "However the lookup of the module's Go version fails (command missing, non-zero exit, empty, truncated or non-JSON output, no version in the answer) the scan completes without crash and uses the toolchain's version, and an explicitly set version (of the form go1.21.1) always wins; a scan never uses a version that is neither the explicit one, the module's, nor the toolchain's.",
 ["fault_sequences", "configurations"],
 "every failure mode of the external command, environment values, packages whose findings depend on the version",
 "Tests run with the real go command, which always answers.",
 ["helpers.go", "rules/implicit_aliasing.go"],
 [("GoVersion fallback chain", "helpers.go:GoVersion, goModVersion")],
 ["GoVersion result", "version-dependent findings"], "command execution seam")

prop("C21", "Counters agree with what was analysed and reported",
 "In every report of the command the number of files and lines equals the files actually analysed and their lines, the suppression counter equals the number of inline directives honoured in them, and the found counter equals the number of unsuppressed findings the report lists, for every package set, schedule, filter, generated-file exclusion and mix of failing loads.",
 ["schedules", "fault_sequences", "configurations"],
 "whole command runs with severity and confidence filters, generated files, directives, failing packages, concurrency and schedules",
 "Tests check the counters on one or two packages without failures or filters.",
 ["analyzer.go", "cmd/gosec/main.go"],
 [("stats updated by the collector", "analyzer.go:CheckRules, updateIssues"), ("found counter corrected after filtering", "cmd/gosec/main.go:filterIssues")],
 ["Stats section of the report"], "whole-program simulation of the command")

prop("C22", "Every report format lists every finding exactly once, unaltered",
 "For every set of findings, errors and counters that a scan can yield - whatever characters their file names, descriptions, snippets, suggestions and suppressions contain, in whatever order, repeated or not, below one root path, several or roots whose names start alike - a report in each format can be read by a reader of that format, and lists every finding that the format shows (the unsuppressed ones; all of them in JSON and SARIF) exactly once, with its own rule, place (relative to a root path in SARIF and SonarQube), severity, confidence, weakness, description, snippet, suggestion and suppressions as far as the format carries them, as well as every recorded error and the counters where the format carries those; nothing is attributed to another finding. The same holds for the reports of the command against what a scan of the same packages yields under every schedule.",
 ["inputs", "configurations", "schedules"],
 "findings drawn with repetitions, odd characters, ranges, several and prefix-sharing roots, all formats; whole command runs over drawn packages, flags and schedules, with a report file and another printed format",
 "Tests render one finding with plain text per format and search for a substring; mixing up of several findings, of roots or of special characters never occurs in them.",
 ["report/", "cmd/gosec/main.go"],
 [("formats and suppression filter", "report/formatter.go:CreateReport"), ("relative file names", "report/sonar/formatter.go, report/sarif/formatter.go"),
  ("grouping by description", "report/junit/formatter.go:GenerateReport"), ("templates", "report/text, report/html")],
 ["bytes of the report"], "whole-program simulation of the command, independent readers of each format")

prop("C23", "Scans and reports leave nothing behind but what was asked for",
 "For every scan, every report and every execution of the command, under every schedule and every failure of loading, listing, opening, reading or writing: when it has returned, every file that it opened is closed again; while it runs it never has more files open at once than one for each loading worker and one more, so that a limit on open files just above that costs nothing; it creates, changes, renames and removes nothing in the file system - neither in the scanned directories nor among temporary files - except the report file and the log file that were asked for; and it leaves the working directory and the environment of the process as they were.",
 ["fault_sequences", "schedules", "crash_points"],
 "packages healthy, failing, broken and vanishing; failures of every open and read; limits on the number of open files; failing report destinations; commands with report, log and configuration files; schedules",
 "Tests never look at open files or at the scanned directory afterwards, and a file that stays open only after a failed or empty read is invisible to them.",
 ["issue/issue.go", "analyzers/util.go", "cmd/gosec/main.go", "helpers.go"],
 [("snippet files opened and closed per finding", "issue/issue.go:New, analyzers/util.go:issueCodeSnippet"), ("configuration, log and report files", "cmd/gosec/main.go:loadConfig, saveReport, main")],
 ["open file descriptors, contents of the file system, process settings"], "file operation seam with an account of open files")

prop("C24", "Findings are where the flagged code is and show it",
 "Every finding names a scanned file, a line range inside that file and a column at which a token of the flagged construct starts, and its snippet consists of exactly the source lines of that range together with one line before and one after, as far as they exist, each with its own number - for every layout of the source (long lines, carriage returns, byte order mark, missing final newline, comments, constructs broken over lines), every number of packages with equally named files, every concurrency and schedule; when the file cannot be opened or read any more only the snippet may be incomplete. Writing the same tokens in another layout changes no finding except for line, column and snippet. (Sources with //line directives are excepted.)",
 ["inputs", "schedules", "fault_sequences"],
 "corpus and generated packages rewritten into drawn layouts, several packages at once, failures of opening and reading while snippets are taken, schedules",
 "Tests compare numbers of findings and a few lines; columns, ranges and snippets are never checked against the source, and all samples have the same plain layout.",
 ["issue/issue.go", "analyzers/util.go"],
 [("place of AST findings", "issue/issue.go:New, GetLine"), ("place of SSA findings", "analyzers/util.go:newIssue"), ("snippet", "issue/issue.go:CodeSnippet, analyzers/util.go:issueCodeSnippet")],
 ["findings of Analyzer.Report()"], "file operation seam, simulated loader")

prop("C25", "Selecting rules and excluding generated files take away exactly that",
 "What a rule or analyzer finds depends neither on which others run beside it nor on which files are left out: for every set of packages, every include and exclude list (by flag or by the configuration, where a flag takes the place of the setting) and every schedule, the findings are exactly those findings of the scan with all rules whose rule is included (or nothing is) and not excluded and, when generated files are excluded, whose file carries no mark of generated code - whichever rules, files and packages come before. When suppressions are tracked the findings of the other rules are kept, marked as suppressed externally. Errors stay the same, and so do the numbers of analysed files and lines unless generated files are excluded.",
 ["configurations", "inputs", "schedules"],
 "corpus and generated packages, some failing, with drawn marks of generated code; one, several or all but one rule included, excluded or both; settings by flag, by configuration and by both; schedules",
 "Tests enable one rule at a time or all of them, and have one generated file in one package; they never compare a partial scan with a whole one.",
 ["rules/rulelist.go", "analyzers/analyzerslist.go", "analyzer.go", "cmd/gosec/main.go"],
 [("filters", "rules/rulelist.go:Generate, analyzers/analyzerslist.go:Generate"), ("generated files", "analyzer.go:CheckRules, generatedFiles"), ("flags over configuration", "cmd/gosec/main.go:loadConfig"), ("external suppressions", "analyzer.go:getSuppressionsAtLineInFile")],
 ["findings and errors of Analyzer.Report()", "JSON report of the command"], "simulated loader, whole-program simulation of the command")

prop("C26", "Settings of a rule take effect as given, for that rule only",
 "For every configuration, however many rules have settings in it and whatever else it holds, the scan and the command behave as its settings say: G301, G302, G306 and G307 report exactly the modes that are not contained in the configured one and name it, G104 exempts exactly the configured functions next to the default ones, G101 and G111 go by the configured pattern and entropy settings. A setting has no effect on the findings of another rule, on errors or on counters; settings of the wrong type or with values that cannot be read, and sections of other names, have no effect at all and never make the scan panic (an invalid regular expression may be refused before scanning) - whichever packages are scanned, with whichever concurrency and schedule.",
 ["configurations", "inputs", "schedules"],
 "drawn settings of up to seven rules, usable and unusable, beside foreign sections; generated packages whose lines are known to call for findings, beside corpus and failing packages; schedules; by the library and by the command's configuration file",
 "Tests give one rule one valid setting over one sample; they never combine settings, give unusable ones, or look at the other rules.",
 ["rules/", "config.go", "cmd/gosec/main.go", "call_list.go"],
 [("settings of G101", "rules/hardcoded_credentials.go:NewHardcodedCredentials"), ("settings of G104", "rules/errors.go:NewNoErrorCheck"), ("settings of G111", "rules/directory-traversal.go:NewDirectoryTraversal"), ("modes", "rules/fileperms.go:getConfiguredMode"), ("configuration file", "config.go:ReadFrom")],
 ["findings of Analyzer.Report() and the JSON report of the command"], "simulated loader, scripted command line")

prop("C27", "The TLS rule generator writes exactly the fetched document or fails",
 "For every answer of the site that publishes the recommended TLS configurations - complete, in pieces, cut off, damaged, of another shape, without one of the three configurations or without a known protocol version, or none at all - and every outcome of writing, tlsconfig either ends with status 0 and has written formatted Go source in the named package to the named file in the named directory, with one rule for each of the modern, intermediate and old configurations that holds exactly the ciphers and the lowest and highest known protocol version of the document, or it ends with another status and a message. As long as writing itself does not fail, it leaves the file as it was when it fails; it never touches another file.",
 ["fault_sequences", "inputs", "configurations"],
 "drawn documents, answers in pieces, cut at every byte, damaged, refused; flags and directories, existing and missing; failures of opening, writing and closing the file",
 "There are no tests of this command.",
 ["cmd/tlsconfig/tlsconfig.go", "cmd/tlsconfig/tls_version.go", "cmd/tlsconfig/rule_template.go", "cmd/tlsconfig/header_template.go"],
 [("download", "cmd/tlsconfig/tlsconfig.go:getTLSConfFromURL"), ("translation", "cmd/tlsconfig/tlsconfig.go:getGoCipherConfig, tls_version.go:mapTLSVersions"), ("output", "cmd/tlsconfig/tlsconfig.go:main, rule_template.go")],
 ["exit status, files and standard error of the command"], "scripted transport below net/http, file operation seam, scripted command line")

# ---- not applicable for this technique -------------------------------------
prop("C30", "Each rule detects exactly the constructs its documentation describes",
 "For every Go program, each rule reports the constructs its documentation names and does not report code that is free of them.",
 ["programs", "inputs"], "all Go programs", "The sample corpus is finite.",
 ["rules/", "RULES.md"], [("rule matchers", "rules/")], ["findings"])
prop("C31", "Integer conversion and slice bounds analyses are sound for the code they model",
 "The SSA-based analyses report every conversion that can overflow and every slice access that can exceed its bounds within the constructs they model, and accept values guarded by range checks.",
 ["programs"], "all programs within the modelled constructs", "Finite samples.",
 ["analyzers/conversion_overflow.go", "analyzers/slice_bounds.go"], [("range analysis", "analyzers/")], ["findings"])
prop("C32", "Every rule identifier has a weakness classification",
 "Every finding carries a CWE entry whose identifier is known to the embedded weakness catalogue.",
 ["inputs"], "all rule identifiers", "Tests list only part of the identifiers.",
 ["issue/issue.go", "cwe/data.go"], [("rule to CWE table", "issue/issue.go")], ["findings", "reports"])
prop("C34", "Package references are resolved through import aliases",
 "A call is attributed to an imported package under every alias, dot or versioned import form of that package and never to another package with the same local name.",
 ["programs"], "all import forms", "A few alias samples.",
 ["import_tracker.go", "helpers.go", "call_list.go"], [("ImportTracker", "import_tracker.go")], ["findings"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
