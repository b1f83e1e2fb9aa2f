package main

import "time"

const long = 10 * time.Minute

// budgets of the checks: quick runs are a fixed number, thorough ones a time.
var budgets = map[string]budget{
	"C01": {runs: 13650, batch: 150, level: "exploration", thorough: long},
	"C02": {runs: 13650, batch: 150, level: "fault_enumeration", thorough: long},
	"C03": {runs: 13650, batch: 150, level: "exploration", thorough: long},
	"C04": {runs: 5520, batch: 60, level: "exploration", thorough: long},
	"C05": {runs: 27300, batch: 300, level: "fault_enumeration", thorough: long},
	"C06": {runs: 32000, batch: 250, level: "fault_enumeration", thorough: long},
	"C07": {runs: 9200, batch: 100, level: "exploration", thorough: long},
	"C08": {runs: 1380, batch: 20, level: "exploration", thorough: long},
	"C09": {runs: 9200, batch: 100, level: "fault_enumeration", thorough: long},
	"C10": {runs: 5520, batch: 60, level: "fault_enumeration", thorough: long},
	"C11": {runs: 9200, batch: 100, level: "fault_enumeration", thorough: long},
	"C12": {runs: 13650, batch: 150, level: "fault_enumeration", thorough: long},
	"C13": {runs: 48000, batch: 300, level: "fault_enumeration", thorough: long},
	"C14": {runs: 13650, batch: 150, level: "exploration", thorough: long},
	"C15": {runs: 8010, batch: 90, level: "exploration", thorough: long},
	"C16": {runs: 8000, batch: 100, level: "exploration", thorough: long},
	"C17": {runs: 13650, batch: 150, level: "exploration", thorough: long},
	"C18": {runs: 6825, batch: 75, level: "exploration", thorough: long},
	"C19": {runs: 13650, batch: 150, level: "fault_enumeration", thorough: long},
	"C20": {runs: 18400, batch: 200, level: "fault_enumeration", thorough: long},
	"C21": {runs: 18400, batch: 200, level: "exploration", thorough: long},
	"C22": {runs: 23000, batch: 200, level: "exploration", thorough: long},
	"C23": {runs: 18400, batch: 200, level: "fault_enumeration", thorough: long},
	"C24": {runs: 18000, batch: 150, level: "exploration", thorough: long},
	"C25": {runs: 14000, batch: 200, level: "exploration", thorough: long},
	"C26": {runs: 12000, batch: 200, level: "exploration", thorough: long},
	"C27": {runs: 23000, batch: 250, level: "fault_enumeration", thorough: long},
}

// ruleOf says what is counted as a distinct non-trivial evaluation.
var ruleOf = map[string]string{
	"C01": "a run draws packages, options, a concurrency, load latencies and a schedule; it is non-trivial when at least two packages are scanned with concurrency of at least two; distinct by package set, options and order of synchronisation operations",
	"C02": "a run draws up to six package directories, each healthy or failing in one of 17 ways, a concurrency and a schedule; it is non-trivial when some but not all of them fail; distinct by the kinds of failure, options and order of synchronisation operations",
	"C03": "a run draws packages with tag-guarded files, a tag list, concurrency and schedule, and scans them on one analyzer, also repeatedly with other tags; non-trivial when at least two packages have tag-guarded files; distinct by the expected sets of files, tags and order of synchronisation operations",
	"C04": "a run draws two to five packages, half of them from one family of rules that keep state, and compares scans of all of them, in two orders or one by one on one analyzer, with scans of each alone; non-trivial when there are findings; distinct by packages, options and order of synchronisation operations",
	"C05": "a run draws up to seven packages, healthy, failing or with errors that cannot be interpreted, a concurrency of up to 60, latencies and a schedule; non-trivial when there is a package; distinct by kinds, concurrency and order of synchronisation operations",
	"C06": "a run draws one or two packages with broken sources (token and syntax-tree mutations, torn reads, missing imports, vanished or unreadable files, declarations moved between files) next to healthy ones; non-trivial when a package really does not compile; distinct by the mutations, the number of findings and the order of synchronisation operations",
	"C07": "a run draws a package with findings, inserts directives of every form at drawn places (nested, overlapping, several on a line, in other files), and compares the scan with the model's partition of the findings of the scan without directives; non-trivial when at least one directive covers a finding; distinct by the directives, options and order of synchronisation operations",
	"C08": "a run draws a tree of packages, healthy and broken, and flags, and executes the command twice with different concurrency, latencies, map orders and schedules; non-trivial when at least two packages are scanned and something is written; distinct by flags and order of synchronisation operations",
	"C09": "a run draws findings and three formats and gives each report six destinations that fail at a drawn byte or call, once or for good, or lets writes of the command's report file or standard output fail; non-trivial when the report has bytes; distinct by findings, formats and failure points",
	"C10": "a run draws packages, flags, thresholds, arguments and failures of the configuration, log, report files, standard output and directory walk, and executes the command; distinct by the kinds of package, flags, reasons to fail and order of synchronisation operations",
	"C11": "a run draws findings with repeated descriptions and the behaviour of the service for every request (answer shapes, errors, delays, hanging), and generates suggestions or executes the command with and without them; non-trivial when the service is connected; distinct by findings, behaviour and order of synchronisation operations",
	"C12": "a run draws four configurations, some damaged, and reads each in drawn pieces with a failure at a drawn byte, onto earlier settings, and writes it to failing destinations; or executes the command over such a file; distinct by texts, pieces and failure points",
	"C13": "a run draws a directory tree, exclusions, the part that is walked and failures of listings and file examinations, and expands the path or executes the command; non-trivial when the tree has at least two directories; distinct by tree, exclusions and failures",
	"C14": "a run draws two or three analyzers with settings of their own, sometimes sharing packages, and up to three reports, sometimes of the same findings, lets them run concurrently and compares each with its use alone; non-trivial when there are findings; distinct by analyzers, reports and order of synchronisation operations",
	"C15": "a run draws a history of up to four segments of scans (healthy, failing and aborted ones, of packages edited in between) separated by resets and other settings, and compares every segment with a new analyzer and with the sum of its scans; non-trivial when there are findings; distinct by history, settings and order of synchronisation operations",
	"C16": "a run draws findings and a sequence of reports, some to failing destinations, and compares each with the one created alone and the findings before and after; or compares the outputs of executions of the command; non-trivial when there are findings; distinct by findings and sequence",
	"C17": "a run draws findings of repeated rules and weaknesses in drawn orders and decides the SARIF report, or compares it with the JSON report of an execution of the command; non-trivial with at least two findings; distinct by findings and order",
	"C18": "a run draws packages with directives and rule selections and compares a tracking scan with the scan without tracking and with the model's records; non-trivial when a finding carries a suppression; distinct by sources, options and order of synchronisation operations",
	"C19": "a run draws packages and, for every moment after they were parsed, removals, truncations and replacements of files and failures of opening or reading them, and compares with the scan of lasting files; non-trivial when a file was affected and there are findings; distinct by what happened, options and order of synchronisation operations",
	"C20": "a run draws a toolchain, an explicit version, and up to four answers of the go command, each healthy or failing in one of ten ways, and compares lookups with the model and a scan with scans of an explicit version; distinct by answers, packages and order of synchronisation operations",
	"C21": "a run draws packages with directives, generated files and failures, and compares the counters of the scan or of two reports of the command with counts over the sources; non-trivial when something is analysed; distinct by kinds, options, counts and order of synchronisation operations",
	"C22": "a run draws findings, errors, root paths and a format, or packages and flags of the command, reads the report back and compares it with the findings; non-trivial when there are findings to list; distinct by format and findings, or by flags and order of synchronisation operations",
	"C23": "a run draws packages, healthy, failing, broken or vanishing, a limit of descriptors and failures of opening and reading, scans them and creates reports to failing destinations, or executes the command, and looks at what is left; non-trivial when files were opened or outputs asked for; distinct by packages, options, files opened and order of synchronisation operations",
	"C24": "a run draws packages, rewrites their layout (line breaks, comments, long lines, line ends, marks) without touching the tokens, scans both, the second with drawn failures of reading, and compares places and snippets with the sources and the findings by tokens; non-trivial when there are findings; distinct by packages, options, places and order of synchronisation operations",
	"C25": "a run draws packages, some broken or failing, marks files as generated, draws include and exclude lists and where they are set, and compares the simulated scan or command with the selection from a scan with all rules; non-trivial when there are findings; distinct by packages, options and order of synchronisation operations",
	"C26": "a run draws settings for up to seven rules, some of the wrong type, next to settings of no rule, and source lines for which a model says what they call for, and compares the simulated scan or command with the model, with the scan without settings and with the scan with one rule's settings; non-trivial when a rule has usable settings; distinct by packages, source, settings and order of synchronisation operations",
	"C27": "a run draws a document of recommended configurations, the way it arrives (in pieces, cut, damaged, not at all), flags, directories and failures of the file, executes tlsconfig and compares the file with the document; every run is non-trivial; distinct by document, arguments and faults",
}
