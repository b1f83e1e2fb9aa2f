From 9830637d27998f3aff81acbe587df8c491f602d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:58 +0000
Subject: [PATCH 01/42] fix: make overlapping inline suppressions independent
 of the comment order

A directive nested in the range of another one was merged into the outer
range, and only the first matching range was considered for a finding, so
that the suppressed findings and their records depended on the iteration
order of the comment map.
---
 analyzer.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 34ac82b..e8cb8c7 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -28,6 +28,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 	"sync"
@@ -94,7 +95,7 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 	found := false
 	start, end := i.parseLine(line)
 	for _, ig := range is {
-		if ig.start <= start && ig.end >= end {
+		if ig.start == start && ig.end == end {
 			found = true
 			for r, s := range suppressions {
 				ss, ok := ig.suppressions[r]
@@ -123,14 +124,15 @@ func (i ignores) add(file string, line string, suppressions map[string]issue.Sup
 
 func (i ignores) get(file string, line string) map[string][]issue.SuppressionInfo {
 	start, end := i.parseLine(line)
-	if is, ok := i[file]; ok {
-		for _, i := range is {
-			if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
-				return i.suppressions
+	suppressions := map[string][]issue.SuppressionInfo{}
+	for _, i := range i[file] {
+		if i.start <= start && i.end >= end || start <= i.start && end >= i.end {
+			for r, s := range i.suppressions {
+				suppressions[r] = append(suppressions[r], s...)
 			}
 		}
 	}
-	return map[string][]issue.SuppressionInfo{}
+	return suppressions
 }
 
 // The Context is populated with data parsed from the source code as it is scanned.
@@ -677,7 +679,15 @@ func (gosec *Analyzer) Visit(n ast.Node) ast.Visitor {
 }
 
 func (gosec *Analyzer) updateIgnores() {
+	nodes := make([]ast.Node, 0, len(gosec.context.Comments))
 	for n := range gosec.context.Comments {
+		nodes = append(nodes, n)
+	}
+	// Process the nodes in source order, to have reproducible suppressions.
+	sort.Slice(nodes, func(i, j int) bool {
+		return gosec.context.Comments[nodes[i]][0].Pos() < gosec.context.Comments[nodes[j]][0].Pos()
+	})
+	for _, n := range nodes {
 		gosec.updateIgnoredRulesForNode(n)
 	}
 }
-- 
2.43.0


From 340d1be77a415efa516ec0e5632ab878b8581e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 02/42] fix: honour every nosec directive attached to a node

---
 analyzer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index e8cb8c7..5dcdced 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -562,7 +562,8 @@ func (gosec *Analyzer) AppendError(file string, err error) {
 }
 
 // ignore a node (and sub-tree) if it is tagged with a nosec tag comment
-func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
+// and returns the ignored rules of each of its directives.
+func (gosec *Analyzer) ignore(n ast.Node) []map[string]issue.SuppressionInfo {
 	if gosec.ignoreNosec {
 		return nil
 	}
@@ -585,6 +586,7 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		noSecAlternativeTag = NoSecTag(noSecAlternativeTag)
 	}
 
+	var ignoredRules []map[string]issue.SuppressionInfo
 	for _, group := range groups {
 		found, args := findNoSecDirective(group, noSecDefaultTag, noSecAlternativeTag)
 		if !found {
@@ -620,9 +622,9 @@ func (gosec *Analyzer) ignore(n ast.Node) map[string]issue.SuppressionInfo {
 		if len(matches) == 0 {
 			ignores[aliasOfAllRules] = suppression
 		}
-		return ignores
+		ignoredRules = append(ignoredRules, ignores)
 	}
-	return nil
+	return ignoredRules
 }
 
 // findNoSecDirective checks if the comment group contains `#nosec` or `//gosec:disable` directive.
@@ -649,7 +651,7 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+tag).MatchString(comment) {
+	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
 		// Discard what's in front of the nosec tag.
 		return true, strings.SplitN(comment, tag, 2)[1]
 	}
@@ -693,8 +695,7 @@ func (gosec *Analyzer) updateIgnores() {
 }
 
 func (gosec *Analyzer) updateIgnoredRulesForNode(n ast.Node) {
-	ignoredRules := gosec.ignore(n)
-	if len(ignoredRules) > 0 {
+	for _, ignoredRules := range gosec.ignore(n) {
 		if gosec.context.Ignores == nil {
 			gosec.context.Ignores = newIgnores()
 		}
-- 
2.43.0


From be8066d3428dfa1f064552a330fd373f3273acf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 03/42] fix: keep the SARIF rule indexes valid when rules are
 inserted

---
 report/sarif/formatter.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index f47c250..e773276 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -33,8 +33,17 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 		}
 
 		rule := parseSarifRule(issue)
+		inserted := len(rules)
 		var ruleIndex int
 		rules, ruleIndex = addRuleInOrder(rules, rule)
+		if len(rules) > inserted {
+			// Adjust the results which refer to the rules moved by the insertion.
+			for _, result := range results {
+				if result.RuleIndex >= ruleIndex {
+					result.RuleIndex++
+				}
+			}
+		}
 
 		location, err := parseSarifLocation(issue, rootPaths)
 		if err != nil {
@@ -70,7 +79,7 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 // addRuleInOrder inserts a rule into the rules slice keeping the rules IDs order, it returns the new rules
 // slice and the position where the rule was inserted
 func addRuleInOrder(rules []*ReportingDescriptor, rule *ReportingDescriptor) ([]*ReportingDescriptor, int) {
-	position := 0
+	position := len(rules)
 	for i, r := range rules {
 		if r.ID < rule.ID {
 			continue
-- 
2.43.0


From ec5d711f5816490abbc1a67020fb48419056830b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 04/42] fix: report the errors when flushing the CSV report

---
 report/csv/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/report/csv/writer.go b/report/csv/writer.go
index 40bb6a1..0b15715 100644
--- a/report/csv/writer.go
+++ b/report/csv/writer.go
@@ -10,7 +10,6 @@ import (
 // WriteReport write a report in csv format to the output writer
 func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 	out := csv.NewWriter(w)
-	defer out.Flush()
 	for _, issue := range data.Issues {
 		err := out.Write([]string{
 			issue.File,
@@ -25,5 +24,6 @@ func WriteReport(w io.Writer, data *gosec.ReportInfo) error {
 			return err
 		}
 	}
-	return nil
+	out.Flush()
+	return out.Error()
 }
-- 
2.43.0


From fcb67bc369ce85c14bf1ca13caa255898e494363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 05/42] fix: report the errors when closing the output file

---
 cmd/gosec/main.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 2753ea4..59d7de8 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -309,12 +309,11 @@ func saveReport(filename, format string, rootPaths []string, reportInfo *gosec.R
 	if err != nil {
 		return err
 	}
-	defer outfile.Close() // #nosec G307
 	err = report.CreateReport(outfile, format, false, rootPaths, reportInfo)
-	if err != nil {
-		return err
+	if cerr := outfile.Close(); err == nil {
+		err = cerr
 	}
-	return nil
+	return err
 }
 
 func convertToScore(value string) (issue.Score, error) {
-- 
2.43.0


From 81c73d2467672dd3d61d37199ea8ba2950d6b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 06/42] fix: do not modify the report info when creating a
 report

---
 report/formatter.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/report/formatter.go b/report/formatter.go
index 3e83dc6..b24e52b 100644
--- a/report/formatter.go
+++ b/report/formatter.go
@@ -55,7 +55,10 @@ const (
 func CreateReport(w io.Writer, format string, enableColor bool, rootPaths []string, data *gosec.ReportInfo) error {
 	var err error
 	if format != "json" && format != "sarif" {
-		data.Issues = filterOutSuppressedIssues(data.Issues)
+		// Filter a copy, the same data can be used to generate other reports.
+		filtered := *data
+		filtered.Issues = filterOutSuppressedIssues(data.Issues)
+		data = &filtered
 	}
 	switch format {
 	case "json":
-- 
2.43.0


From 613b08bec8e10910a12c9a8d8d3af4c9489eb26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 07/42] fix: fail on source errors also in quiet mode

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 59d7de8..15d98bc 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -494,7 +494,7 @@ func main() {
 
 	// Exit quietly if nothing was found
 	if len(issues) == 0 && *flagQuiet {
-		os.Exit(0)
+		exit(issues, errors, *flagNoFail)
 	}
 
 	// Create output report
-- 
2.43.0


From 580544b103a592f019765f954012ad1090095277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 08/42] fix: handle AI candidates without content

---
 autofix/ai.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/autofix/ai.go b/autofix/ai.go
index 3535f7e..0fe3429 100644
--- a/autofix/ai.go
+++ b/autofix/ai.go
@@ -63,16 +63,17 @@ func (w *genAIGenerativeModelWrapper) GenerateContent(ctx context.Context, promp
 	if err != nil {
 		return "", fmt.Errorf("generating autofix: %w", err)
 	}
-	if len(resp.Candidates) == 0 {
+	if resp == nil || len(resp.Candidates) == 0 {
 		return "", errors.New("no autofix returned by gemini")
 	}
 
-	if len(resp.Candidates[0].Content.Parts) == 0 {
+	candidate := resp.Candidates[0]
+	if candidate == nil || candidate.Content == nil || len(candidate.Content.Parts) == 0 {
 		return "", errors.New("nothing found in the first autofix returned by gemini")
 	}
 
 	// Return the first candidate
-	return fmt.Sprintf("%+v", resp.Candidates[0].Content.Parts[0]), nil
+	return fmt.Sprintf("%+v", candidate.Content.Parts[0]), nil
 }
 
 // NewGenAIClient creates a new gemini API client.
-- 
2.43.0


From 4a438d035b6c1e8fb4d8176d88efb5d6f411075b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 09/42] fix: use the AI API key given on the command line

---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 15d98bc..5da2fac 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -504,7 +504,7 @@ func main() {
 
 	// Call AI request to solve the issues
 	aiAPIKey := os.Getenv(aiAPIKeyEnv)
-	if aiAPIKeyEnv == "" {
+	if aiAPIKey == "" {
 		aiAPIKey = *flagAiAPIKey
 	}
 	if *flagAiAPIProvider != "" && aiAPIKey != "" {
-- 
2.43.0


From 8532caa67b03ccfd01d664c6ae5f1ea3c6502b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:04 +0000
Subject: [PATCH 10/42] fix: clear the errors when the analyzer is reset

---
 analyzer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/analyzer.go b/analyzer.go
index 5dcdced..d43fbf5 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -756,6 +756,7 @@ func (gosec *Analyzer) Reset() {
 	gosec.context = &Context{}
 	gosec.issues = make([]*issue.Issue, 0, 16)
 	gosec.stats = &Metrics{}
+	gosec.errors = make(map[string][]Error)
 	gosec.ruleset = NewRuleSet()
 	gosec.analyzerSet = analyzers.NewAnalyzerSet()
 }
-- 
2.43.0


From cc40f16d53932794e8a5603181488e8ec9156f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 11/42] fix: report the folders which cannot be read when
 searching for packages

---
 helpers.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/helpers.go b/helpers.go
index 33e2b4a..5a30e23 100644
--- a/helpers.go
+++ b/helpers.go
@@ -22,6 +22,7 @@ import (
 	"go/ast"
 	"go/token"
 	"go/types"
+	"io/fs"
 	"os"
 	"os/exec"
 	"os/user"
@@ -455,6 +456,14 @@ func PackagePaths(root string, excludes []*regexp.Regexp) ([]string, error) {
 				return nil
 			}
 			paths[path] = true
+			return nil
+		}
+		if err != nil && !errors.Is(err, fs.ErrNotExist) {
+			dir := filepath.ToSlash(path)
+			if isExcluded(dir, excludes) || isExcluded(dir+"/", excludes) {
+				return nil
+			}
+			return err
 		}
 		return nil
 	})
-- 
2.43.0


From bebf3711dc808f00b8e326d0d763b1ec0766d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 12/42] fix: sort the issues and errors in a reproducible order

---
 cmd/gosec/sort_issues.go |  8 +++++++-
 errors.go                | 11 +++++++----
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/cmd/gosec/sort_issues.go b/cmd/gosec/sort_issues.go
index c155cbf..a1458b7 100644
--- a/cmd/gosec/sort_issues.go
+++ b/cmd/gosec/sort_issues.go
@@ -17,12 +17,18 @@ func extractLineNumber(s string) int {
 
 // sortIssues sorts the issues by severity in descending order
 func sortIssues(issues []*issue.Issue) {
-	slices.SortFunc(issues, func(i, j *issue.Issue) int {
+	slices.SortStableFunc(issues, func(i, j *issue.Issue) int {
 		return -cmp.Or(
 			cmp.Compare(i.Severity, j.Severity),
 			cmp.Compare(i.What, j.What),
 			cmp.Compare(i.File, j.File),
 			cmp.Compare(extractLineNumber(i.Line), extractLineNumber(j.Line)),
+			// Issues which are still equal get a fixed order, to have reproducible reports.
+			cmp.Compare(i.Line, j.Line),
+			cmp.Compare(extractLineNumber(i.Col), extractLineNumber(j.Col)),
+			cmp.Compare(i.RuleID, j.RuleID),
+			cmp.Compare(i.Confidence, j.Confidence),
+			cmp.Compare(i.Code, j.Code),
 		)
 	})
 }
diff --git a/errors.go b/errors.go
index 2f66727..be2b70b 100644
--- a/errors.go
+++ b/errors.go
@@ -23,11 +23,14 @@ func NewError(line, column int, err string) *Error {
 // sortErrors sorts the golang errors by line
 func sortErrors(allErrors map[string][]Error) {
 	for _, errors := range allErrors {
-		sort.Slice(errors, func(i, j int) bool {
-			if errors[i].Line == errors[j].Line {
-				return errors[i].Column <= errors[j].Column
+		sort.SliceStable(errors, func(i, j int) bool {
+			if errors[i].Line != errors[j].Line {
+				return errors[i].Line < errors[j].Line
 			}
-			return errors[i].Line < errors[j].Line
+			if errors[i].Column != errors[j].Column {
+				return errors[i].Column < errors[j].Column
+			}
+			return errors[i].Err < errors[j].Err
 		})
 	}
 }
-- 
2.43.0


From 9f26df8526c73b5ce69f3974d3857d1970b40e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 13/42] fix: return the packages paths in a fixed order

---
 helpers.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/helpers.go b/helpers.go
index 5a30e23..59da0e1 100644
--- a/helpers.go
+++ b/helpers.go
@@ -29,6 +29,7 @@ import (
 	"path/filepath"
 	"regexp"
 	"runtime"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -475,6 +476,7 @@ func PackagePaths(root string, excludes []*regexp.Regexp) ([]string, error) {
 	for path := range paths {
 		result = append(result, path)
 	}
+	sort.Strings(result)
 	return result, nil
 }
 
-- 
2.43.0


From 2ad9fc8aba9cc4402f323b5ea6a806e7af741e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 14/42] fix: apply the build tags to every scanned package

---
 analyzer.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index d43fbf5..10c7fec 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -253,9 +253,11 @@ func (gosec *Analyzer) LoadAnalyzers(analyzerDefinitions map[string]analyzers.An
 // Process kicks off the analysis process for a given package
 func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error {
 	config := &packages.Config{
-		Mode:       LoadMode,
-		BuildFlags: buildTags,
-		Tests:      gosec.tests,
+		Mode:  LoadMode,
+		Tests: gosec.tests,
+	}
+	if len(buildTags) > 0 {
+		config.BuildFlags = []string{"-tags=" + strings.Join(buildTags, ",")}
 	}
 
 	type result struct {
@@ -274,7 +276,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		for {
 			select {
 			case s := <-j:
-				pkgs, err := gosec.load(s, config)
+				pkgs, err := gosec.load(s, buildTags, config)
 				select {
 				case r <- result{pkgPath: s, pkgs: pkgs, err: err}:
 				case <-quit:
@@ -327,7 +329,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 	return nil
 }
 
-func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.Package, error) {
+func (gosec *Analyzer) load(pkgPath string, buildTags []string, conf *packages.Config) ([]*packages.Package, error) {
 	abspath, err := GetPkgAbsPath(pkgPath)
 	if err != nil {
 		gosec.logger.Printf("Skipping: %s. Path doesn't exist.", abspath)
@@ -338,9 +340,7 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 	// step 1/3 create build context.
 	buildD := build.Default
 	// step 2/3: add build tags to get env dependent files into basePackage.
-	gosec.mu.Lock()
-	buildD.BuildTags = conf.BuildFlags
-	gosec.mu.Unlock()
+	buildD.BuildTags = buildTags
 	basePackage, err := buildD.ImportDir(pkgPath, build.ImportComment)
 	if err != nil {
 		return []*packages.Package{}, fmt.Errorf("importing dir %q: %w", pkgPath, err)
@@ -363,9 +363,8 @@ func (gosec *Analyzer) load(pkgPath string, conf *packages.Config) ([]*packages.
 		}
 	}
 
-	// step 3/3 remove build tags from conf to proceed build correctly.
+	// step 3/3 load the package, one at a time.
 	gosec.mu.Lock()
-	conf.BuildFlags = nil
 	defer gosec.mu.Unlock()
 	pkgs, err := packages.Load(conf, packageFiles...)
 	if err != nil {
-- 
2.43.0


From bce42ad9863559046bd9775d2fb28de0fbf4c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 15/42] fix: scan the packages also when the concurrency is not
 positive

---
 analyzer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 10c7fec..0a05e0d 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -298,7 +298,7 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 		jobs <- pkgPath
 	}
 
-	for i := 0; i < gosec.concurrency; i++ {
+	for i := 0; i < max(gosec.concurrency, 1); i++ {
 		wg.Add(1)
 		go worker(jobs, results, quit)
 	}
-- 
2.43.0


From 7f03e9d29aea4e03e0bf83e191bc7bffe44dd957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 16/42] fix: do not scan the current folder instead of a
 package without files

---
 analyzer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 0a05e0d..2e60067 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -363,6 +363,12 @@ func (gosec *Analyzer) load(pkgPath string, buildTags []string, conf *packages.C
 		}
 	}
 
+	if len(packageFiles) == 0 {
+		// There is nothing to scan (e.g. only test files). Without any file the
+		// package of the current working directory would be loaded instead.
+		return []*packages.Package{}, nil
+	}
+
 	// step 3/3 load the package, one at a time.
 	gosec.mu.Lock()
 	defer gosec.mu.Unlock()
-- 
2.43.0


From 151f47a614b9ebc8ea8397e429f18e34bd3fca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 17/42] fix: record the errors of the packages which cannot be
 loaded

---
 analyzer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/analyzer.go b/analyzer.go
index 2e60067..9598f55 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -313,7 +313,12 @@ func (gosec *Analyzer) Process(buildTags []string, packagePaths ...string) error
 			gosec.AppendError(r.pkgPath, r.err)
 		}
 		for _, pkg := range r.pkgs {
-			if pkg.Name != "" {
+			if pkg.Name == "" {
+				// The package could not be loaded, there is nothing to check.
+				for _, pkgErr := range pkg.Errors {
+					gosec.AppendError(r.pkgPath, pkgErr)
+				}
+			} else {
 				err := gosec.ParseErrors(pkg)
 				if err != nil {
 					close(quit)
-- 
2.43.0


From c1770c279736d5b34a948d9aabf1ee42e75cd55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 18/42] fix: judge the versions of every TLS configuration on
 its own

---
 rules/tls.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 65a0b5a..6aa9d49 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -212,15 +212,14 @@ func (t *insecureConfigTLS) Match(n ast.Node, c *gosec.Context) (*issue.Issue, e
 	if complit, ok := n.(*ast.CompositeLit); ok && complit.Type != nil {
 		actualType := c.Info.TypeOf(complit.Type)
 		if actualType != nil && actualType.String() == t.requiredType {
+			t.resetVersion()
 			for _, elt := range complit.Elts {
 				issue := t.processTLSConf(elt, c)
 				if issue != nil {
 					return issue, nil
 				}
 			}
-			issue := t.checkVersion(complit, c)
-			t.resetVersion()
-			return issue, nil
+			return t.checkVersion(complit, c), nil
 		}
 	} else {
 		if assign, ok := n.(*ast.AssignStmt); ok && len(assign.Lhs) > 0 {
-- 
2.43.0


From 98e26c0965fbf69ad9887a82f74f61743d3fae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:42 +0000
Subject: [PATCH 19/42] fix: keep the implicit aliasing state within a file

---
 rules/implicit_aliasing.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/rules/implicit_aliasing.go b/rules/implicit_aliasing.go
index ee2358c..5a4eede 100644
--- a/rules/implicit_aliasing.go
+++ b/rules/implicit_aliasing.go
@@ -14,6 +14,7 @@ type implicitAliasing struct {
 	aliases         map[*ast.Object]struct{}
 	rightBrace      token.Pos
 	acceptableAlias []*ast.UnaryExpr
+	file            *ast.File
 }
 
 func (r *implicitAliasing) ID() string {
@@ -53,6 +54,14 @@ func (r *implicitAliasing) Match(n ast.Node, c *gosec.Context) (*issue.Issue, er
 		return nil, nil
 	}
 
+	// Positions are only comparable within a file.
+	if r.file != c.Root {
+		r.file = c.Root
+		r.aliases = make(map[*ast.Object]struct{})
+		r.rightBrace = token.NoPos
+		r.acceptableAlias = make([]*ast.UnaryExpr, 0)
+	}
+
 	switch node := n.(type) {
 	case *ast.RangeStmt:
 		// When presented with a range statement, get the underlying Object bound to
-- 
2.43.0


From 2795465def4f00b9a8abd6c63dfa8342ee6c7d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 20/42] fix: check the number of call arguments before using
 them

---
 rules/decompression-bomb.go | 2 +-
 rules/fileperms.go          | 2 +-
 rules/integer_overflow.go   | 2 +-
 rules/rsa.go                | 2 +-
 rules/sql.go                | 4 ++--
 rules/subproc.go            | 2 +-
 rules/tempfiles.go          | 4 ++--
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/rules/decompression-bomb.go b/rules/decompression-bomb.go
index 7e57f1a..c1b46cd 100644
--- a/rules/decompression-bomb.go
+++ b/rules/decompression-bomb.go
@@ -69,7 +69,7 @@ func (d *decompressionBombCheck) Match(node ast.Node, ctx *gosec.Context) (*issu
 			}
 		}
 	case *ast.CallExpr:
-		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil {
+		if d.copyCalls.ContainsPkgCallExpr(n, ctx, false) != nil && len(n.Args) > 1 {
 			if idt, ok := n.Args[1].(*ast.Ident); ok {
 				if _, ok := readerVarObj[idt.Obj]; ok {
 					// Detect io.Copy(x, r)
diff --git a/rules/fileperms.go b/rules/fileperms.go
index bf2a959..a3a387f 100644
--- a/rules/fileperms.go
+++ b/rules/fileperms.go
@@ -59,7 +59,7 @@ func modeIsSubset(subset int64, superset int64) bool {
 // Match checks if the rule is matched.
 func (r *filePermissions) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	for _, pkg := range r.pkgs {
-		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched {
+		if callexpr, matched := gosec.MatchCallByPackage(n, c, pkg, r.calls...); matched && len(callexpr.Args) > 0 {
 			modeArg := callexpr.Args[len(callexpr.Args)-1]
 			if mode, err := gosec.GetInt(modeArg); err == nil && !modeIsSubset(mode, r.mode) || isOsPerm(modeArg) {
 				return c.NewIssue(n, r.ID(), r.What, r.Severity, r.Confidence), nil
diff --git a/rules/integer_overflow.go b/rules/integer_overflow.go
index 1d57906..bf3a782 100644
--- a/rules/integer_overflow.go
+++ b/rules/integer_overflow.go
@@ -60,7 +60,7 @@ func (i *integerOverflowCheck) Match(node ast.Node, ctx *gosec.Context) (*issue.
 		}
 	case *ast.CallExpr:
 		if fun, ok := n.Fun.(*ast.Ident); ok {
-			if fun.Name == "int32" || fun.Name == "int16" {
+			if (fun.Name == "int32" || fun.Name == "int16") && len(n.Args) > 0 {
 				if idt, ok := n.Args[0].(*ast.Ident); ok {
 					if _, ok := atoiVarObj[idt.Obj]; ok {
 						// Detect int32(v) and int16(v)
diff --git a/rules/rsa.go b/rules/rsa.go
index 331e7fc..0d89f28 100644
--- a/rules/rsa.go
+++ b/rules/rsa.go
@@ -33,7 +33,7 @@ func (w *weakKeyStrength) ID() string {
 }
 
 func (w *weakKeyStrength) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
-	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil {
+	if callExpr := w.calls.ContainsPkgCallExpr(n, c, false); callExpr != nil && len(callExpr.Args) > 1 {
 		if bits, err := gosec.GetInt(callExpr.Args[1]); err == nil && bits < (int64)(w.bits) {
 			return c.NewIssue(n, w.ID(), w.What, w.Severity, w.Confidence), nil
 		}
diff --git a/rules/sql.go b/rules/sql.go
index 61222bf..a52c0ae 100644
--- a/rules/sql.go
+++ b/rules/sql.go
@@ -289,7 +289,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 	if node := s.fmtCalls.ContainsPkgCallExpr(n, ctx, false); node != nil {
 		// if the function is fmt.Fprintf, search for SQL statement in Args[1] instead
 		if sel, ok := node.Fun.(*ast.SelectorExpr); ok {
-			if sel.Sel.Name == "Fprintf" {
+			if sel.Sel.Name == "Fprintf" && len(node.Args) > 0 {
 				// if os.Stderr or os.Stdout is in Arg[0], mark as no issue
 				if arg, ok := node.Args[0].(*ast.SelectorExpr); ok {
 					if ident, ok := arg.X.(*ast.Ident); ok {
@@ -304,7 +304,7 @@ func (s *sqlStrFormat) checkFormatting(n ast.Node, ctx *gosec.Context) *issue.Is
 		}
 
 		// no formatter
-		if len(node.Args) == 0 {
+		if argIndex >= len(node.Args) {
 			return nil
 		}
 
diff --git a/rules/subproc.go b/rules/subproc.go
index 1e2ceda..1686319 100644
--- a/rules/subproc.go
+++ b/rules/subproc.go
@@ -43,7 +43,7 @@ func (r *subprocess) ID() string {
 func (r *subprocess) Match(n ast.Node, c *gosec.Context) (*issue.Issue, error) {
 	if node := r.ContainsPkgCallExpr(n, c, false); node != nil {
 		args := node.Args
-		if r.isContext(n, c) {
+		if r.isContext(n, c) && len(args) > 0 {
 			args = args[1:]
 		}
 		for _, arg := range args {
diff --git a/rules/tempfiles.go b/rules/tempfiles.go
index 6fef52a..29f5bab 100644
--- a/rules/tempfiles.go
+++ b/rules/tempfiles.go
@@ -50,14 +50,14 @@ func (t *badTempFile) findTempDirArgs(n ast.Node, c *gosec.Context, suspect ast.
 		}
 		return nil
 	}
-	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil {
+	if ce := t.nestedCalls.ContainsPkgCallExpr(suspect, c, false); ce != nil && len(ce.Args) > 0 {
 		return t.findTempDirArgs(n, c, ce.Args[0])
 	}
 	return nil
 }
 
 func (t *badTempFile) Match(n ast.Node, c *gosec.Context) (gi *issue.Issue, err error) {
-	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil {
+	if node := t.calls.ContainsPkgCallExpr(n, c, false); node != nil && len(node.Args) > 0 {
 		return t.findTempDirArgs(n, c, node.Args[0]), nil
 	}
 	return nil, nil
-- 
2.43.0


From 5d89e16accc6e70cd71e02cdf3d41729c0df462f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:35 +0000
Subject: [PATCH 21/42] fix: do not crash on TLS versions declared out of reach

---
 rules/tls.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/rules/tls.go b/rules/tls.go
index 6aa9d49..8a3c81a 100644
--- a/rules/tls.go
+++ b/rules/tls.go
@@ -118,11 +118,13 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 						}
 					}
 				}
+				if obj == nil {
+					// The declaration is not available in the source of the package.
+					return nil
+				}
 				if vs, ok := obj.Decl.(*ast.ValueSpec); ok && len(vs.Values) > 0 {
-					if s, ok := vs.Values[0].(*ast.SelectorExpr); ok {
-						x := s.X.(*ast.Ident).Name
-						sel := s.Sel.Name
-
+					x, sel := selectedName(vs.Values[0])
+					if x != "" {
 						for _, imp := range c.Pkg.Imports() {
 							if imp.Name() == x {
 								tObj := imp.Scope().Lookup(sel)
@@ -174,6 +176,16 @@ func (t *insecureConfigTLS) processTLSConfVal(key ast.Expr, value ast.Expr, c *g
 	return nil
 }
 
+// selectedName splits an expression of the form x.sel, x is empty for any other expression.
+func selectedName(n ast.Expr) (x, sel string) {
+	if s, ok := n.(*ast.SelectorExpr); ok {
+		if ident, ok := s.X.(*ast.Ident); ok {
+			return ident.Name, s.Sel.Name
+		}
+	}
+	return "", ""
+}
+
 func (t *insecureConfigTLS) mapVersion(version string) int64 {
 	var v int64
 	switch version {
-- 
2.43.0


From 12b89f23798b13548bf49096a350c7baa91f5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:50 +0000
Subject: [PATCH 22/42] fix: stop resolving declarations which refer to
 themselves

---
 resolve.go | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/resolve.go b/resolve.go
index a201b8d..bc81823 100644
--- a/resolve.go
+++ b/resolve.go
@@ -16,54 +16,63 @@ package gosec
 
 import "go/ast"
 
-func resolveIdent(n *ast.Ident, c *Context) bool {
+// resolving holds the objects whose declarations are being resolved.
+type resolving map[*ast.Object]bool
+
+func resolveIdent(n *ast.Ident, c *Context, active resolving) bool {
 	if n.Obj == nil || n.Obj.Kind != ast.Var {
 		return true
 	}
+	if active[n.Obj] {
+		// The declaration refers to itself, the source is invalid.
+		return false
+	}
 	if node, ok := n.Obj.Decl.(ast.Node); ok {
-		return TryResolve(node, c)
+		active[n.Obj] = true
+		defer delete(active, n.Obj)
+		return tryResolve(node, c, active)
 	}
 	return false
 }
 
-func resolveValueSpec(n *ast.ValueSpec, c *Context) bool {
+func resolveValueSpec(n *ast.ValueSpec, c *Context, active resolving) bool {
 	if len(n.Values) == 0 {
 		return false
 	}
 	for _, value := range n.Values {
-		if !TryResolve(value, c) {
+		if !tryResolve(value, c, active) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveAssign(n *ast.AssignStmt, c *Context) bool {
+func resolveAssign(n *ast.AssignStmt, c *Context, active resolving) bool {
 	if len(n.Rhs) == 0 {
 		return false
 	}
 	for _, arg := range n.Rhs {
-		if !TryResolve(arg, c) {
+		if !tryResolve(arg, c, active) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveCompLit(n *ast.CompositeLit, c *Context) bool {
+func resolveCompLit(n *ast.CompositeLit, c *Context, active resolving) bool {
 	if len(n.Elts) == 0 {
 		return false
 	}
 	for _, arg := range n.Elts {
-		if !TryResolve(arg, c) {
+		if !tryResolve(arg, c, active) {
 			return false
 		}
 	}
 	return true
 }
 
-func resolveBinExpr(n *ast.BinaryExpr, c *Context) bool {
-	return (TryResolve(n.X, c) && TryResolve(n.Y, c))
+func resolveBinExpr(n *ast.BinaryExpr, c *Context, active resolving) bool {
+	return (tryResolve(n.X, c, active) && tryResolve(n.Y, c, active))
 }
 
 func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
@@ -75,21 +84,25 @@ func resolveCallExpr(_ *ast.CallExpr, _ *Context) bool {
 // all values contained within to a known constant. It is used to check for any
 // unknown values in compound expressions.
 func TryResolve(n ast.Node, c *Context) bool {
+	return tryResolve(n, c, resolving{})
+}
+
+func tryResolve(n ast.Node, c *Context, active resolving) bool {
 	switch node := n.(type) {
 	case *ast.BasicLit:
 		return true
 	case *ast.CompositeLit:
-		return resolveCompLit(node, c)
+		return resolveCompLit(node, c, active)
 	case *ast.Ident:
-		return resolveIdent(node, c)
+		return resolveIdent(node, c, active)
 	case *ast.ValueSpec:
-		return resolveValueSpec(node, c)
+		return resolveValueSpec(node, c, active)
 	case *ast.AssignStmt:
-		return resolveAssign(node, c)
+		return resolveAssign(node, c, active)
 	case *ast.CallExpr:
 		return resolveCallExpr(node, c)
 	case *ast.BinaryExpr:
-		return resolveBinExpr(node, c)
+		return resolveBinExpr(node, c, active)
 	}
 	return false
 }
-- 
2.43.0


From a3ecd40ee7597fcc40342f545ede3e5d1beba342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:05 +0000
Subject: [PATCH 23/42] fix: do not crash on incomplete comments

---
 analyzer.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 9598f55..7cc604c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -659,6 +659,13 @@ func findNoSecDirective(group *ast.CommentGroup, noSecDefaultTag, noSecAlternati
 }
 
 func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
+	for _, c := range group.List {
+		// The text of an incomplete comment at the end of a file cannot be extracted.
+		if strings.HasPrefix(c.Text, "/*") && len(c.Text) < len("/**/") {
+			return false, ""
+		}
+	}
+
 	comment := strings.TrimSpace(group.Text())
 
 	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
-- 
2.43.0


From 39dcf5cdf65f917f3cfe7b3f3a0c942cdec08306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:34 +0000
Subject: [PATCH 24/42] fix: take the arguments of a nosec directive from its
 own line start

---
 analyzer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index 7cc604c..3040d43 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -668,9 +668,9 @@ func findNoSecTag(group *ast.CommentGroup, tag string) (bool, string) {
 
 	comment := strings.TrimSpace(group.Text())
 
-	if strings.HasPrefix(comment, tag) || regexp.MustCompile("\n *"+regexp.QuoteMeta(tag)).MatchString(comment) {
-		// Discard what's in front of the nosec tag.
-		return true, strings.SplitN(comment, tag, 2)[1]
+	// The tag starts a line; discard what's in front of it, also when it mentions the tag.
+	if loc := regexp.MustCompile("(?m)^ *" + regexp.QuoteMeta(tag)).FindStringIndex(comment); loc != nil {
+		return true, comment[loc[1]:]
 	}
 
 	return false, ""
-- 
2.43.0


From 9a9dc45125a94f33570d440184edac685b2992bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 25/42] fix: a file scanned again kept the suppressions of its
 earlier scan

---
 analyzer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/analyzer.go b/analyzer.go
index 3040d43..c11fd5e 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -414,6 +414,8 @@ func (gosec *Analyzer) CheckRules(pkg *packages.Package) {
 		gosec.context.PkgFiles = pkg.Syntax
 		gosec.context.Imports = NewImportTracker()
 		gosec.context.PassedValues = make(map[string]interface{})
+		// Forget the suppressions of an earlier scan of the same file.
+		delete(gosec.context.Ignores, checkedFile)
 		gosec.updateIgnores()
 		ast.Walk(gosec, file)
 		gosec.stats.NumFiles++
-- 
2.43.0


From 30bd8551d65554378c801daf7827279f988a363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 26/42] fix: a module without a Go version made rules assume Go
 0.0 instead of the runtime version

---
 helpers.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helpers.go b/helpers.go
index 59da0e1..5aaa1fa 100644
--- a/helpers.go
+++ b/helpers.go
@@ -542,6 +542,10 @@ func goModVersion() (string, error) {
 		return "", fmt.Errorf("unmarshaling error: %w: %s", err, string(raw))
 	}
 
+	if v.GoVersion == "" {
+		return "", errors.New("no Go version in the module information")
+	}
+
 	return v.GoVersion, nil
 }
 
-- 
2.43.0


From 67405900c3dac4290064229a566560e2fccb8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:07 +0000
Subject: [PATCH 27/42] fix: do not crash on constants and globals used as
 nonce

---
 analyzers/hardcoded_nonce.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index c9c5395..8a79e79 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -196,14 +196,22 @@ func isFuncContainsCryptoRand(funcCall *ssa.Function) (bool, error) {
 	return false, nil
 }
 
+// varKey returns the key which identifies a value in the map of the tracked arguments.
+func varKey(value ssa.Value) string {
+	key := value.Name() + value.Type().String() + value.String()
+	// The values which are not local to a function (e.g. constants or global variables) have no parent.
+	if parent := value.Parent(); parent != nil {
+		key += parent.String()
+	}
+	return key
+}
+
 func addToVarsMap(value ssa.Value, mapToAddTo map[string]*ssa.Value) {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	mapToAddTo[key] = &value
+	mapToAddTo[varKey(value)] = &value
 }
 
 func isContainedInMap(value ssa.Value, mapToCheck map[string]*ssa.Value) bool {
-	key := value.Name() + value.Type().String() + value.String() + value.Parent().String()
-	_, contained := mapToCheck[key]
+	_, contained := mapToCheck[varKey(value)]
 	return contained
 }
 
-- 
2.43.0


From 01f71a39256527dfeb9fbf870d97c0565e44dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 28/42] fix: stop backtracking the nonce through recursive
 functions

---
 analyzers/hardcoded_nonce.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/analyzers/hardcoded_nonce.go b/analyzers/hardcoded_nonce.go
index 8a79e79..2baec12 100644
--- a/analyzers/hardcoded_nonce.go
+++ b/analyzers/hardcoded_nonce.go
@@ -18,6 +18,7 @@ import (
 	"errors"
 	"fmt"
 	"go/token"
+	"slices"
 	"strings"
 
 	"golang.org/x/tools/go/analysis"
@@ -63,7 +64,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 		if arg == nil {
 			continue
 		}
-		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "")
+		i, err := raiseIssue(*arg, calls, ssaPkgFunctions, pass, "", nil)
 		if err != nil {
 			return issues, fmt.Errorf("raising issue error: %w", err)
 		}
@@ -73,7 +74,7 @@ func runHardCodedNonce(pass *analysis.Pass) (interface{}, error) {
 }
 
 func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Function,
-	pass *analysis.Pass, issueDescription string,
+	pass *analysis.Pass, issueDescription string, backtracked []*ssa.Parameter,
 ) ([]*issue.Issue, error) {
 	if issueDescription == "" {
 		issueDescription = defaultIssueDescription
@@ -124,7 +125,9 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 		// }
 		// save parameter position, by checking the name of the variable used in
 		// tracked functions and comparing it with the name of the arg
-		if valType.Parent() != nil {
+		// a parameter which is passed on to itself by a recursive function has no further origin
+		if valType.Parent() != nil && !slices.Contains(backtracked, valType) {
+			backtracked = append(slices.Clone(backtracked), valType)
 			trackedFunctions := make(map[string][]int)
 			for index, funcArgs := range valType.Parent().Params {
 				if funcArgs.Name() == valType.Name() && funcArgs.Type() == valType.Type() {
@@ -139,7 +142,7 @@ func raiseIssue(val ssa.Value, funcsToTrack map[string][]int, ssaFuncs []*ssa.Fu
 				if arg == nil {
 					continue
 				}
-				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription)
+				issues, err = raiseIssue(*arg, trackedFunctions, ssaFuncs, pass, issueDescription, backtracked)
 				allIssues = append(allIssues, issues...)
 			}
 		}
-- 
2.43.0


From aac54a7bdd9130f33f35551e0c8294817d1db665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 29/42] fix: follow the slices passed to recursive functions
 only once

---
 analyzers/slice_bounds.go | 43 +++++++++++++++++++++++++++++----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index 968102f..b49ff2d 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -40,6 +40,26 @@ const (
 
 const maxDepth = 20
 
+// trackedSlice identifies a slice which is followed with a given capacity.
+type trackedSlice struct {
+	slice    ssa.Node
+	sliceCap int
+	checked  bool
+}
+
+// trackedSlices holds the lowest depth from which the slices were followed.
+type trackedSlices map[trackedSlice]int
+
+// done returns whether the slice was already followed at least that far, e.g. because
+// it is passed several times to a recursive function.
+func (t trackedSlices) done(depth int, s trackedSlice) bool {
+	if d, ok := t[s]; ok && d <= depth {
+		return true
+	}
+	t[s] = depth
+	return false
+}
+
 func newSliceBoundsAnalyzer(id string, description string) *analysis.Analyzer {
 	return &analysis.Analyzer{
 		Name:     id,
@@ -57,6 +77,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 
 	issues := map[ssa.Instruction]*issue.Issue{}
 	ifs := map[ssa.If]*ssa.BinOp{}
+	tracked := trackedSlices{}
 	for _, mcall := range ssaResult.SSA.SrcFuncs {
 		for _, block := range mcall.DomPreorder() {
 			for _, instr := range block.Instrs {
@@ -77,7 +98,7 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 									l, h := extractSliceBounds(slice)
 									newCap := computeSliceNewCap(l, h, sliceCap)
 									violations := []ssa.Instruction{}
-									trackSliceBounds(0, newCap, slice, &violations, ifs)
+									trackSliceBounds(0, newCap, slice, &violations, ifs, tracked)
 									for _, s := range violations {
 										switch s := s.(type) {
 										case *ssa.Slice:
@@ -170,8 +191,8 @@ func runSliceBounds(pass *analysis.Pass) (interface{}, error) {
 	return nil, nil
 }
 
-func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
-	if depth == maxDepth {
+func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, tracked trackedSlices) {
+	if depth == maxDepth || tracked.done(depth, trackedSlice{slice, sliceCap, false}) {
 		return
 	}
 	depth++
@@ -183,12 +204,12 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 		for _, refinstr := range *referrers {
 			switch refinstr := refinstr.(type) {
 			case *ssa.Slice:
-				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs)
+				checkAllSlicesBounds(depth, sliceCap, refinstr, violations, ifs, tracked)
 				switch refinstr.X.(type) {
 				case *ssa.Alloc, *ssa.Parameter:
 					l, h := extractSliceBounds(refinstr)
 					newCap := computeSliceNewCap(l, h, sliceCap)
-					trackSliceBounds(depth, newCap, refinstr, violations, ifs)
+					trackSliceBounds(depth, newCap, refinstr, violations, ifs, tracked)
 				}
 			case *ssa.IndexAddr:
 				indexValue, err := extractIntValue(refinstr.Index.String())
@@ -208,7 +229,7 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 					if fn, ok := refinstr.Call.Value.(*ssa.Function); ok {
 						if len(fn.Params) > parPos && parPos > -1 {
 							param := fn.Params[parPos]
-							trackSliceBounds(depth, sliceCap, param, violations, ifs)
+							trackSliceBounds(depth, sliceCap, param, violations, ifs, tracked)
 						}
 					}
 				}
@@ -217,8 +238,8 @@ func trackSliceBounds(depth int, sliceCap int, slice ssa.Node, violations *[]ssa
 	}
 }
 
-func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp) {
-	if depth == maxDepth {
+func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations *[]ssa.Instruction, ifs map[ssa.If]*ssa.BinOp, tracked trackedSlices) {
+	if depth == maxDepth || tracked.done(depth, trackedSlice{slice, sliceCap, true}) {
 		return
 	}
 	depth++
@@ -233,7 +254,7 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	case *ssa.Alloc, *ssa.Parameter, *ssa.Slice:
 		l, h := extractSliceBounds(slice)
 		newCap := computeSliceNewCap(l, h, sliceCap)
-		trackSliceBounds(depth, newCap, slice, violations, ifs)
+		trackSliceBounds(depth, newCap, slice, violations, ifs, tracked)
 	}
 
 	references := slice.Referrers()
@@ -243,12 +264,12 @@ func checkAllSlicesBounds(depth int, sliceCap int, slice *ssa.Slice, violations
 	for _, ref := range *references {
 		switch s := ref.(type) {
 		case *ssa.Slice:
-			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs)
+			checkAllSlicesBounds(depth, sliceCap, s, violations, ifs, tracked)
 			switch s.X.(type) {
 			case *ssa.Alloc, *ssa.Parameter:
 				l, h := extractSliceBounds(s)
 				newCap := computeSliceNewCap(l, h, sliceCap)
-				trackSliceBounds(depth, newCap, s, violations, ifs)
+				trackSliceBounds(depth, newCap, s, violations, ifs, tracked)
 			}
 		}
 	}
-- 
2.43.0


From c1f045fe983edde88d1c18b0fcca3b11266d7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:15 +0000
Subject: [PATCH 30/42] fix: do not report issues that have no position in the
 source code

---
 analyzer.go       | 4 ++++
 analyzers/util.go | 7 ++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/analyzer.go b/analyzer.go
index c11fd5e..a1bf71c 100644
--- a/analyzer.go
+++ b/analyzer.go
@@ -468,6 +468,10 @@ func (gosec *Analyzer) CheckAnalyzers(pkg *packages.Package) {
 		if result != nil {
 			if passIssues, ok := result.([]*issue.Issue); ok {
 				for _, iss := range passIssues {
+					if iss == nil {
+						// the issue has no position in the source code
+						continue
+					}
 					if gosec.excludeGenerated {
 						if _, ok := generatedFiles[iss.File]; ok {
 							continue
diff --git a/analyzers/util.go b/analyzers/util.go
index 57cc42b..1bcd55a 100644
--- a/analyzers/util.go
+++ b/analyzers/util.go
@@ -57,14 +57,15 @@ func getSSAResult(pass *analysis.Pass) (*SSAAnalyzerResult, error) {
 	return ssaResult, nil
 }
 
-// newIssue creates a new gosec issue
+// newIssue creates a new gosec issue, it returns nil when the position is in no file
 func newIssue(analyzerID string, desc string, fileSet *token.FileSet,
 	pos token.Pos, severity, confidence issue.Score,
 ) *issue.Issue {
 	file := fileSet.File(pos)
-	// This can occur when there is a compilation issue into the code.
+	// This can occur when there is a compilation issue into the code. There is
+	// no place to report then.
 	if file == nil {
-		return &issue.Issue{}
+		return nil
 	}
 	line := file.Line(pos)
 	col := file.Position(pos).Column
-- 
2.43.0


From 053c13926c96845a753ab9699e60918ab54e4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:21 +0000
Subject: [PATCH 31/42] fix: resolve a package name to the package the file
 imports, whatever the map order

---
 helpers.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/helpers.go b/helpers.go
index 5aaa1fa..687814b 100644
--- a/helpers.go
+++ b/helpers.go
@@ -311,17 +311,36 @@ func GetImportedNames(path string, ctx *Context) (names []string, found bool) {
 // GetImportPath resolves the full import path of an identifier based on
 // the imports in the current context(including aliases).
 func GetImportPath(name string, ctx *Context) (string, bool) {
-	for path := range ctx.Imports.Imported {
-		if imported, ok := GetImportedNames(path, ctx); ok {
-			for _, n := range imported {
-				if n == name {
-					return path, true
+	var paths []string
+	for path, names := range ctx.Imports.Imported {
+		for _, n := range names {
+			if n == name {
+				paths = append(paths, path)
+				break
+			}
+		}
+	}
+	if len(paths) == 0 {
+		return "", false
+	}
+	if len(paths) > 1 {
+		// Several imported packages have this name, for instance because the name
+		// of a package was guessed from its path. Take the one the file refers to
+		// and do not depend on the order of the map.
+		sort.Strings(paths)
+		if ctx.Info != nil && ctx.Root != nil {
+			if scope := ctx.Info.Scopes[ctx.Root]; scope != nil {
+				if pkgName, ok := scope.Lookup(name).(*types.PkgName); ok {
+					for _, path := range paths {
+						if path == pkgName.Imported().Path() {
+							return path, true
+						}
+					}
 				}
 			}
 		}
 	}
-
-	return "", false
+	return paths[0], true
 }
 
 // GetLocation returns the filename and line number of an ast.Node
-- 
2.43.0


From 72eab7185bf5cca8c7761bd395aa8bdd30da94a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:34 +0000
Subject: [PATCH 32/42] fix: do not follow the variable of a loop forever when
 looking for its conversion

---
 analyzers/conversion_overflow.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 42e1867..7e907f7 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -211,6 +211,7 @@ func isConstantInRange(constVal *ssa.Const, dstType string) bool {
 func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
 	// Traverse the SSA instructions to find the original variable.
 	original := instr.X
+	visitedPhis := make(map[*ssa.Phi]bool)
 	for {
 		switch v := original.(type) {
 		case *ssa.Call:
@@ -238,6 +239,10 @@ func isStringToIntConversion(instr *ssa.Convert, dstType string) bool {
 			}
 			return false
 		case *ssa.Phi:
+			if visitedPhis[v] {
+				return false
+			}
+			visitedPhis[v] = true
 			original = v.Edges[0]
 		case *ssa.Extract:
 			original = v.Tuple
-- 
2.43.0


From 6f2ca0fa6c07a02d4f6fb79a5c5cb18d72eecbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:02 +0000
Subject: [PATCH 33/42] fix: resolve the declarations used several times only
 once

---
 resolve.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/resolve.go b/resolve.go
index bc81823..df6a009 100644
--- a/resolve.go
+++ b/resolve.go
@@ -16,21 +16,23 @@ package gosec
 
 import "go/ast"
 
-// resolving holds the objects whose declarations are being resolved.
+// resolving tells for the visited objects whether they are still being resolved.
+// The others were resolved: the first object which cannot be ends the resolution.
 type resolving map[*ast.Object]bool
 
 func resolveIdent(n *ast.Ident, c *Context, active resolving) bool {
 	if n.Obj == nil || n.Obj.Kind != ast.Var {
 		return true
 	}
-	if active[n.Obj] {
-		// The declaration refers to itself, the source is invalid.
-		return false
+	if inProgress, visited := active[n.Obj]; visited {
+		// A declaration which refers to itself is invalid.
+		return !inProgress
 	}
 	if node, ok := n.Obj.Decl.(ast.Node); ok {
 		active[n.Obj] = true
-		defer delete(active, n.Obj)
-		return tryResolve(node, c, active)
+		resolved := tryResolve(node, c, active)
+		active[n.Obj] = false
+		return resolved
 	}
 	return false
 }
-- 
2.43.0


From 33ee1a74063813df1674976e715abc9310bdb35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:39 +0000
Subject: [PATCH 34/42] fix: do not crash on ill-typed comparisons with
 constants

---
 analyzers/conversion_overflow.go | 5 +++++
 analyzers/slice_bounds.go        | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/analyzers/conversion_overflow.go b/analyzers/conversion_overflow.go
index 7e907f7..6f61d7d 100644
--- a/analyzers/conversion_overflow.go
+++ b/analyzers/conversion_overflow.go
@@ -17,6 +17,7 @@ package analyzers
 import (
 	"cmp"
 	"fmt"
+	"go/constant"
 	"go/token"
 	"math"
 	"regexp"
@@ -375,6 +376,10 @@ func updateResultFromBinOp(result *rangeResult, binOp *ssa.BinOp, instr *ssa.Con
 		// log.Fatalf("[gosec] constVal.Value is nil flipped=%t, constVal=%#v, binOp=%#v", operandsFlipped, constVal, binOp)
 		return
 	}
+	if constant.ToInt(constVal.Value).Kind() != constant.Int {
+		// The comparison is invalid, e.g. with a string.
+		return
+	}
 	switch binOp.Op {
 	case token.LEQ, token.LSS:
 		updateMinMaxForLessOrEqual(result, constVal, binOp.Op, operandsFlipped, successPathConvert)
diff --git a/analyzers/slice_bounds.go b/analyzers/slice_bounds.go
index b49ff2d..c5fc5a2 100644
--- a/analyzers/slice_bounds.go
+++ b/analyzers/slice_bounds.go
@@ -326,7 +326,7 @@ func invBound(bound bound) bound {
 
 func extractBinOpBound(binop *ssa.BinOp) (bound, int, error) {
 	if binop.X != nil {
-		if x, ok := binop.X.(*ssa.Const); ok {
+		if x, ok := binop.X.(*ssa.Const); ok && x.Value != nil {
 			value, err := strconv.Atoi(x.Value.String())
 			if err != nil {
 				return lowerUnbounded, value, err
@@ -344,7 +344,7 @@ func extractBinOpBound(binop *ssa.BinOp) (bound, int, error) {
 		}
 	}
 	if binop.Y != nil {
-		if y, ok := binop.Y.(*ssa.Const); ok {
+		if y, ok := binop.Y.(*ssa.Const); ok && y.Value != nil {
 			value, err := strconv.Atoi(y.Value.String())
 			if err != nil {
 				return lowerUnbounded, value, err
-- 
2.43.0


From 12fdebc85bbd34f2d8a5c2b3a0ffd0e1a88e327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 35/42] fix: do not take a folder for another one whose name
 starts alike in reports

---
 report/sarif/formatter.go | 13 ++++++++++++-
 report/sonar/formatter.go | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/report/sarif/formatter.go b/report/sarif/formatter.go
index e773276..045a93d 100644
--- a/report/sarif/formatter.go
+++ b/report/sarif/formatter.go
@@ -2,6 +2,7 @@ package sarif
 
 import (
 	"fmt"
+	"os"
 	"sort"
 	"strconv"
 	"strings"
@@ -194,13 +195,23 @@ func parseSarifLocation(i *issue.Issue, rootPaths []string) (*Location, error) {
 func parseSarifArtifactLocation(i *issue.Issue, rootPaths []string) *ArtifactLocation {
 	var filePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(i.File, rootPath) {
+		if isBelow(i.File, rootPath) {
 			filePath = strings.Replace(i.File, rootPath+"/", "", 1)
 		}
 	}
 	return NewArtifactLocation(filePath)
 }
 
+// isBelow checks if the file is the root path or lies in the folder of the root path
+func isBelow(file, rootPath string) bool {
+	rest, found := strings.CutPrefix(file, rootPath)
+	if !found {
+		return false
+	}
+	return rest == "" || os.IsPathSeparator(rest[0]) ||
+		(rootPath != "" && os.IsPathSeparator(rootPath[len(rootPath)-1]))
+}
+
 func parseSarifRegion(i *issue.Issue) (*Region, error) {
 	lines := strings.Split(i.Line, "-")
 	startLine, err := strconv.Atoi(lines[0])
diff --git a/report/sonar/formatter.go b/report/sonar/formatter.go
index d635d9d..c3e12d5 100644
--- a/report/sonar/formatter.go
+++ b/report/sonar/formatter.go
@@ -1,6 +1,7 @@
 package sonar
 
 import (
+	"os"
 	"strconv"
 	"strings"
 
@@ -40,13 +41,23 @@ func GenerateReport(rootPaths []string, data *gosec.ReportInfo) (*Report, error)
 func parseFilePath(issue *issue.Issue, rootPaths []string) string {
 	var sonarFilePath string
 	for _, rootPath := range rootPaths {
-		if strings.HasPrefix(issue.File, rootPath) {
+		if isBelow(issue.File, rootPath) {
 			sonarFilePath = strings.Replace(issue.File, rootPath+"/", "", 1)
 		}
 	}
 	return sonarFilePath
 }
 
+// isBelow checks if the file is the root path or lies in the folder of the root path
+func isBelow(file, rootPath string) bool {
+	rest, found := strings.CutPrefix(file, rootPath)
+	if !found {
+		return false
+	}
+	return rest == "" || os.IsPathSeparator(rest[0]) ||
+		(rootPath != "" && os.IsPathSeparator(rootPath[len(rootPath)-1]))
+}
+
 func parseTextRange(issue *issue.Issue) (*TextRange, error) {
 	lines := strings.Split(issue.Line, "-")
 	startLine, err := strconv.Atoi(lines[0])
-- 
2.43.0


From 807bbd9ad8a60f6188d0c84c64e1d46627925b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:39 +0000
Subject: [PATCH 36/42] fix: write JUnit reports which stay readable whatever a
 finding says

---
 report/junit/formatter.go | 3 +--
 report/junit/types.go     | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/report/junit/formatter.go b/report/junit/formatter.go
index 3b974fd..c27a7d2 100644
--- a/report/junit/formatter.go
+++ b/report/junit/formatter.go
@@ -1,7 +1,6 @@
 package junit
 
 import (
-	"html"
 	"strconv"
 
 	"github.com/securego/gosec/v2"
@@ -17,7 +16,7 @@ func generatePlaintext(issue *issue.Issue) string {
 		"[" + issue.File + ":" + issue.Line + "] - " +
 		issue.What + " (Confidence: " + strconv.Itoa(int(issue.Confidence)) +
 		", Severity: " + strconv.Itoa(int(issue.Severity)) +
-		", CWE: " + cweID + ")\n" + "> " + html.EscapeString(issue.Code) +
+		", CWE: " + cweID + ")\n" + "> " + issue.Code +
 		"\n Autofix: " + issue.Autofix
 }
 
diff --git a/report/junit/types.go b/report/junit/types.go
index bac3218..f19e763 100644
--- a/report/junit/types.go
+++ b/report/junit/types.go
@@ -29,5 +29,5 @@ type Testcase struct {
 type Failure struct {
 	XMLName xml.Name `xml:"failure"`
 	Message string   `xml:"message,attr"`
-	Text    string   `xml:",innerxml"`
+	Text    string   `xml:",chardata"`
 }
-- 
2.43.0


From e13f22c9dc6139e2b0c4c76ed77b883a70ab544d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:45 +0000
Subject: [PATCH 37/42] fix: keep the code snippets after lines of any length

---
 issue/issue.go        | 3 +++
 report/text/writer.go | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/issue/issue.go b/issue/issue.go
index b7c804e..8a70205 100644
--- a/issue/issue.go
+++ b/issue/issue.go
@@ -21,6 +21,7 @@ import (
 	"fmt"
 	"go/ast"
 	"go/token"
+	"math"
 	"os"
 	"strconv"
 
@@ -156,6 +157,8 @@ func CodeSnippet(file *os.File, start int64, end int64) (string, error) {
 	var buf bytes.Buffer
 	scanner := bufio.NewScanner(file)
 	scanner.Split(bufio.ScanLines)
+	// The lines of a source file may have any length.
+	scanner.Buffer(nil, math.MaxInt)
 	for scanner.Scan() {
 		pos++
 		if pos > end {
diff --git a/report/text/writer.go b/report/text/writer.go
index d839a43..57fdeee 100644
--- a/report/text/writer.go
+++ b/report/text/writer.go
@@ -6,6 +6,7 @@ import (
 	_ "embed" // use go embed to import template
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"text/template"
@@ -80,6 +81,7 @@ func highlight(t string, s issue.Score, ignored bool) string {
 func printCodeSnippet(issue *issue.Issue) string {
 	start, end := parseLine(issue.Line)
 	scanner := bufio.NewScanner(strings.NewReader(issue.Code))
+	scanner.Buffer(nil, math.MaxInt)
 	var buf bytes.Buffer
 	line := start
 	for scanner.Scan() {
-- 
2.43.0


From 8cc99deebc7610155c36d5130a8ea9993a091649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:49 +0000
Subject: [PATCH 38/42] fix: give the reports of gosec -r without paths their
 root path

Without paths gosec -r scans ./... but the SonarQube and SARIF reports were
created without any root path: the former left out every finding, the latter
gave all of them an empty URI.
---
 cmd/gosec/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/gosec/main.go b/cmd/gosec/main.go
index 5da2fac..52813bb 100644
--- a/cmd/gosec/main.go
+++ b/cmd/gosec/main.go
@@ -498,7 +498,7 @@ func main() {
 	}
 
 	// Create output report
-	rootPaths := getRootPaths(flag.Args())
+	rootPaths := getRootPaths(paths)
 
 	reportInfo := gosec.NewReportInfo(issues, metrics, errors).WithVersion(Version)
 
-- 
2.43.0


From b8c0772f02aeb2f81f295cfa7332a687d09eb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:14 +0000
Subject: [PATCH 39/42] fix: ignore settings of G101 and G111 that are not
 objects instead of panicking

---
 rules/directory-traversal.go   | 3 +--
 rules/hardcoded_credentials.go | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/rules/directory-traversal.go b/rules/directory-traversal.go
index 47bcb2d..5631d23 100644
--- a/rules/directory-traversal.go
+++ b/rules/directory-traversal.go
@@ -44,8 +44,7 @@ func (r *traversal) matchCallExpr(assign *ast.CallExpr, ctx *gosec.Context) (*is
 // NewDirectoryTraversal attempts to find the use of http.Dir("/")
 func NewDirectoryTraversal(id string, conf gosec.Config) (gosec.Rule, []ast.Node) {
 	pattern := `http\.Dir\("\/"\)|http\.Dir\('\/'\)`
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index c10d18b..d3e2b5b 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -342,8 +342,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 	perCharThreshold := 3.0
 	ignoreEntropy := false
 	truncateString := 16
-	if val, ok := conf[id]; ok {
-		conf := val.(map[string]interface{})
+	if conf, ok := conf[id].(map[string]interface{}); ok {
 		if configPattern, ok := conf["pattern"]; ok {
 			if cfgPattern, ok := configPattern.(string); ok {
 				pattern = cfgPattern
-- 
2.43.0


From 0272ae44a22138f903669ec2b9e4c5483d0dc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:17 +0000
Subject: [PATCH 40/42] fix: ignore a negative truncate setting of G101, which
 made the scan panic

---
 rules/hardcoded_credentials.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rules/hardcoded_credentials.go b/rules/hardcoded_credentials.go
index d3e2b5b..59b5de2 100644
--- a/rules/hardcoded_credentials.go
+++ b/rules/hardcoded_credentials.go
@@ -370,7 +370,7 @@ func NewHardcodedCredentials(id string, conf gosec.Config) (gosec.Rule, []ast.No
 		}
 		if configTruncate, ok := conf["truncate"]; ok {
 			if cfgTruncate, ok := configTruncate.(string); ok {
-				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil {
+				if parsedInt, err := strconv.Atoi(cfgTruncate); err == nil && parsedInt >= 0 {
 					truncateString = parsedInt
 				}
 			}
-- 
2.43.0


From a20f44cff1ca0660b7eef8e833b684603d6cae68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:47 +0000
Subject: [PATCH 41/42] fix: parse the flags of tlsconfig, which had no effect

---
 cmd/tlsconfig/tlsconfig.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/tlsconfig/tlsconfig.go b/cmd/tlsconfig/tlsconfig.go
index 16c7189..511a613 100644
--- a/cmd/tlsconfig/tlsconfig.go
+++ b/cmd/tlsconfig/tlsconfig.go
@@ -159,6 +159,7 @@ func getCurrentDir() (string, error) {
 }
 
 func main() {
+	flag.Parse()
 	dir, err := getCurrentDir()
 	if err != nil {
 		log.Fatalln(err)
-- 
2.43.0


From c194b9bd9dc9630adaf49fbca9ac554f03e83a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:15 +0000
Subject: [PATCH 42/42] fix: report a directory named *.go that cannot be
 listed or examined

PackagePaths took it for a Go file and dropped the error, so that the
packages below it were left out silently.
---
 helpers.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/helpers.go b/helpers.go
index 687814b..9bc63e2 100644
--- a/helpers.go
+++ b/helpers.go
@@ -471,12 +471,13 @@ func PackagePaths(root string, excludes []*regexp.Regexp) ([]string, error) {
 	paths := map[string]bool{}
 	err := filepath.Walk(root, func(path string, f os.FileInfo, err error) error {
 		if filepath.Ext(path) == ".go" {
-			path = filepath.Dir(path)
-			if isExcluded(filepath.ToSlash(path), excludes) {
+			dir := filepath.Dir(path)
+			if !isExcluded(filepath.ToSlash(dir), excludes) {
+				paths[dir] = true
+			}
+			if f != nil && !f.IsDir() {
 				return nil
 			}
-			paths[path] = true
-			return nil
 		}
 		if err != nil && !errors.Is(err, fs.ErrNotExist) {
 			dir := filepath.ToSlash(path)
-- 
2.43.0

