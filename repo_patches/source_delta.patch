From 7bb198f6fba0be1d0b3387a43213f22743ace484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:26 +0000
Subject: [PATCH 01/29] fix: do not mistake lines inside a snapshot for the
 header of another one

---
 snaps/snapshot.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ee63b2c..ce78d4b 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -222,6 +222,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 		l := s.Bytes()
 		if !bytes.Equal(l, tid) {
 			lineNumber++
+			if isSnapshotHeader(l) {
+				// a line inside another snapshot can look like our testID
+				lineNumber += skipSnapshot(s, nil)
+			}
 			continue
 		}
 		var snapshot strings.Builder
@@ -283,6 +287,9 @@ func updateSnapshot(testID, snapshot, snapPath string) error {
 		updatedSnapFile.Write(b)
 		updatedSnapFile.WriteByte('\n')
 		if !bytes.Equal(b, tid) {
+			if isSnapshotHeader(b) {
+				skipSnapshot(s, &updatedSnapFile)
+			}
 			continue
 		}
 
@@ -310,12 +317,31 @@ func overwriteFile(f *os.File, b []byte) error {
 }
 
 func removeSnapshot(s *bufio.Scanner) {
+	skipSnapshot(s, nil)
+}
+
+// isSnapshotHeader checks if a line, outside of a snapshot, is in the form of [<testID>]
+func isSnapshotHeader(b []byte) bool {
+	return len(b) > 1 && b[0] == '[' && b[len(b)-1] == ']'
+}
+
+// skipSnapshot advances the scanner past the end of the current snapshot, copying
+// the lines to w when provided, and returns how many lines it read.
+func skipSnapshot(s *bufio.Scanner, w *bytes.Buffer) int {
+	lines := 0
 	for s.Scan() {
+		lines++
+		if w != nil {
+			w.Write(s.Bytes())
+			w.WriteByte('\n')
+		}
 		// skip until ---
 		if bytes.Equal(s.Bytes(), endSequenceByteSlice) {
 			break
 		}
 	}
+
+	return lines
 }
 
 func upsertStandaloneSnapshot(snapshot, snapPath string) error {
-- 
2.43.0


From 7c47305269b40cdca60bbc9cb84abd556f652e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 02/29] fix: MatchStandaloneJSON should not change the config
 it is called on

---
 snaps/matchStandaloneJSON.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index 701e81b..a03cd2b 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -12,11 +12,13 @@ import (
 func (c *Config) MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
 	t.Helper()
 
-	if c.extension == "" {
-		c.extension = ".json"
+	// copy, as config can be reused for other calls
+	config := *c
+	if config.extension == "" {
+		config.extension = ".json"
 	}
 
-	matchStandaloneJSON(c, t, input, matchers...)
+	matchStandaloneJSON(&config, t, input, matchers...)
 }
 
 func MatchStandaloneJSON(t testingT, input any, matchers ...match.JSONMatcher) {
-- 
2.43.0


From 4f10d474f1a8f5b58c78f9bae25c3621fc3e4ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:43 +0000
Subject: [PATCH 03/29] fix: standalone snapshots with a % in the test name,
 filename, directory or extension

---
 snaps/snapshot.go | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index ce78d4b..9a46a33 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -376,16 +376,22 @@ func getPrevStandaloneSnapshot(snapPath string) (string, error) {
 func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
+	callerDir := filepath.Dir(callerFilename)
 
 	dir := c.snapsDir
 	if !filepath.IsAbs(dir) && !isTrimBathBuild {
-		dir = filepath.Join(filepath.Dir(callerFilename), c.snapsDir)
+		dir = filepath.Join(callerDir, c.snapsDir)
+	}
+	if isStandalone {
+		// the path is used as a format for the occurrence number
+		dir = escapeFormat(dir)
+		callerDir = escapeFormat(callerDir)
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
 	snapPathRel := snapPath
 	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(filepath.Dir(callerFilename), snapPath)
+		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
 	}
 
 	return snapPath, snapPathRel
@@ -402,14 +408,21 @@ func constructFilename(c *Config, callerFilename, tName string, isStandalone boo
 		}
 	}
 
+	extension := c.extension
 	if isStandalone {
-		filename += "_%d"
+		filename = escapeFormat(filename) + "_%d"
+		extension = escapeFormat(extension)
 	}
-	filename += snapsExt + c.extension
+	filename += snapsExt + extension
 
 	return filename
 }
 
+// escapeFormat escapes s so it can be part of a fmt format
+func escapeFormat(s string) string {
+	return strings.ReplaceAll(s, "%", "%%")
+}
+
 func unescapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
-- 
2.43.0


From 56d8cfaef4b78bc3e58dc2e9101adba4d3f16441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:29 +0000
Subject: [PATCH 04/29] fix: report differences between invalid utf8 single
 line snapshots

---
 snaps/diff.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/snaps/diff.go b/snaps/diff.go
index 19304e1..5e02e31 100644
--- a/snaps/diff.go
+++ b/snaps/diff.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/gkampitakis/go-diff/diffmatchpatch"
 	"github.com/gkampitakis/go-snaps/internal/colors"
@@ -151,11 +152,19 @@ func intPadding(inserted, deleted int) (string, string) {
 }
 
 func singlelineDiff(expected, received string) (string, int, int) {
+	if expected == received {
+		return "", -1, -1
+	}
+
 	diffs := dmp.DiffCleanupSemantic(
 		dmp.DiffMain(expected, received, false),
 	)
-	if len(diffs) == 1 && diffs[0].Type == diffEqual {
-		return "", -1, -1
+	if !utf8.ValidString(expected) || !utf8.ValidString(received) {
+		// diffmatchpatch compares runes, so it can't tell apart invalid utf8 sequences
+		diffs = []diffmatchpatch.Diff{
+			{Type: diffDelete, Text: expected},
+			{Type: diffInsert, Text: received},
+		}
 	}
 
 	var inserted, deleted int
-- 
2.43.0


From 2c39493a4645a998e544cd0588a50baee06fa704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:50 +0000
Subject: [PATCH 05/29] fix: escape snapshot lines that look like an escaped
 end sequence

---
 snaps/snapshot.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 9a46a33..cd91391 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -423,11 +423,23 @@ func escapeFormat(s string) string {
 	return strings.ReplaceAll(s, "%", "%%")
 }
 
+// The escaped form of a line `---` is `/-/-/-/`. For being able to tell apart the two,
+// lines that already look like an escaped line get an extra leading `/`.
+const escapedEndSequence = "/-/-/-/"
+
+// isEscapedLine checks if a line is an escaped end sequence with any number of leading `/`
+func isEscapedLine(s string) bool {
+	return strings.HasSuffix(s, escapedEndSequence) &&
+		strings.Trim(strings.TrimSuffix(s, escapedEndSequence), "/") == ""
+}
+
 func unescapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
-		if s == "/-/-/-/" {
+		if s == escapedEndSequence {
 			ss[idx] = endSequence
+		} else if isEscapedLine(s) {
+			ss[idx] = s[1:]
 		}
 	}
 	return strings.Join(ss, "\n")
@@ -437,7 +449,9 @@ func escapeEndChars(s string) string {
 	ss := strings.Split(s, "\n")
 	for idx, s := range ss {
 		if s == endSequence {
-			ss[idx] = "/-/-/-/"
+			ss[idx] = escapedEndSequence
+		} else if isEscapedLine(s) {
+			ss[idx] = "/" + s
 		}
 	}
 	return strings.Join(ss, "\n")
-- 
2.43.0


From d514e5517b77c926512835e8de00efeeb525c44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 06/29] fix: keep the snapshot ordinals of a test until its own
 cleanups have run

---
 snaps/matchJSON.go               |  8 +++++---
 snaps/matchSnapshot.go           |  8 +++++---
 snaps/matchStandaloneJSON.go     |  8 +++++---
 snaps/matchStandaloneSnapshot.go |  8 +++++---
 snaps/matchYAML.go               |  8 +++++---
 snaps/snapshot.go                | 13 +++++++++++++
 6 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/snaps/matchJSON.go b/snaps/matchJSON.go
index 3a40860..42c77ba 100644
--- a/snaps/matchJSON.go
+++ b/snaps/matchJSON.go
@@ -65,9 +65,11 @@ func matchJSON(c *Config, t testingT, input any, matchers ...match.JSONMatcher)
 
 	snapPath, snapPathRel := snapshotPath(c, t.Name(), false)
 	testID := testsRegistry.getTestID(snapPath, t.Name())
-	t.Cleanup(func() {
-		testsRegistry.reset(snapPath, t.Name())
-	})
+	if isFirstSnapshot(testID) {
+		t.Cleanup(func() {
+			testsRegistry.reset(snapPath, t.Name())
+		})
+	}
 
 	j, err := validateJSON(input)
 	if err != nil {
diff --git a/snaps/matchSnapshot.go b/snaps/matchSnapshot.go
index 6305333..637929f 100644
--- a/snaps/matchSnapshot.go
+++ b/snaps/matchSnapshot.go
@@ -56,9 +56,11 @@ func matchSnapshot(c *Config, t testingT, values ...any) {
 
 	snapPath, snapPathRel := snapshotPath(c, t.Name(), false)
 	testID := testsRegistry.getTestID(snapPath, t.Name())
-	t.Cleanup(func() {
-		testsRegistry.reset(snapPath, t.Name())
-	})
+	if isFirstSnapshot(testID) {
+		t.Cleanup(func() {
+			testsRegistry.reset(snapPath, t.Name())
+		})
+	}
 
 	snapshot := takeSnapshot(values)
 	prevSnapshot, line, err := getPrevSnapshot(testID, snapPath)
diff --git a/snaps/matchStandaloneJSON.go b/snaps/matchStandaloneJSON.go
index a03cd2b..05c9f09 100644
--- a/snaps/matchStandaloneJSON.go
+++ b/snaps/matchStandaloneJSON.go
@@ -37,9 +37,11 @@ func matchStandaloneJSON(c *Config, t testingT, input any, matchers ...match.JSO
 
 	genericPathSnap, genericSnapPathRel := snapshotPath(c, t.Name(), true)
 	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(genericPathSnap, genericSnapPathRel)
-	t.Cleanup(func() {
-		standaloneTestsRegistry.reset(genericPathSnap)
-	})
+	if isFirstStandaloneSnapshot(snapPath, genericPathSnap) {
+		t.Cleanup(func() {
+			standaloneTestsRegistry.reset(genericPathSnap)
+		})
+	}
 
 	j, err := validateJSON(input)
 	if err != nil {
diff --git a/snaps/matchStandaloneSnapshot.go b/snaps/matchStandaloneSnapshot.go
index e6012ca..fccf25c 100644
--- a/snaps/matchStandaloneSnapshot.go
+++ b/snaps/matchStandaloneSnapshot.go
@@ -43,9 +43,11 @@ func matchStandaloneSnapshot(c *Config, t testingT, input any) {
 
 	genericPathSnap, genericSnapPathRel := snapshotPath(c, t.Name(), true)
 	snapPath, snapPathRel := standaloneTestsRegistry.getTestID(genericPathSnap, genericSnapPathRel)
-	t.Cleanup(func() {
-		standaloneTestsRegistry.reset(genericPathSnap)
-	})
+	if isFirstStandaloneSnapshot(snapPath, genericPathSnap) {
+		t.Cleanup(func() {
+			standaloneTestsRegistry.reset(genericPathSnap)
+		})
+	}
 
 	snapshot := pretty.Sprint(input)
 	prevSnapshot, err := getPrevStandaloneSnapshot(snapPath)
diff --git a/snaps/matchYAML.go b/snaps/matchYAML.go
index d5cf4c9..9b7e20c 100644
--- a/snaps/matchYAML.go
+++ b/snaps/matchYAML.go
@@ -60,9 +60,11 @@ func matchYAML(c *Config, t testingT, input any, matchers ...match.YAMLMatcher)
 
 	snapPath, snapPathRel := snapshotPath(c, t.Name(), false)
 	testID := testsRegistry.getTestID(snapPath, t.Name())
-	t.Cleanup(func() {
-		testsRegistry.reset(snapPath, t.Name())
-	})
+	if isFirstSnapshot(testID) {
+		t.Cleanup(func() {
+			testsRegistry.reset(snapPath, t.Name())
+		})
+	}
 
 	y, err := validateYAML(input)
 	if err != nil {
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index cd91391..6b5971a 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -162,6 +162,14 @@ func (s *syncRegistry) reset(snapPath, testName string) {
 	s.Unlock()
 }
 
+// isFirstSnapshot checks if the testID is the first of a test's execution.
+//
+// The registry is reset once per execution, with the first registered cleanup, so that it
+// doesn't start over before the test's own cleanups have run.
+func isFirstSnapshot(testID string) bool {
+	return strings.HasSuffix(testID, " - 1]")
+}
+
 func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
@@ -195,6 +203,11 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
 }
 
+// isFirstStandaloneSnapshot is isFirstSnapshot for standalone snapshots.
+func isFirstStandaloneSnapshot(snapPath, genericPathSnap string) bool {
+	return snapPath == fmt.Sprintf(genericPathSnap, 1)
+}
+
 func (s *syncStandaloneRegistry) reset(snapPath string) {
 	s.Lock()
 	s.running[snapPath] = 0
-- 
2.43.0


From 7e539ccbe1003187f711d9da1a5de16dc5997d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 07/29] fix: do not lose a snapshot added while another one is
 updated

---
 snaps/snapshot.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 6b5971a..8c0e9aa 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -262,6 +262,10 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 }
 
 func addNewSnapshot(testID, snapshot, snapPath string) error {
+	// updateSnapshot dumps the whole file, a snapshot added meanwhile would be lost
+	_m.Lock()
+	defer _m.Unlock()
+
 	if err := os.MkdirAll(filepath.Dir(snapPath), os.ModePerm); err != nil {
 		return err
 	}
-- 
2.43.0


From 25a5cc68377cd3f6d955cf283ff4e4846ce8cfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 08/29] fix: Clean keeps every entry it does not report as
 removed when rewriting a file

Sorting dropped the obsolete entries outside of clean mode, entries with the
same id took over each other's body and entries of tests not starting with
Test disappeared.
---
 snaps/clean.go | 120 ++++++++++++++++++++++++-------------------------
 1 file changed, 58 insertions(+), 62 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index 73761d1..c654b0a 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -214,6 +214,35 @@ func examineFiles(
 	return obsolete, used
 }
 
+// snapshotEntry is a snapshot inside a snapshot file
+type snapshotEntry struct {
+	// id is what is inside the brackets of its header
+	id string
+	// data is the body along with the end sequence
+	data string
+}
+
+// readSnapshots returns all the entries of a snapshot file in the order they are found.
+func readSnapshots(r io.Reader) ([]snapshotEntry, error) {
+	entries := []snapshotEntry{}
+	data := bytes.Buffer{}
+
+	s := snapshotScanner(r)
+	for s.Scan() {
+		b := s.Bytes()
+		if !isSnapshotHeader(b) {
+			continue
+		}
+
+		id := string(b[1 : len(b)-1])
+		data.Reset()
+		skipSnapshot(s, &data)
+		entries = append(entries, snapshotEntry{id, data.String()})
+	}
+
+	return entries, s.Err()
+}
+
 func examineSnaps(
 	registry map[string]map[string]int,
 	used []string,
@@ -223,98 +252,65 @@ func examineSnaps(
 	sort bool,
 ) ([]string, error) {
 	obsoleteTests := []string{}
-	tests := map[string]string{}
-	data := bytes.Buffer{}
-	testIDs := []string{}
 
 	for _, snapPath := range used {
-		f, err := os.OpenFile(snapPath, os.O_RDWR, os.ModePerm)
+		f, err := os.ReadFile(snapPath)
 		if err != nil {
 			return nil, err
 		}
 
-		var hasDiffs bool
+		entries, err := readSnapshots(bytes.NewReader(f))
+		if err != nil {
+			return nil, err
+		}
 
+		var needsUpdate bool
 		registeredTests := occurrences(registry[snapPath], count, snapshotOccurrenceFMT)
-		s := snapshotScanner(f)
-
-		for s.Scan() {
-			b := s.Bytes()
-			// Check if line is a test id
-			testID, match := getTestID(b)
-			if !match {
-				continue
-			}
-			testIDs = append(testIDs, testID)
+		kept := make([]snapshotEntry, 0, len(entries))
 
-			if !registeredTests.Has(testID) && !testSkipped(testID, runOnly) {
-				obsoleteTests = append(obsoleteTests, testID)
-				hasDiffs = true
+		for _, entry := range entries {
+			_, isTest := getTestID([]byte("[" + entry.id + "]"))
 
-				removeSnapshot(s)
-				continue
-			}
-
-			for s.Scan() {
-				line := s.Bytes()
+			if isTest && !registeredTests.Has(entry.id) && !testSkipped(entry.id, runOnly) {
+				obsoleteTests = append(obsoleteTests, entry.id)
 
-				if bytes.Equal(line, endSequenceByteSlice) {
-					tests[testID] = data.String()
-
-					data.Reset()
-					break
+				if update {
+					needsUpdate = true
+					continue
 				}
-
-				data.Write(line)
-				data.WriteByte('\n')
 			}
-		}
 
-		if err := s.Err(); err != nil {
-			return nil, err
+			kept = append(kept, entry)
 		}
 
-		shouldSort := sort && !slices.IsSortedFunc(testIDs, naturalSort)
-		shouldUpdate := update && hasDiffs
+		if sort && !slices.IsSortedFunc(kept, compareEntries) {
+			slices.SortStableFunc(kept, compareEntries)
+			needsUpdate = true
+		}
 
 		// if we don't have to "write" anything on the snap we skip
-		if !shouldUpdate && !shouldSort {
-			f.Close()
-
-			clear(tests)
-			testIDs = testIDs[:0]
-			data.Reset()
-
+		if !needsUpdate {
 			continue
 		}
 
-		if shouldSort {
-			// sort testIDs
-			slices.SortFunc(testIDs, naturalSort)
+		data := bytes.Buffer{}
+		data.Grow(len(f))
+		for _, entry := range kept {
+			fmt.Fprintf(&data, "\n[%s]\n%s", entry.id, entry.data)
 		}
 
-		if err := overwriteFile(f, nil); err != nil {
+		if err := os.WriteFile(snapPath, data.Bytes(), os.ModePerm); err != nil {
 			return nil, err
 		}
-
-		for _, id := range testIDs {
-			test, ok := tests[id]
-			if !ok {
-				continue
-			}
-
-			fmt.Fprintf(f, "\n[%s]\n%s%s\n", id, test, endSequence)
-		}
-		f.Close()
-
-		clear(tests)
-		testIDs = testIDs[:0]
-		data.Reset()
 	}
 
 	return obsoleteTests, nil
 }
 
+func compareEntries(a, b snapshotEntry) int {
+	return naturalSort(a.id, b.id)
+}
+
 func summary(
 	obsoleteFiles, obsoleteTests []string, NOskippedTests int,
 	testEvents map[uint8]int,
-- 
2.43.0


From ce3e99c6d21392fa9f8fb661aa3b6d788c8c0b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:10 +0000
Subject: [PATCH 09/29] fix: give ids that are equal in natural order a fixed
 order

---
 snaps/clean.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index c654b0a..fb8b0d3 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -434,5 +434,9 @@ func naturalSort(a, b string) int {
 	if natural.Less(a, b) {
 		return -1
 	}
-	return 1
+	if natural.Less(b, a) {
+		return 1
+	}
+	// different ids can be equal in natural order e.g. 1 and 01
+	return strings.Compare(a, b)
 }
-- 
2.43.0


From 99ace45494f45577cc85ed9817ae81d2479b9069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:12 +0000
Subject: [PATCH 10/29] fix: Clean keeps snapshots of skipped and filtered out
 tests

---
 snaps/skip.go | 139 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 136 insertions(+), 3 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index 7016257..c10314d 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -1,10 +1,13 @@
 package snaps
 
 import (
+	"bytes"
 	"go/ast"
 	"go/parser"
 	"go/token"
+	"os"
 	"path"
+	"path/filepath"
 	"regexp"
 	"strings"
 
@@ -68,7 +71,10 @@ Then every "child" test should be skipped
 */
 func testSkipped(testID, runOnly string) bool {
 	// testID form: Test.*/runName - 1
-	testName := strings.Split(testID, " - ")[0]
+	testName := testID
+	if i := strings.LastIndex(testID, " - "); i != -1 {
+		testName = testID[:i]
+	}
 
 	for _, name := range skippedTests.values {
 		if testName == name || strings.HasPrefix(testName, name+"/") {
@@ -76,11 +82,100 @@ func testSkipped(testID, runOnly string) bool {
 		}
 	}
 
-	matched, _ := regexp.MatchString(runOnly, testID)
-	return !matched
+	return !matchesRunOnly(testName, runOnly)
+}
+
+// matchesRunOnly checks if a test is selected from the -run pattern, following the
+// rules of the testing package. A pattern is a list of alternatives separated by '|',
+// and each of them is split by '/' and matched with the test name element by element.
+func matchesRunOnly(testName, runOnly string) bool {
+	elems := strings.Split(testName, "/")
+
+	for _, alternative := range splitPattern(runOnly, '|') {
+		matches := true
+		for i, pattern := range splitPattern(alternative, '/') {
+			if i >= len(elems) {
+				break
+			}
+			// test names have underscores instead of spaces
+			pattern = strings.ReplaceAll(pattern, " ", "_")
+			if matched, err := regexp.MatchString(pattern, elems[i]); err == nil && !matched {
+				matches = false
+				break
+			}
+		}
+		if matches {
+			return true
+		}
+	}
+
+	return false
+}
+
+// splitPattern splits a regular expression by sep, ignoring what is inside brackets or parentheses.
+func splitPattern(s string, sep byte) []string {
+	parts := []string{}
+	start, brackets, parens := 0, 0, 0
+
+	for i := 0; i < len(s); i++ {
+		switch s[i] {
+		case '[':
+			brackets++
+		case ']':
+			// an unmatched ']' is legal
+			if brackets--; brackets < 0 {
+				brackets = 0
+			}
+		case '(':
+			if brackets == 0 {
+				parens++
+			}
+		case ')':
+			if brackets == 0 {
+				parens--
+			}
+		case '\\':
+			i++
+		case sep:
+			if brackets == 0 && parens == 0 {
+				parts = append(parts, s[start:i])
+				start = i + 1
+			}
+		}
+	}
+
+	return append(parts, s[start:])
 }
 
+// isFileSkipped checks if a snapshot file contains snapshots of tests that didn't run, either
+// because they are skipped or because they are not part of the 'runOnly'.
 func isFileSkipped(dir, filename, runOnly string) bool {
+	name, _, _ := strings.Cut(filename, snapsExt)
+
+	if i := strings.LastIndexByte(name, '_'); i != -1 && isNumber([]byte(name[i+1:])) &&
+		isStandaloneSkipped(name[:i], runOnly) {
+		return true
+	}
+
+	if f, err := os.ReadFile(filepath.Join(dir, filename)); err == nil {
+		entries, _ := readSnapshots(bytes.NewReader(f))
+		hasTests := false
+
+		for _, entry := range entries {
+			if _, isTest := getTestID([]byte("[" + entry.id + "]")); !isTest {
+				continue
+			}
+			if testSkipped(entry.id, runOnly) {
+				return true
+			}
+			hasTests = true
+		}
+
+		if hasTests {
+			return false
+		}
+	}
+
 	// When a file is skipped through CLI with -run flag we can track it
 	if runOnly == "" {
 		return false
@@ -109,3 +204,41 @@ func isFileSkipped(dir, filename, runOnly string) bool {
 
 	return true
 }
+
+// isStandaloneSkipped checks if a standalone snapshot can belong to a test that didn't run.
+//
+// The name is a test name with its '/' replaced with '_'.
+func isStandaloneSkipped(name, runOnly string) bool {
+	for _, skipped := range skippedTests.values {
+		skipped = strings.ReplaceAll(skipped, "/", "_")
+		if name == skipped || strings.HasPrefix(name, skipped+"_") {
+			return true
+		}
+	}
+
+	if runOnly == "" {
+		return false
+	}
+
+	parts := strings.Split(name, "_")
+	if len(parts) > 12 {
+		return true
+	}
+
+	// every '_' can be a '/' in the test name
+	for separators := 0; separators < 1<<(len(parts)-1); separators++ {
+		testName := parts[0]
+		for i, part := range parts[1:] {
+			if separators&(1<<i) != 0 {
+				testName += "/" + part
+			} else {
+				testName += "_" + part
+			}
+		}
+		if !matchesRunOnly(testName, runOnly) {
+			return true
+		}
+	}
+
+	return false
+}
-- 
2.43.0


From 0726d6e0fc54e84d486dda3b5595c28917724653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 11/29] fix: Clean keeps every snapshot of a test whose calls
 differ between -count executions

---
 snaps/clean.go    | 13 ++++++-------
 snaps/snapshot.go |  9 +++++++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index fb8b0d3..c73037e 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -8,7 +8,6 @@ import (
 	"os"
 	"path/filepath"
 	"slices"
-	"strconv"
 	"strings"
 	"sync"
 	"testing"
@@ -80,24 +79,24 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	// This is just for making sure Clean is called from TestMain
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
-	count, _ := strconv.Atoi(flag.Lookup("test.count").Value.String())
+	// max holds the snapshots of a single execution, regardless of how many times (-count) a test ran
 	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.cleanup,
-		count,
+		standaloneTestsRegistry.max,
+		1,
 		standaloneOccurrenceFMT,
 	)
 
 	obsoleteFiles, usedFiles := examineFiles(
-		testsRegistry.cleanup,
+		testsRegistry.max,
 		registeredStandaloneTests,
 		runOnly,
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.cleanup,
+		testsRegistry.max,
 		usedFiles,
 		runOnly,
-		count,
+		1,
 		shouldClean && !isCI,
 		opt.Sort && !isCI,
 	)
diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 8c0e9aa..fd97ed4 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -134,6 +134,8 @@ func handleError(t testingT, err any) {
 type syncRegistry struct {
 	running map[string]map[string]int
 	cleanup map[string]map[string]int
+	// the most snapshots a test created in one of its executions
+	max map[string]map[string]int
 	sync.Mutex
 }
 
@@ -145,11 +147,13 @@ func (s *syncRegistry) getTestID(snapPath, testName string) string {
 	if _, exists := s.running[snapPath]; !exists {
 		s.running[snapPath] = make(map[string]int)
 		s.cleanup[snapPath] = make(map[string]int)
+		s.max[snapPath] = make(map[string]int)
 	}
 
 	s.running[snapPath][testName]++
 	s.cleanup[snapPath][testName]++
 	c := s.running[snapPath][testName]
+	s.max[snapPath][testName] = max(s.max[snapPath][testName], c)
 	s.Unlock()
 
 	return fmt.Sprintf("[%s - %d]", testName, c)
@@ -174,6 +178,7 @@ func newRegistry() *syncRegistry {
 	return &syncRegistry{
 		running: make(map[string]map[string]int),
 		cleanup: make(map[string]map[string]int),
+		max:     make(map[string]map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -181,6 +186,8 @@ func newRegistry() *syncRegistry {
 type syncStandaloneRegistry struct {
 	running map[string]int
 	cleanup map[string]int
+	// the most snapshots created in one execution of a test
+	max map[string]int
 	sync.Mutex
 }
 
@@ -188,6 +195,7 @@ func newStandaloneRegistry() *syncStandaloneRegistry {
 	return &syncStandaloneRegistry{
 		running: make(map[string]int),
 		cleanup: make(map[string]int),
+		max:     make(map[string]int),
 		Mutex:   sync.Mutex{},
 	}
 }
@@ -198,6 +206,7 @@ func (s *syncStandaloneRegistry) getTestID(snapPath, snapPathRel string) (string
 	s.running[snapPath]++
 	s.cleanup[snapPath]++
 	c := s.running[snapPath]
+	s.max[snapPath] = max(s.max[snapPath], c)
 	s.Unlock()
 
 	return fmt.Sprintf(snapPath, c), fmt.Sprintf(snapPathRel, c)
-- 
2.43.0


From eb73bcbf4a25cf4d8fa7728e99c4332d746e3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 12/29] fix: Clean examines the snapshots of every kind of
 test, not only the ones starting with Test

---
 snaps/clean.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index c73037e..f5ad8ce 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -116,19 +116,24 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
-// getTestID will return the testID if the line is in the form of [Test... - number]
+// getTestID will return the testID if the line is in the form of [<test name> - number]
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
 		return "", false
 	}
 
-	// needs to start with [Test and end with ]
-	if !bytes.HasPrefix(b, []byte("[Test")) || b[len(b)-1] != ']' {
+	// needs to start with [ and end with ]
+	if b[0] != '[' || b[len(b)-1] != ']' {
+		return "", false
+	}
+
+	// benchmarks only run if asked to
+	if bytes.HasPrefix(b, []byte("[Benchmark")) && !runsBenchmarks() {
 		return "", false
 	}
 
 	// needs to contain ' - '
-	separator := bytes.Index(b, []byte(" - "))
+	separator := bytes.LastIndex(b, []byte(" - "))
 	if separator == -1 {
 		return "", false
 	}
@@ -141,6 +146,11 @@ func getTestID(b []byte) (string, bool) {
 	return string(b[1 : len(b)-1]), true
 }
 
+func runsBenchmarks() bool {
+	bench := flag.Lookup("test.bench")
+	return bench != nil && bench.Value.String() != ""
+}
+
 func isNumber(b []byte) bool {
 	for i := 0; i < len(b); i++ {
 		if b[i] < '0' || b[i] > '9' {
-- 
2.43.0


From 5b3c740b4cc22911f807836c8b8b8970a6118be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 13/29] fix: Clean recognises snapshots reached through a
 symbolic link to their directory

---
 snaps/clean.go | 56 ++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/snaps/clean.go b/snaps/clean.go
index f5ad8ce..f45c879 100644
--- a/snaps/clean.go
+++ b/snaps/clean.go
@@ -80,20 +80,19 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	_ = m
 	runOnly := flag.Lookup("test.run").Value.String()
 	// max holds the snapshots of a single execution, regardless of how many times (-count) a test ran
-	registeredStandaloneTests := occurrences(
-		standaloneTestsRegistry.max,
-		1,
-		standaloneOccurrenceFMT,
+	registeredTests, registeredStandaloneTests := mergeSameDirs(
+		testsRegistry.max,
+		occurrences(standaloneTestsRegistry.max, 1, standaloneOccurrenceFMT),
 	)
 
 	obsoleteFiles, usedFiles := examineFiles(
-		testsRegistry.max,
+		registeredTests,
 		registeredStandaloneTests,
 		runOnly,
 		shouldClean && !isCI,
 	)
 	obsoleteTests, err := examineSnaps(
-		testsRegistry.max,
+		registeredTests,
 		usedFiles,
 		runOnly,
 		1,
@@ -116,6 +115,51 @@ func Clean(m *testing.M, opts ...CleanOpts) {
 	}
 }
 
+// mergeSameDirs rewrites the registered paths so a directory that was reached from more than
+// one path (e.g. a symbolic link) is examined only once, with all its registered snapshots.
+func mergeSameDirs(
+	registry map[string]map[string]int,
+	registeredStandaloneTests set,
+) (map[string]map[string]int, set) {
+	dirs := map[string]string{}
+	merge := func(snapPath string) string {
+		dir, base := filepath.Split(snapPath)
+		realDir, err := filepath.EvalSymlinks(dir)
+		if err != nil {
+			return snapPath
+		}
+		realDir, err = filepath.Abs(realDir)
+		if err != nil {
+			return snapPath
+		}
+		if _, exists := dirs[realDir]; !exists {
+			dirs[realDir] = dir
+		}
+		return filepath.Join(dirs[realDir], base)
+	}
+
+	mergedRegistry := make(map[string]map[string]int, len(registry))
+	for snapPath, tests := range registry {
+		mergedPath := merge(snapPath)
+		if _, exists := mergedRegistry[mergedPath]; !exists {
+			mergedRegistry[mergedPath] = make(map[string]int, len(tests))
+		}
+		for testName, occurrence := range tests {
+			mergedRegistry[mergedPath][testName] = max(
+				mergedRegistry[mergedPath][testName],
+				occurrence,
+			)
+		}
+	}
+
+	mergedStandaloneTests := make(set, len(registeredStandaloneTests))
+	for snapPath := range registeredStandaloneTests {
+		mergedStandaloneTests[merge(snapPath)] = struct{}{}
+	}
+
+	return mergedRegistry, mergedStandaloneTests
+}
+
 // getTestID will return the testID if the line is in the form of [<test name> - number]
 func getTestID(b []byte) (string, bool) {
 	if len(b) == 0 {
-- 
2.43.0


From ce9f86307b049e1f5d5736575a4b5735e6e6b9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 14/29] fix: snapshot location under -trimpath doesn't follow a
 test that changes its working directory

---
 snaps/snapshot.go | 10 +++++-----
 snaps/utils.go    |  2 ++
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index fd97ed4..7c67a6e 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -403,9 +403,12 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	//  skips current func, the wrapper match* and the exported Match* func
 	callerFilename := baseCaller(3)
 	callerDir := filepath.Dir(callerFilename)
+	if isTrimBathBuild {
+		callerDir = testsDir
+	}
 
 	dir := c.snapsDir
-	if !filepath.IsAbs(dir) && !isTrimBathBuild {
+	if !filepath.IsAbs(dir) {
 		dir = filepath.Join(callerDir, c.snapsDir)
 	}
 	if isStandalone {
@@ -415,10 +418,7 @@ func snapshotPath(c *Config, tName string, isStandalone bool) (string, string) {
 	}
 
 	snapPath := filepath.Join(dir, constructFilename(c, callerFilename, tName, isStandalone))
-	snapPathRel := snapPath
-	if !isTrimBathBuild {
-		snapPathRel, _ = filepath.Rel(callerDir, snapPath)
-	}
+	snapPathRel, _ := filepath.Rel(callerDir, snapPath)
 
 	return snapPath, snapPathRel
 }
diff --git a/snaps/utils.go b/snaps/utils.go
index 7c441ca..a86a443 100644
--- a/snaps/utils.go
+++ b/snaps/utils.go
@@ -25,6 +25,8 @@ var (
 		snapsDir: "__snapshots__",
 	}
 	isTrimBathBuild = trimPathBuild()
+	// go test starts the tests in the directory of their package, a test can change it later
+	testsDir, _ = os.Getwd()
 )
 
 const (
-- 
2.43.0


From 725dc4c780d34d544985372ce590b1d69e476d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:12 +0000
Subject: [PATCH 15/29] fix: JSON matchers change the caller's bytes

---
 match/utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/match/utils.go b/match/utils.go
index a1cabb2..2395b00 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -8,9 +8,9 @@ import (
 
 var (
 	errPathNotFound = errors.New("path does not exist")
-	setJSONOptions  = &sjson.Options{
-		Optimistic:     true,
-		ReplaceInPlace: true,
+	// replacing in place would write on the bytes the caller passed
+	setJSONOptions = &sjson.Options{
+		Optimistic: true,
 	}
 )
 
-- 
2.43.0


From 7442588a275e1f1e75a1f72be4f5b4cc68818dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:39 +0000
Subject: [PATCH 16/29] fix: JSON matchers leave the wrong document for keys
 starting with ':', unaddressable paths and NaN

---
 match/any.go    |  3 +--
 match/custom.go |  3 +--
 match/type.go   |  8 +-------
 match/utils.go  | 43 ++++++++++++++++++++++++++++++++++++++-----
 4 files changed, 41 insertions(+), 16 deletions(-)

diff --git a/match/any.go b/match/any.go
index 8947ed6..fd30c0e 100644
--- a/match/any.go
+++ b/match/any.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type anyMatcher struct {
@@ -104,7 +103,7 @@ func (a anyMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(json, path, a.placeholder, setJSONOptions)
+		j, err := setJSON(json, r, a.placeholder)
 		if err != nil {
 			errs = append(errs, a.matcherError(err, path))
 
diff --git a/match/custom.go b/match/custom.go
index bef2a6c..4ba4095 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -6,7 +6,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type customMatcher struct {
@@ -123,7 +122,7 @@ func (c *customMatcher) JSON(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	b, err = sjson.SetBytesOptions(b, c.path, value, setJSONOptions)
+	b, err = setJSON(b, r, value)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
diff --git a/match/type.go b/match/type.go
index 5f532e7..27c5c08 100644
--- a/match/type.go
+++ b/match/type.go
@@ -7,7 +7,6 @@ import (
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
-	"github.com/tidwall/sjson"
 )
 
 type typeMatcher[ExpectedType any] struct {
@@ -118,12 +117,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := sjson.SetBytesOptions(
-			json,
-			path,
-			typePlaceholder(r.Value()),
-			setJSONOptions,
-		)
+		j, err := setJSON(json, r, typePlaceholder(r.Value()))
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
diff --git a/match/utils.go b/match/utils.go
index 2395b00..5970d8c 100644
--- a/match/utils.go
+++ b/match/utils.go
@@ -1,17 +1,17 @@
 package match
 
 import (
+	"bytes"
 	"errors"
 
+	"github.com/tidwall/gjson"
 	"github.com/tidwall/sjson"
 )
 
 var (
-	errPathNotFound = errors.New("path does not exist")
-	// replacing in place would write on the bytes the caller passed
-	setJSONOptions = &sjson.Options{
-		Optimistic: true,
-	}
+	errPathNotFound    = errors.New("path does not exist")
+	errPathNotReplaced = errors.New("path does not point to values that can be replaced")
+	errInvalidValue    = errors.New("value can't be represented in json")
 )
 
 type JSONMatcher interface {
@@ -28,3 +28,36 @@ type MatcherError struct {
 	Matcher string
 	Path    string
 }
+
+// setJSON returns a copy of b where r, the result of looking up a path in b, is replaced with value.
+func setJSON(b []byte, r gjson.Result, value any) ([]byte, error) {
+	encoded, err := sjson.SetBytes(nil, "value", value)
+	if err != nil {
+		return nil, err
+	}
+	if !gjson.ValidBytes(encoded) {
+		return nil, errInvalidValue
+	}
+	raw := gjson.GetBytes(encoded, "value").Raw
+
+	values, indexes := []gjson.Result{r}, []int{r.Index}
+	if r.Index == 0 {
+		// more than one value, or something that is not part of the document e.g. a modifier
+		if values, indexes = r.Array(), r.Indexes; !r.IsArray() || len(values) != len(indexes) {
+			return nil, errPathNotReplaced
+		}
+	}
+
+	out, end := []byte{}, 0
+	for i, v := range values {
+		index := indexes[i]
+		if index < end || index == 0 || !bytes.HasPrefix(b[index:], []byte(v.Raw)) {
+			return nil, errPathNotReplaced
+		}
+
+		out = append(append(out, b[end:index]...), raw...)
+		end = index + len(v.Raw)
+	}
+
+	return append(out, b[end:]...), nil
+}
-- 
2.43.0


From 74891d232ccac91fdb5bb42f1f65a132538efa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 17/29] fix: Type placeholder of an interface type depends on
 the value

---
 match/type.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/match/type.go b/match/type.go
index 27c5c08..80ec4c1 100644
--- a/match/type.go
+++ b/match/type.go
@@ -3,6 +3,7 @@ package match
 import (
 	"bytes"
 	"fmt"
+	"reflect"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
 	"github.com/goccy/go-yaml/parser"
@@ -86,7 +87,7 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, typePlaceholder(value)); err != nil {
+		if err := yaml.Update(f, path, typePlaceholder[ExpectedType]()); err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
@@ -117,7 +118,7 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		j, err := setJSON(json, r, typePlaceholder(r.Value()))
+		j, err := setJSON(json, r, typePlaceholder[ExpectedType]())
 		if err != nil {
 			errs = append(errs, t.matcherError(err, path))
 
@@ -138,6 +139,8 @@ func typeCheck[ExpectedType any](value interface{}) error {
 	return nil
 }
 
-func typePlaceholder(value interface{}) string {
-	return fmt.Sprintf("<Type:%T>", value)
+// typePlaceholder depends only on the expected type; when that is an interface, values of
+// different types get the same placeholder.
+func typePlaceholder[ExpectedType any]() string {
+	return fmt.Sprintf("<Type:%s>", reflect.TypeOf((*ExpectedType)(nil)).Elem())
 }
-- 
2.43.0


From da5f8aba184edf65838aea6ee46d003af66bd30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:07 +0000
Subject: [PATCH 18/29] fix: YAML matchers leave a wrong or invalid document
 for multi-line values, anchors and some multi-document files

---
 match/any.go                |  17 +++-
 match/custom.go             |  26 ++---
 match/internal/yaml/yaml.go | 196 ++++++++++++++++++++++++++++++++----
 match/type.go               |  43 ++++----
 4 files changed, 229 insertions(+), 53 deletions(-)

diff --git a/match/any.go b/match/any.go
index fd30c0e..cc00cff 100644
--- a/match/any.go
+++ b/match/any.go
@@ -63,14 +63,15 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, []MatcherError{a.matcherError(err, "*")}
 	}
 
+	updated := false
 	for _, p := range a.paths {
-		path, _, exists, err := yaml.Get(f, p)
+		targets, err := yaml.Get(f, p)
 		if err != nil {
 			errs = append(errs, a.matcherError(err, p))
 
 			continue
 		}
-		if !exists {
+		if len(targets) == 0 {
 			if a.errOnMissingPath {
 				errs = append(errs, a.matcherError(errPathNotFound, p))
 			}
@@ -78,12 +79,18 @@ func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		if err := yaml.Update(f, path, a.placeholder); err != nil {
-			errs = append(errs, a.matcherError(err, p))
+		for _, target := range targets {
+			if err := target.Update(a.placeholder); err != nil {
+				errs = append(errs, a.matcherError(err, p))
 
-			continue
+				break
+			}
+			updated = true
 		}
 	}
+	if !updated {
+		return b, errs
+	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
 }
diff --git a/match/custom.go b/match/custom.go
index 4ba4095..3b8efc5 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -77,11 +77,11 @@ func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return nil, c.matcherError(err)
 	}
 
-	path, node, exists, err := yaml.Get(f, c.path)
+	targets, err := yaml.Get(f, c.path)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
-	if !exists {
+	if len(targets) == 0 {
 		if c.errOnMissingPath {
 			return nil, c.matcherError(errPathNotFound)
 		}
@@ -89,18 +89,20 @@ func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, nil
 	}
 
-	value, err := yaml.GetValue(node)
-	if err != nil {
-		return nil, c.matcherError(err)
-	}
+	for _, target := range targets {
+		value, err := target.Value()
+		if err != nil {
+			return nil, c.matcherError(err)
+		}
 
-	result, err := c.callback(value)
-	if err != nil {
-		return nil, c.matcherError(err)
-	}
+		result, err := c.callback(value)
+		if err != nil {
+			return nil, c.matcherError(err)
+		}
 
-	if err := yaml.Update(f, path, result); err != nil {
-		return nil, c.matcherError(err)
+		if err := target.Update(result); err != nil {
+			return nil, c.matcherError(err)
+		}
 	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), nil
diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 6b22881..ae54cf1 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -3,20 +3,32 @@ package yaml
 import (
 	"bytes"
 	"errors"
+	"fmt"
+	"reflect"
 	"strings"
 
 	"github.com/goccy/go-yaml"
 	"github.com/goccy/go-yaml/ast"
+	"github.com/goccy/go-yaml/parser"
 )
 
-// GetValue returns the value of the node.
-func GetValue(node ast.Node) (interface{}, error) {
-	data, err := node.MarshalYAML()
+var errNotReplaced = errors.New("path does not point to values that can be replaced")
+
+// Target is the node a path points to in one of the documents of a file.
+type Target struct {
+	path *yaml.Path
+	doc  *ast.DocumentNode
+	node ast.Node
+}
+
+// Value returns the value of the target.
+func (t Target) Value() (any, error) {
+	data, err := t.node.MarshalYAML()
 	if err != nil {
 		return nil, err
 	}
 
-	var value interface{}
+	var value any
 	if err := yaml.Unmarshal(data, &value); err != nil {
 		return nil, err
 	}
@@ -24,34 +36,182 @@ func GetValue(node ast.Node) (interface{}, error) {
 	return value, nil
 }
 
-// Get takes an ast.File and a string representing a path
-// and returns the yaml.Path, the node and a bool indicating if the node exists.
-func Get(f *ast.File, p string) (*yaml.Path, ast.Node, bool, error) {
-	path, err := yaml.PathString(p)
+// Update replaces the target with the value.
+func (t Target) Update(value any) error {
+	if t.node == t.doc.Body {
+		return errNotReplaced
+	}
+
+	b, err := yaml.Marshal(value)
 	if err != nil {
-		return nil, nil, false, err
+		return err
 	}
 
-	node, err := path.FilterFile(f)
+	if node, err := parse(b); err != nil {
+		return err
+	} else if _, scalar := node.(ast.ScalarNode); !scalar || bytes.Count(b, []byte("\n")) > 1 {
+		// values in block style don't fit everywhere
+		flow, err := yaml.MarshalWithOptions(value, yaml.JSON())
+		if err != nil {
+			return err
+		}
+
+		want, err := t.preview(flow)
+		if err != nil {
+			return err
+		}
+		if got, err := t.preview(b); err != nil || t.inFlow() || !reflect.DeepEqual(got, want) {
+			b = flow
+		}
+	}
+
+	node, err := replace(t.doc, t.path, b)
 	if err != nil {
-		if errors.Is(err, yaml.ErrNotFoundNode) {
-			return path, nil, false, nil
+		return err
+	}
+	if replaced, err := t.path.FilterNode(t.doc.Body); err != nil || !consistsOf(replaced, node) {
+		return errNotReplaced
+	}
+
+	var out any
+	if err := yaml.Unmarshal([]byte(t.doc.String()), &out); err != nil {
+		return fmt.Errorf("replacing the value leaves an invalid yaml: %w", err)
+	}
+
+	return nil
+}
+
+// inFlow returns true if the target is part of a collection in flow style e.g. [a, b].
+func (t Target) inFlow() bool {
+	for node := t.node; node != t.doc.Body; {
+		switch node = ast.Parent(t.doc.Body, node); n := node.(type) {
+		case nil:
+			return true
+		case *ast.MappingNode:
+			if n.IsFlowStyle {
+				return true
+			}
+		case *ast.SequenceNode:
+			if n.IsFlowStyle {
+				return true
+			}
+		}
+	}
+
+	return false
+}
+
+// preview returns the value the document would have with b in place of the target.
+func (t Target) preview(b []byte) (value any, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%w: %v", errNotReplaced, r)
 		}
+	}()
 
-		return path, nil, false, err
+	f, err := parser.ParseBytes([]byte(t.doc.String()), parser.ParseComments)
+	if err != nil {
+		return nil, err
+	}
+	for _, doc := range f.Docs {
+		if _, err := replace(doc, t.path, b); err != nil {
+			return nil, err
+		}
 	}
 
-	return path, node, true, nil
+	err = yaml.Unmarshal(MarshalFile(f, true), &value)
+	return value, err
 }
 
-// Update marshals the value and replaces the file at the path provided with the new value.
-func Update(f *ast.File, path *yaml.Path, value interface{}) error {
+// Get takes an ast.File and a string representing a path and returns the nodes
+// it points to, at most one for every document of the file.
+func Get(f *ast.File, p string) ([]Target, error) {
+	if !strings.HasPrefix(p, "$") {
+		return nil, fmt.Errorf("path should start with $: %w", yaml.ErrInvalidPathString)
+	}
+
+	path, err := yaml.PathString(p)
+	if err != nil {
+		return nil, err
+	}
+
+	var targets []Target
+	for _, doc := range f.Docs {
+		node, err := path.FilterNode(doc.Body)
+		if err != nil {
+			if errors.Is(err, yaml.ErrInvalidQuery) && !resolves(doc, path) {
+				continue
+			}
+
+			return nil, err
+		}
+		if node != nil {
+			targets = append(targets, Target{path: path, doc: doc, node: node})
+		}
+	}
+
+	return targets, nil
+}
+
+// resolves returns true if the path exists after resolving anchors, aliases and tags.
+func resolves(doc *ast.DocumentNode, path *yaml.Path) bool {
+	var value any
+	if err := yaml.Unmarshal([]byte(doc.String()), &value); err != nil {
+		return true
+	}
+
 	b, err := yaml.Marshal(value)
 	if err != nil {
-		return err
+		return true
+	}
+
+	node, err := parse(b)
+	if err != nil {
+		return true
+	}
+
+	found, err := path.FilterNode(node)
+	return err == nil && found != nil
+}
+
+func parse(b []byte) (ast.Node, error) {
+	f, err := parser.ParseBytes(b, 0)
+	if err != nil {
+		return nil, err
+	}
+	if len(f.Docs) != 1 || f.Docs[0].Body == nil {
+		return nil, errNotReplaced
+	}
+
+	return f.Docs[0].Body, nil
+}
+
+func replace(doc *ast.DocumentNode, path *yaml.Path, b []byte) (ast.Node, error) {
+	node, err := parse(b)
+	if err != nil {
+		return nil, err
+	}
+
+	return node, path.ReplaceWithNode(&ast.File{Docs: []*ast.DocumentNode{doc}}, node)
+}
+
+// consistsOf returns true if n is the node, or for paths to more than one value a sequence of it.
+func consistsOf(n, node ast.Node) bool {
+	if n == node {
+		return true
+	}
+
+	sequence, ok := n.(*ast.SequenceNode)
+	if !ok {
+		return false
+	}
+	for _, value := range sequence.Values {
+		if !consistsOf(value, node) {
+			return false
+		}
 	}
 
-	return path.ReplaceWithReader(f, bytes.NewReader(b))
+	return true
 }
 
 // MarshalFile returns the representation of the ast.File to a byte slice.
diff --git a/match/type.go b/match/type.go
index 80ec4c1..dd3e90c 100644
--- a/match/type.go
+++ b/match/type.go
@@ -59,14 +59,15 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 		return b, []MatcherError{t.matcherError(err, "*")}
 	}
 
+	updated := false
 	for _, p := range t.paths {
-		path, node, exists, err := yaml.Get(f, p)
+		targets, err := yaml.Get(f, p)
 		if err != nil {
 			errs = append(errs, t.matcherError(err, p))
 
 			continue
 		}
-		if !exists {
+		if len(targets) == 0 {
 			if t.errOnMissingPath {
 				errs = append(errs, t.matcherError(errPathNotFound, p))
 			}
@@ -74,25 +75,18 @@ func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 			continue
 		}
 
-		value, err := yaml.GetValue(node)
-		if err != nil {
-			errs = append(errs, t.matcherError(err, p))
-
-			continue
-		}
-
-		if err := typeCheck[ExpectedType](value); err != nil {
-			errs = append(errs, t.matcherError(err, p))
-
-			continue
-		}
-
-		if err := yaml.Update(f, path, typePlaceholder[ExpectedType]()); err != nil {
-			errs = append(errs, t.matcherError(err, p))
+		for _, target := range targets {
+			if err := updateType[ExpectedType](target); err != nil {
+				errs = append(errs, t.matcherError(err, p))
 
-			continue
+				break
+			}
+			updated = true
 		}
 	}
+	if !updated {
+		return b, errs
+	}
 
 	return yaml.MarshalFile(f, bytes.HasSuffix(b, []byte("\n"))), errs
 }
@@ -131,6 +125,19 @@ func (t typeMatcher[ExpectedType]) JSON(b []byte) ([]byte, []MatcherError) {
 	return json, errs
 }
 
+func updateType[ExpectedType any](target yaml.Target) error {
+	value, err := target.Value()
+	if err != nil {
+		return err
+	}
+
+	if err := typeCheck[ExpectedType](value); err != nil {
+		return err
+	}
+
+	return target.Update(typePlaceholder[ExpectedType]())
+}
+
 func typeCheck[ExpectedType any](value interface{}) error {
 	if _, ok := value.(ExpectedType); !ok {
 		return fmt.Errorf("expected type %T, received %T", *new(ExpectedType), value)
-- 
2.43.0


From ca09e4cab093d66224ff15225cfd95b185644e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 19/29] fix: YAML matchers leave a wrong or invalid document
 for some placeholders, comments and strings spanning multiple lines

---
 match/internal/yaml/yaml.go | 195 +++++++++++++++++++++++++++++-------
 1 file changed, 157 insertions(+), 38 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index ae54cf1..426550b 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -4,15 +4,18 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
-	"reflect"
 	"strings"
 
 	"github.com/goccy/go-yaml"
 	"github.com/goccy/go-yaml/ast"
 	"github.com/goccy/go-yaml/parser"
+	"github.com/goccy/go-yaml/token"
 )
 
-var errNotReplaced = errors.New("path does not point to values that can be replaced")
+var (
+	errNotReplaced     = errors.New("path does not point to values that can be replaced")
+	errInvalidDocument = errors.New("replacing the value leaves an invalid yaml")
+)
 
 // Target is the node a path points to in one of the documents of a file.
 type Target struct {
@@ -42,29 +45,11 @@ func (t Target) Update(value any) error {
 		return errNotReplaced
 	}
 
-	b, err := yaml.Marshal(value)
+	b, err := t.marshal(value)
 	if err != nil {
 		return err
 	}
 
-	if node, err := parse(b); err != nil {
-		return err
-	} else if _, scalar := node.(ast.ScalarNode); !scalar || bytes.Count(b, []byte("\n")) > 1 {
-		// values in block style don't fit everywhere
-		flow, err := yaml.MarshalWithOptions(value, yaml.JSON())
-		if err != nil {
-			return err
-		}
-
-		want, err := t.preview(flow)
-		if err != nil {
-			return err
-		}
-		if got, err := t.preview(b); err != nil || t.inFlow() || !reflect.DeepEqual(got, want) {
-			b = flow
-		}
-	}
-
 	node, err := replace(t.doc, t.path, b)
 	if err != nil {
 		return err
@@ -73,12 +58,38 @@ func (t Target) Update(value any) error {
 		return errNotReplaced
 	}
 
-	var out any
-	if err := yaml.Unmarshal([]byte(t.doc.String()), &out); err != nil {
-		return fmt.Errorf("replacing the value leaves an invalid yaml: %w", err)
+	return verify(t.doc)
+}
+
+// marshal returns the value in block style, or in flow style where that would not be read back
+// as the same value e.g. inside of a flow sequence.
+func (t Target) marshal(value any) ([]byte, error) {
+	block, err := yaml.Marshal(value)
+	if err != nil {
+		return nil, err
+	}
+
+	flow, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	if err != nil {
+		return nil, err
+	}
+
+	node, err := parse(block)
+	if err != nil || !equal(block, flow) {
+		return flow, nil
 	}
 
-	return nil
+	// the parser accepts some values in block style that are not valid
+	if _, scalar := node.(ast.ScalarNode); bytes.HasPrefix(block, []byte("?")) ||
+		t.inFlow() && (!scalar || bytes.Count(block, []byte("\n")) > 1) {
+		return flow, nil
+	}
+
+	if !t.fits(block) {
+		return flow, nil
+	}
+
+	return block, nil
 }
 
 // inFlow returns true if the target is part of a collection in flow style e.g. [a, b].
@@ -101,26 +112,108 @@ func (t Target) inFlow() bool {
 	return false
 }
 
-// preview returns the value the document would have with b in place of the target.
-func (t Target) preview(b []byte) (value any, err error) {
+// fits returns true if the document can be read back with b in place of the target.
+func (t Target) fits(b []byte) (ok bool) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = fmt.Errorf("%w: %v", errNotReplaced, r)
+			ok = false
 		}
 	}()
 
 	f, err := parser.ParseBytes([]byte(t.doc.String()), parser.ParseComments)
-	if err != nil {
-		return nil, err
+	if err != nil || len(f.Docs) != 1 {
+		return false
 	}
-	for _, doc := range f.Docs {
-		if _, err := replace(doc, t.path, b); err != nil {
-			return nil, err
+	if _, err := replace(f.Docs[0], t.path, b); err != nil {
+		return false
+	}
+
+	return readsBack(f.Docs[0], "") && readsBack(f.Docs[0], "\n")
+}
+
+// verify returns an error if the document would not have the same value after it is printed,
+// strings that don't survive that are changed to double quoted ones.
+func verify(doc *ast.DocumentNode) error {
+	if readsBack(doc, "") || readsBack(doc, "\n") {
+		return nil
+	}
+
+	ast.Walk(quoter{}, doc)
+	if readsBack(doc, "") || readsBack(doc, "\n") {
+		return nil
+	}
+
+	return errInvalidDocument
+}
+
+// quoter changes single quoted keys and strings that span multiple lines to double quoted ones.
+type quoter struct{}
+
+func (q quoter) Visit(n ast.Node) ast.Visitor {
+	switch n := n.(type) {
+	case *ast.DocumentNode:
+		n.Body = q.quote(n.Body)
+	case *ast.MappingValueNode:
+		if key, ok := n.Key.(*ast.StringNode); ok && key.Token.Type == token.SingleQuoteType {
+			tk := *key.Token
+			tk.Type = token.DoubleQuoteType
+			key.Token = &tk
+		}
+		n.Value = q.quote(n.Value)
+	case *ast.SequenceNode:
+		for i := range n.Values {
+			n.Values[i] = q.quote(n.Values[i])
+		}
+	case *ast.AnchorNode:
+		n.Value = q.quote(n.Value)
+	case *ast.TagNode:
+		n.Value = q.quote(n.Value)
+	}
+
+	return q
+}
+
+func (quoter) quote(n ast.Node) ast.Node {
+	switch n := n.(type) {
+	case *ast.StringNode:
+		if strings.Contains(n.Value, "\n") {
+			return ast.String(token.DoubleQuote(n.Value, "", n.Token.Position))
 		}
+	case *ast.LiteralNode:
+		return ast.String(token.DoubleQuote(n.Value.Value, "", n.Start.Position))
+	}
+
+	return n
+}
+
+// readsBack returns true if the document still has the same value after it is printed.
+func readsBack(doc *ast.DocumentNode, end string) bool {
+	var value any
+	if err := yaml.NodeToValue(doc.Body, &value); err != nil {
+		return false
+	}
+
+	b, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	return err == nil && equal(b, []byte(doc.String()+end))
+}
+
+// equal returns true if a and b have the same value.
+func equal(a, b []byte) bool {
+	var va, vb any
+	if err := yaml.Unmarshal(a, &va); err != nil {
+		return false
+	}
+	if err := yaml.Unmarshal(b, &vb); err != nil {
+		return false
+	}
+
+	ja, err := yaml.MarshalWithOptions(va, yaml.JSON())
+	if err != nil {
+		return false
 	}
+	jb, err := yaml.MarshalWithOptions(vb, yaml.JSON())
 
-	err = yaml.Unmarshal(MarshalFile(f, true), &value)
-	return value, err
+	return err == nil && bytes.Equal(ja, jb)
 }
 
 // Get takes an ast.File and a string representing a path and returns the nodes
@@ -149,6 +242,15 @@ func Get(f *ast.File, p string) ([]Target, error) {
 			targets = append(targets, Target{path: path, doc: doc, node: node})
 		}
 	}
+	if len(targets) == 0 {
+		return nil, nil
+	}
+
+	for _, doc := range f.Docs {
+		if err := verify(doc); err != nil {
+			return nil, err
+		}
+	}
 
 	return targets, nil
 }
@@ -156,11 +258,11 @@ func Get(f *ast.File, p string) ([]Target, error) {
 // resolves returns true if the path exists after resolving anchors, aliases and tags.
 func resolves(doc *ast.DocumentNode, path *yaml.Path) bool {
 	var value any
-	if err := yaml.Unmarshal([]byte(doc.String()), &value); err != nil {
+	if err := yaml.NodeToValue(doc.Body, &value); err != nil {
 		return true
 	}
 
-	b, err := yaml.Marshal(value)
+	b, err := yaml.MarshalWithOptions(value, yaml.JSON())
 	if err != nil {
 		return true
 	}
@@ -192,7 +294,24 @@ func replace(doc *ast.DocumentNode, path *yaml.Path, b []byte) (ast.Node, error)
 		return nil, err
 	}
 
-	return node, path.ReplaceWithNode(&ast.File{Docs: []*ast.DocumentNode{doc}}, node)
+	if err := path.ReplaceWithNode(&ast.File{Docs: []*ast.DocumentNode{doc}}, node); err != nil {
+		return nil, err
+	}
+	ast.Walk(commentRemover{node}, doc.Body)
+
+	return node, nil
+}
+
+// commentRemover removes the comment between a key and its value, when there is not one for value
+// on its own lines.
+type commentRemover struct{ value ast.Node }
+
+func (c commentRemover) Visit(n ast.Node) ast.Visitor {
+	if n, ok := n.(*ast.MappingValueNode); ok && n.Value == c.value {
+		_ = n.Key.SetComment(nil)
+	}
+
+	return c
 }
 
 // consistsOf returns true if n is the node, or for paths to more than one value a sequence of it.
-- 
2.43.0


From 4c5ca78918e1c90ee0aaecb8f8bac71e4d73de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:28 +0000
Subject: [PATCH 20/29] fix: YAML matchers panic on, or drop, empty documents
 and miss the values of wildcard paths

---
 match/internal/yaml/yaml.go | 67 +++++++++++++++++++++++++++++++++----
 1 file changed, 61 insertions(+), 6 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 426550b..a957dd3 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -41,7 +41,7 @@ func (t Target) Value() (any, error) {
 
 // Update replaces the target with the value.
 func (t Target) Update(value any) error {
-	if t.node == t.doc.Body {
+	if t.path.String() == "$" {
 		return errNotReplaced
 	}
 
@@ -94,10 +94,26 @@ func (t Target) marshal(value any) ([]byte, error) {
 
 // inFlow returns true if the target is part of a collection in flow style e.g. [a, b].
 func (t Target) inFlow() bool {
-	for node := t.node; node != t.doc.Body; {
-		switch node = ast.Parent(t.doc.Body, node); n := node.(type) {
+	return inFlow(t.doc.Body, t.node)
+}
+
+func inFlow(root, node ast.Node) bool {
+	for node != nil && node != root {
+		parent := ast.Parent(root, node)
+		switch n := parent.(type) {
 		case nil:
-			return true
+			// the values of a path to more than one value are not part of a common collection
+			sequence, ok := node.(*ast.SequenceNode)
+			if !ok {
+				return true
+			}
+			for _, value := range sequence.Values {
+				if inFlow(root, value) {
+					return true
+				}
+			}
+
+			return false
 		case *ast.MappingNode:
 			if n.IsFlowStyle {
 				return true
@@ -107,6 +123,7 @@ func (t Target) inFlow() bool {
 				return true
 			}
 		}
+		node = parent
 	}
 
 	return false
@@ -134,6 +151,13 @@ func (t Target) fits(b []byte) (ok bool) {
 // verify returns an error if the document would not have the same value after it is printed,
 // strings that don't survive that are changed to double quoted ones.
 func verify(doc *ast.DocumentNode) error {
+	switch doc.Body.(type) {
+	case nil:
+		return verifyEmpty(doc)
+	case *ast.DirectiveNode:
+		return nil
+	}
+
 	if readsBack(doc, "") || readsBack(doc, "\n") {
 		return nil
 	}
@@ -146,6 +170,23 @@ func verify(doc *ast.DocumentNode) error {
 	return errInvalidDocument
 }
 
+// verifyEmpty returns an error if there are documents after the empty one, the parser drops them.
+func verifyEmpty(doc *ast.DocumentNode) error {
+	if doc.Start == nil {
+		return nil
+	}
+
+	next := doc.Start.Next
+	for next != nil && next.Type == token.CommentType {
+		next = next.Next
+	}
+	if next != nil && next.Type == token.DocumentHeaderType {
+		return errInvalidDocument
+	}
+
+	return nil
+}
+
 // quoter changes single quoted keys and strings that span multiple lines to double quoted ones.
 type quoter struct{}
 
@@ -257,6 +298,11 @@ func Get(f *ast.File, p string) ([]Target, error) {
 
 // resolves returns true if the path exists after resolving anchors, aliases and tags.
 func resolves(doc *ast.DocumentNode, path *yaml.Path) bool {
+	// the path may exist for some of the values
+	if p := path.String(); strings.Contains(p, "[*]") || strings.Contains(p, "..") {
+		return true
+	}
+
 	var value any
 	if err := yaml.NodeToValue(doc.Body, &value); err != nil {
 		return true
@@ -314,9 +360,10 @@ func (c commentRemover) Visit(n ast.Node) ast.Visitor {
 	return c
 }
 
-// consistsOf returns true if n is the node, or for paths to more than one value a sequence of it.
+// consistsOf returns true if n is the node, or for paths to more than one value a sequence of it
+// and of nils for the values that don't exist.
 func consistsOf(n, node ast.Node) bool {
-	if n == node {
+	if n == nil || n == node {
 		return true
 	}
 
@@ -338,6 +385,14 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 	docs := make([]string, 0, len(f.Docs))
 
 	for _, doc := range f.Docs {
+		if doc.Body == nil {
+			if doc.Start != nil {
+				docs = append(docs, doc.Start.Value)
+			}
+
+			continue
+		}
+
 		docs = append(docs, doc.String())
 	}
 
-- 
2.43.0


From 49448d3219d8275b2ae749a52fab628bcb1c567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:55 +0000
Subject: [PATCH 21/29] fix: YAML matchers fail on comments the parser can't
 place, and panic when a value is replaced twice

---
 match/any.go                |  3 +-
 match/custom.go             |  3 +-
 match/internal/yaml/yaml.go | 86 ++++++++++++++++++++++++++++---------
 match/type.go               |  3 +-
 4 files changed, 69 insertions(+), 26 deletions(-)

diff --git a/match/any.go b/match/any.go
index cc00cff..f5fa253 100644
--- a/match/any.go
+++ b/match/any.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
-	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
 )
 
@@ -58,7 +57,7 @@ func (a *anyMatcher) ErrOnMissingPath(e bool) *anyMatcher {
 func (a anyMatcher) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
-	f, err := parser.ParseBytes(b, parser.ParseComments)
+	f, err := yaml.Parse(b)
 	if err != nil {
 		return b, []MatcherError{a.matcherError(err, "*")}
 	}
diff --git a/match/custom.go b/match/custom.go
index 3b8efc5..4dcee73 100644
--- a/match/custom.go
+++ b/match/custom.go
@@ -4,7 +4,6 @@ import (
 	"bytes"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
-	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
 )
 
@@ -72,7 +71,7 @@ func (c *customMatcher) ErrOnMissingPath(e bool) *customMatcher {
 
 // YAML is intended to be called internally on snaps.MatchYAML for applying Custom matcher
 func (c *customMatcher) YAML(b []byte) ([]byte, []MatcherError) {
-	f, err := parser.ParseBytes(b, parser.ParseComments)
+	f, err := yaml.Parse(b)
 	if err != nil {
 		return nil, c.matcherError(err)
 	}
diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index a957dd3..9cee297 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -45,11 +45,25 @@ func (t Target) Update(value any) error {
 		return errNotReplaced
 	}
 
-	b, err := t.marshal(value)
+	b, flow, err := t.marshal(value)
 	if err != nil {
 		return err
 	}
 
+	if err := t.replace(b); err != nil {
+		return err
+	}
+	// the position of a value that was already replaced may not fit the block style
+	if !readable(t.doc) && !bytes.Equal(b, flow) {
+		if err := t.replace(flow); err != nil {
+			return err
+		}
+	}
+
+	return verify(t.doc)
+}
+
+func (t Target) replace(b []byte) error {
 	node, err := replace(t.doc, t.path, b)
 	if err != nil {
 		return err
@@ -58,38 +72,38 @@ func (t Target) Update(value any) error {
 		return errNotReplaced
 	}
 
-	return verify(t.doc)
+	return nil
 }
 
 // marshal returns the value in block style, or in flow style where that would not be read back
-// as the same value e.g. inside of a flow sequence.
-func (t Target) marshal(value any) ([]byte, error) {
+// as the same value e.g. inside of a flow sequence, and the value in flow style.
+func (t Target) marshal(value any) (b, flow []byte, err error) {
 	block, err := yaml.Marshal(value)
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
-	flow, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	flow, err = yaml.MarshalWithOptions(value, yaml.JSON())
 	if err != nil {
-		return nil, err
+		return nil, nil, err
 	}
 
 	node, err := parse(block)
 	if err != nil || !equal(block, flow) {
-		return flow, nil
+		return flow, flow, nil
 	}
 
 	// the parser accepts some values in block style that are not valid
 	if _, scalar := node.(ast.ScalarNode); bytes.HasPrefix(block, []byte("?")) ||
 		t.inFlow() && (!scalar || bytes.Count(block, []byte("\n")) > 1) {
-		return flow, nil
+		return flow, flow, nil
 	}
 
 	if !t.fits(block) {
-		return flow, nil
+		return flow, flow, nil
 	}
 
-	return block, nil
+	return block, flow, nil
 }
 
 // inFlow returns true if the target is part of a collection in flow style e.g. [a, b].
@@ -158,12 +172,12 @@ func verify(doc *ast.DocumentNode) error {
 		return nil
 	}
 
-	if readsBack(doc, "") || readsBack(doc, "\n") {
+	if readable(doc) {
 		return nil
 	}
 
 	ast.Walk(quoter{}, doc)
-	if readsBack(doc, "") || readsBack(doc, "\n") {
+	if readable(doc) {
 		return nil
 	}
 
@@ -227,8 +241,20 @@ func (quoter) quote(n ast.Node) ast.Node {
 	return n
 }
 
-// readsBack returns true if the document still has the same value after it is printed.
-func readsBack(doc *ast.DocumentNode, end string) bool {
+// readable returns true if the document still has the same value after it is printed, at the end
+// of a file or before another document.
+func readable(doc *ast.DocumentNode) bool {
+	return readsBack(doc, "") || readsBack(doc, "\n")
+}
+
+func readsBack(doc *ast.DocumentNode, end string) (ok bool) {
+	// printing a node panics when its position is not a valid one
+	defer func() {
+		if r := recover(); r != nil {
+			ok = false
+		}
+	}()
+
 	var value any
 	if err := yaml.NodeToValue(doc.Body, &value); err != nil {
 		return false
@@ -257,6 +283,21 @@ func equal(a, b []byte) bool {
 	return err == nil && bytes.Equal(ja, jb)
 }
 
+// Parse returns the ast.File of b, without comments when the parser can't place them e.g. after
+// a collection in flow style.
+func Parse(b []byte) (*ast.File, error) {
+	f, err := parser.ParseBytes(b, parser.ParseComments)
+	if err == nil {
+		return f, nil
+	}
+
+	if f, err := parser.ParseBytes(b, 0); err == nil {
+		return f, nil
+	}
+
+	return nil, err
+}
+
 // Get takes an ast.File and a string representing a path and returns the nodes
 // it points to, at most one for every document of the file.
 func Get(f *ast.File, p string) ([]Target, error) {
@@ -269,7 +310,7 @@ func Get(f *ast.File, p string) ([]Target, error) {
 		return nil, err
 	}
 
-	var targets []Target
+	found := false
 	for _, doc := range f.Docs {
 		node, err := path.FilterNode(doc.Body)
 		if err != nil {
@@ -279,11 +320,9 @@ func Get(f *ast.File, p string) ([]Target, error) {
 
 			return nil, err
 		}
-		if node != nil {
-			targets = append(targets, Target{path: path, doc: doc, node: node})
-		}
+		found = found || node != nil
 	}
-	if len(targets) == 0 {
+	if !found {
 		return nil, nil
 	}
 
@@ -293,6 +332,13 @@ func Get(f *ast.File, p string) ([]Target, error) {
 		}
 	}
 
+	var targets []Target
+	for _, doc := range f.Docs {
+		if node, err := path.FilterNode(doc.Body); err == nil && node != nil {
+			targets = append(targets, Target{path: path, doc: doc, node: node})
+		}
+	}
+
 	return targets, nil
 }
 
diff --git a/match/type.go b/match/type.go
index dd3e90c..1c5c35f 100644
--- a/match/type.go
+++ b/match/type.go
@@ -6,7 +6,6 @@ import (
 	"reflect"
 
 	"github.com/gkampitakis/go-snaps/match/internal/yaml"
-	"github.com/goccy/go-yaml/parser"
 	"github.com/tidwall/gjson"
 )
 
@@ -54,7 +53,7 @@ func (t *typeMatcher[T]) ErrOnMissingPath(e bool) *typeMatcher[T] {
 func (t typeMatcher[ExpectedType]) YAML(b []byte) ([]byte, []MatcherError) {
 	var errs []MatcherError
 
-	f, err := parser.ParseBytes(b, parser.ParseComments)
+	f, err := yaml.Parse(b)
 	if err != nil {
 		return b, []MatcherError{t.matcherError(err, "*")}
 	}
-- 
2.43.0


From f04ae16bfe555dcfe497303bdb98127502a31ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:43 +0000
Subject: [PATCH 22/29] fix: replacing a value more than once in a yaml
 document

The positions of nodes that were already replaced can become invalid, printing them panicked.
---
 match/internal/yaml/yaml.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 9cee297..c45306b 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -50,6 +50,25 @@ func (t Target) Update(value any) error {
 		return err
 	}
 
+	printed := t.doc.String()
+	if err := t.update(b, flow); err == nil {
+		return nil
+	}
+
+	// the positions of nodes that were replaced before may not fit the new one
+	if err := restore(t.doc, printed); err != nil {
+		return err
+	}
+	if err := t.update(b, flow); err != nil {
+		_ = restore(t.doc, printed)
+
+		return err
+	}
+
+	return nil
+}
+
+func (t Target) update(b, flow []byte) error {
 	if err := t.replace(b); err != nil {
 		return err
 	}
@@ -63,6 +82,20 @@ func (t Target) Update(value any) error {
 	return verify(t.doc)
 }
 
+// restore changes the document back to what it was when it was printed.
+func restore(doc *ast.DocumentNode, printed string) error {
+	f, err := parser.ParseBytes([]byte(printed), parser.ParseComments)
+	if err != nil {
+		return err
+	}
+	if len(f.Docs) != 1 || f.Docs[0].Body == nil {
+		return errInvalidDocument
+	}
+	doc.Body = f.Docs[0].Body
+
+	return nil
+}
+
 func (t Target) replace(b []byte) error {
 	node, err := replace(t.doc, t.path, b)
 	if err != nil {
-- 
2.43.0


From 77b4e1210abd5811a7369c24bf7f496786b01839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 23/29] fix: a snapshot file that can't be read is not a
 missing snapshot

---
 snaps/snapshot.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/snaps/snapshot.go b/snaps/snapshot.go
index 7c67a6e..b6fb516 100644
--- a/snaps/snapshot.go
+++ b/snaps/snapshot.go
@@ -3,8 +3,10 @@ package snaps
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
+	"io/fs"
 	"os"
 	"path/filepath"
 	"strings"
@@ -233,7 +235,7 @@ func getPrevSnapshot(testID, snapPath string) (string, int, error) {
 
 	f, err := os.ReadFile(snapPath)
 	if err != nil {
-		return "", -1, errSnapNotFound
+		return "", -1, readError(err)
 	}
 
 	lineNumber := 1
@@ -381,12 +383,22 @@ func upsertStandaloneSnapshot(snapshot, snapPath string) error {
 func getPrevStandaloneSnapshot(snapPath string) (string, error) {
 	f, err := os.ReadFile(snapPath)
 	if err != nil {
-		return "", errSnapNotFound
+		return "", readError(err)
 	}
 
 	return string(f), nil
 }
 
+// readError returns errSnapNotFound if the snapshot file doesn't exist. A file that exists but
+// can't be read is not a missing snapshot, it must not be created again.
+func readError(err error) error {
+	if errors.Is(err, fs.ErrNotExist) {
+		return errSnapNotFound
+	}
+
+	return err
+}
+
 // Returns the path for snapshots:
 //   - if no config provided returns the directory where tests are running
 //   - if snapsDir is relative path just gets appended to directory where tests are running
-- 
2.43.0


From 1dc25e2ad6ed64514902318a0dbece7a507e6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:30 +0000
Subject: [PATCH 24/29] fix: values replaced by a YAML wildcard path shared a
 node, changing a part of one changed the others

---
 match/internal/yaml/yaml.go | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index c45306b..e64134c 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -52,6 +52,8 @@ func (t Target) Update(value any) error {
 
 	printed := t.doc.String()
 	if err := t.update(b, flow); err == nil {
+		t.separate()
+
 		return nil
 	}
 
@@ -64,10 +66,25 @@ func (t Target) Update(value any) error {
 
 		return err
 	}
+	t.separate()
 
 	return nil
 }
 
+// separate gives each of the values that a path to more than one value has replaced a node of its
+// own, replacing a part of one of them must not change the others.
+func (t Target) separate() {
+	if !multiple(t.path) {
+		return
+	}
+
+	printed := t.doc.String()
+	if !readsBack(t.doc, "") {
+		printed += "\n"
+	}
+	_ = restore(t.doc, printed)
+}
+
 func (t Target) update(b, flow []byte) error {
 	if err := t.replace(b); err != nil {
 		return err
@@ -378,7 +395,7 @@ func Get(f *ast.File, p string) ([]Target, error) {
 // resolves returns true if the path exists after resolving anchors, aliases and tags.
 func resolves(doc *ast.DocumentNode, path *yaml.Path) bool {
 	// the path may exist for some of the values
-	if p := path.String(); strings.Contains(p, "[*]") || strings.Contains(p, "..") {
+	if multiple(path) {
 		return true
 	}
 
@@ -401,6 +418,13 @@ func resolves(doc *ast.DocumentNode, path *yaml.Path) bool {
 	return err == nil && found != nil
 }
 
+// multiple returns true if the path can point to more than one value.
+func multiple(path *yaml.Path) bool {
+	p := path.String()
+
+	return strings.Contains(p, "[*]") || strings.Contains(p, "..")
+}
+
 func parse(b []byte) (ast.Node, error) {
 	f, err := parser.ParseBytes(b, 0)
 	if err != nil {
-- 
2.43.0


From 022abaf48a2fb83dfa5be41209dc098f80e84953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:31 +0000
Subject: [PATCH 25/29] fix: YAML matchers took a byte order mark for a part of
 the first key and misread comments after an anchor without a value

---
 match/internal/yaml/yaml.go | 65 +++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 18 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index e64134c..94b5800 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -305,12 +305,7 @@ func readsBack(doc *ast.DocumentNode, end string) (ok bool) {
 		}
 	}()
 
-	var value any
-	if err := yaml.NodeToValue(doc.Body, &value); err != nil {
-		return false
-	}
-
-	b, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	b, err := toJSON(doc)
 	return err == nil && equal(b, []byte(doc.String()+end))
 }
 
@@ -334,18 +329,57 @@ func equal(a, b []byte) bool {
 }
 
 // Parse returns the ast.File of b, without comments when the parser can't place them e.g. after
-// a collection in flow style.
+// a collection in flow style. A byte order mark is not part of the first document.
 func Parse(b []byte) (*ast.File, error) {
+	b = bytes.TrimPrefix(b, []byte("\ufeff"))
+
 	f, err := parser.ParseBytes(b, parser.ParseComments)
-	if err == nil {
-		return f, nil
+	plain, plainErr := parser.ParseBytes(b, 0)
+	if plainErr == nil && (err != nil || misread(f, plain)) {
+		return plain, nil
+	}
+
+	return f, err
+}
+
+// misread returns true if a comment changed the value of a document e.g. after an anchor
+// without a value.
+func misread(f, plain *ast.File) bool {
+	if len(f.Docs) != len(plain.Docs) {
+		return false
+	}
+
+	for i, doc := range plain.Docs {
+		want, err := toJSON(doc)
+		if err != nil {
+			continue
+		}
+		if got, err := toJSON(f.Docs[i]); err != nil || !bytes.Equal(got, want) {
+			return true
+		}
+	}
+
+	return false
+}
+
+func toJSON(doc *ast.DocumentNode) (b []byte, err error) {
+	// the decoder panics on some nodes
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+	}()
+
+	if doc.Body == nil {
+		return nil, nil
 	}
 
-	if f, err := parser.ParseBytes(b, 0); err == nil {
-		return f, nil
+	var value any
+	if err := yaml.NodeToValue(doc.Body, &value); err != nil {
+		return nil, err
 	}
 
-	return nil, err
+	return yaml.MarshalWithOptions(value, yaml.JSON())
 }
 
 // Get takes an ast.File and a string representing a path and returns the nodes
@@ -399,12 +433,7 @@ func resolves(doc *ast.DocumentNode, path *yaml.Path) bool {
 		return true
 	}
 
-	var value any
-	if err := yaml.NodeToValue(doc.Body, &value); err != nil {
-		return true
-	}
-
-	b, err := yaml.MarshalWithOptions(value, yaml.JSON())
+	b, err := toJSON(doc)
 	if err != nil {
 		return true
 	}
-- 
2.43.0


From 4df9f591680bd2c5c9f533a9376fbe5be92434f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:40 +0000
Subject: [PATCH 26/29] fix: Clean removes standalone snapshots of skipped
 tests with .snap in their name

---
 snaps/skip.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/snaps/skip.go b/snaps/skip.go
index c10314d..93313de 100644
--- a/snaps/skip.go
+++ b/snaps/skip.go
@@ -150,11 +150,17 @@ func splitPattern(s string, sep byte) []string {
 // isFileSkipped checks if a snapshot file contains snapshots of tests that didn't run, either
 // because they are skipped or because they are not part of the 'runOnly'.
 func isFileSkipped(dir, filename, runOnly string) bool {
-	name, _, _ := strings.Cut(filename, snapsExt)
+	// a test name and an extension can contain .snap as well
+	for end := range filename {
+		if !strings.HasPrefix(filename[end:], snapsExt) {
+			continue
+		}
 
-	if i := strings.LastIndexByte(name, '_'); i != -1 && isNumber([]byte(name[i+1:])) &&
-		isStandaloneSkipped(name[:i], runOnly) {
-		return true
+		name := filename[:end]
+		if i := strings.LastIndexByte(name, '_'); i != -1 && isNumber([]byte(name[i+1:])) &&
+			isStandaloneSkipped(name[:i], runOnly) {
+			return true
+		}
 	}
 
 	if f, err := os.ReadFile(filepath.Join(dir, filename)); err == nil {
-- 
2.43.0


From 253e924cc55eb9afcc74090641b069e7e7745cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:39 +0000
Subject: [PATCH 27/29] fix: yaml matchers read the documents after an empty
 one

---
 match/internal/yaml/yaml.go | 64 ++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 22 deletions(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index 94b5800..b801eb4 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -8,6 +8,7 @@ import (
 
 	"github.com/goccy/go-yaml"
 	"github.com/goccy/go-yaml/ast"
+	"github.com/goccy/go-yaml/lexer"
 	"github.com/goccy/go-yaml/parser"
 	"github.com/goccy/go-yaml/token"
 )
@@ -216,9 +217,7 @@ func (t Target) fits(b []byte) (ok bool) {
 // strings that don't survive that are changed to double quoted ones.
 func verify(doc *ast.DocumentNode) error {
 	switch doc.Body.(type) {
-	case nil:
-		return verifyEmpty(doc)
-	case *ast.DirectiveNode:
+	case nil, *ast.DirectiveNode:
 		return nil
 	}
 
@@ -234,23 +233,6 @@ func verify(doc *ast.DocumentNode) error {
 	return errInvalidDocument
 }
 
-// verifyEmpty returns an error if there are documents after the empty one, the parser drops them.
-func verifyEmpty(doc *ast.DocumentNode) error {
-	if doc.Start == nil {
-		return nil
-	}
-
-	next := doc.Start.Next
-	for next != nil && next.Type == token.CommentType {
-		next = next.Next
-	}
-	if next != nil && next.Type == token.DocumentHeaderType {
-		return errInvalidDocument
-	}
-
-	return nil
-}
-
 // quoter changes single quoted keys and strings that span multiple lines to double quoted ones.
 type quoter struct{}
 
@@ -333,8 +315,8 @@ func equal(a, b []byte) bool {
 func Parse(b []byte) (*ast.File, error) {
 	b = bytes.TrimPrefix(b, []byte("\ufeff"))
 
-	f, err := parser.ParseBytes(b, parser.ParseComments)
-	plain, plainErr := parser.ParseBytes(b, 0)
+	f, err := parseDocuments(b, parser.ParseComments)
+	plain, plainErr := parseDocuments(b, 0)
 	if plainErr == nil && (err != nil || misread(f, plain)) {
 		return plain, nil
 	}
@@ -342,6 +324,40 @@ func Parse(b []byte) (*ast.File, error) {
 	return f, err
 }
 
+// parseDocuments parses all the documents of b, the parser drops those after an empty one.
+func parseDocuments(b []byte, mode parser.Mode) (*ast.File, error) {
+	tokens := lexer.Tokenize(string(b))
+	file := &ast.File{}
+	parse := func(tokens token.Tokens) error {
+		f, err := parser.Parse(tokens, mode)
+		if err != nil {
+			return err
+		}
+		file.Docs = append(file.Docs, f.Docs...)
+
+		return nil
+	}
+
+	start, empty := 0, false
+	for i, tk := range tokens {
+		switch tk.Type {
+		case token.DocumentHeaderType:
+			if empty {
+				if err := parse(tokens[start:i]); err != nil {
+					return nil, err
+				}
+				start = i
+			}
+			empty = true
+		case token.CommentType:
+		default:
+			empty = false
+		}
+	}
+
+	return file, parse(tokens[start:])
+}
+
 // misread returns true if a comment changed the value of a document e.g. after an anchor
 // without a value.
 func misread(f, plain *ast.File) bool {
@@ -350,6 +366,10 @@ func misread(f, plain *ast.File) bool {
 	}
 
 	for i, doc := range plain.Docs {
+		if doc.Body == nil {
+			continue
+		}
+
 		want, err := toJSON(doc)
 		if err != nil {
 			continue
-- 
2.43.0


From c9dc5d3dde0be986949f46621ff996fe496f077c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:26 +0000
Subject: [PATCH 28/29] fix: yaml matchers read plain strings like --- as
 strings

---
 match/internal/yaml/yaml.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index b801eb4..ba4d0d7 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -27,6 +27,11 @@ type Target struct {
 
 // Value returns the value of the target.
 func (t Target) Value() (any, error) {
+	// some strings are not read as one on their own e.g. ---
+	if node, ok := t.node.(*ast.StringNode); ok {
+		return node.Value, nil
+	}
+
 	data, err := t.node.MarshalYAML()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 4daf778d0fa9fcdb62832fe3c61d4cbfab87c63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:26 +0000
Subject: [PATCH 29/29] fix: yaml matchers keep the last line break of a string
 in block style before a comment

---
 match/internal/yaml/yaml.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/match/internal/yaml/yaml.go b/match/internal/yaml/yaml.go
index ba4d0d7..dc7685f 100644
--- a/match/internal/yaml/yaml.go
+++ b/match/internal/yaml/yaml.go
@@ -553,9 +553,25 @@ func MarshalFile(f *ast.File, addNewLine bool) []byte {
 		docs = append(docs, doc.String())
 	}
 
-	if addNewLine {
+	if addNewLine || needsNewLine(f) {
 		docs = append(docs, "")
 	}
 
 	return []byte(strings.Join(docs, "\n"))
 }
+
+// needsNewLine returns true if the last value only stays the same with a newline after it e.g. a
+// string in block style that was followed by a comment.
+func needsNewLine(f *ast.File) bool {
+	if len(f.Docs) == 0 {
+		return false
+	}
+
+	doc := f.Docs[len(f.Docs)-1]
+	switch doc.Body.(type) {
+	case nil, *ast.DirectiveNode:
+		return false
+	}
+
+	return !readsBack(doc, "") && readsBack(doc, "\n")
+}
-- 
2.43.0

