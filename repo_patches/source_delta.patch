From 5f92b2e49ea650f6e37e704af8dad31d046db798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 01/11] fix: keep point inside the buffer so stale or
 out-of-range marks cannot panic later commands

---
 edlisp/eval.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edlisp/eval.go b/edlisp/eval.go
index dc592be..71e1b09 100644
--- a/edlisp/eval.go
+++ b/edlisp/eval.go
@@ -58,8 +58,13 @@ func (b *Buffer) Mark() int {
 	return b.mark
 }
 
-// SetPoint sets the cursor position.
+// SetPoint sets the cursor position, clamped to the bounds of the buffer.
 func (b *Buffer) SetPoint(pos int) {
+	if pos < 1 {
+		pos = 1
+	} else if pos > b.content.Len()+1 {
+		pos = b.content.Len() + 1
+	}
 	b.point = pos
 }
 
-- 
2.43.0


From 2f77fdda30d8bcccfe0a90fd87e2e93a83a947ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 02/11] fix: delete-char with a negative or huge count must not
 duplicate text or panic

---
 edlisp/builtin_delete_char.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_delete_char.go b/edlisp/builtin_delete_char.go
index 49d71af..9ca6999 100644
--- a/edlisp/builtin_delete_char.go
+++ b/edlisp/builtin_delete_char.go
@@ -30,10 +30,12 @@ func BuiltinDeleteChar(args []Value, buffer *Buffer) (Value, error) {
 
 	// Convert 1-based position to 0-based index
 	startPos := pos - 1
-	endPos := startPos + count
-	if endPos > len(content) {
-		endPos = len(content)
+	if count < 0 {
+		count = 0
+	} else if count > len(content)-startPos {
+		count = len(content) - startPos
 	}
+	endPos := startPos + count
 
 	// Delete characters starting at current position
 	newContent := content[:startPos] + content[endPos:]
-- 
2.43.0


From 7ccbc88060faa2bcda7cc3a41e6dcb2dcad08972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 03/11] fix: stop line commands at the end of the buffer
 instead of counting on for huge counts

---
 edlisp/builtin_delete_line.go | 2 +-
 edlisp/builtin_kill_line.go   | 2 +-
 edlisp/builtin_mark_line.go   | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/edlisp/builtin_delete_line.go b/edlisp/builtin_delete_line.go
index ef589d5..5103d52 100644
--- a/edlisp/builtin_delete_line.go
+++ b/edlisp/builtin_delete_line.go
@@ -33,7 +33,7 @@ func BuiltinDeleteLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
diff --git a/edlisp/builtin_kill_line.go b/edlisp/builtin_kill_line.go
index 9de7f0e..a6afbcd 100644
--- a/edlisp/builtin_kill_line.go
+++ b/edlisp/builtin_kill_line.go
@@ -43,7 +43,7 @@ func BuiltinKillLine(args []Value, buffer *Buffer) (Value, error) {
 		// For multi-line kill, kill entire lines starting from cursor
 		startPos = pos
 		lineEnd = startPos
-		for i := 0; i < count; i++ {
+		for i := 0; i < count && lineEnd < len(content); i++ {
 			// Find end of current line
 			for lineEnd < len(content) && content[lineEnd] != '\n' {
 				lineEnd++
diff --git a/edlisp/builtin_mark_line.go b/edlisp/builtin_mark_line.go
index 55829c2..8c34117 100644
--- a/edlisp/builtin_mark_line.go
+++ b/edlisp/builtin_mark_line.go
@@ -34,7 +34,7 @@ func BuiltinMarkLine(args []Value, buffer *Buffer) (Value, error) {
 
 	// Find end of line(s) based on count
 	lineEnd := pos
-	for i := 0; i < count; i++ {
+	for i := 0; i < count && lineEnd < len(content); i++ {
 		for lineEnd < len(content) && content[lineEnd] != '\n' {
 			lineEnd++
 		}
-- 
2.43.0


From 4c10b09edf4ed9f9491159e6b795eae4edbb47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 04/11] fix: a looping edit_file request stops when the request
 is cancelled

---
 tools/edit_file.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tools/edit_file.go b/tools/edit_file.go
index f06477e..9088a83 100644
--- a/tools/edit_file.go
+++ b/tools/edit_file.go
@@ -56,7 +56,7 @@ func EditFileHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.Cal
 	var iterations int
 
 	if loopUntilError {
-		editResults, iterations, editErr = editFilesWithLoop(files, script)
+		editResults, iterations, editErr = editFilesWithLoop(ctx, files, script)
 	} else {
 		editResults, editErr = texted.EditFiles(files, script)
 		iterations = 1
@@ -97,11 +97,16 @@ func EditFileHandler(ctx context.Context, request mcp.CallToolRequest) (*mcp.Cal
 }
 
 // editFilesWithLoop repeatedly applies a script to files until an error occurs
-func editFilesWithLoop(files []string, script string) ([]texted.EditResult, int, error) {
+// or the request is cancelled
+func editFilesWithLoop(ctx context.Context, files []string, script string) ([]texted.EditResult, int, error) {
 	iterations := 0
 	var lastResults []texted.EditResult
 
 	for {
+		if err := ctx.Err(); err != nil {
+			return lastResults, iterations, fmt.Errorf("cancelled after %d iterations: %w", iterations, err)
+		}
+
 		iterations++
 		results, err := texted.EditFiles(files, script)
 		if err != nil {
-- 
2.43.0


From 3f82043af8f7cf61d9cfea3eaeea01af58faf0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 05/11] fix: report a failure to write expression results to
 stdout

---
 commands/edit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/edit.go b/commands/edit.go
index caac571..d68c537 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -393,7 +393,9 @@ func evaluateExpressionsOnContent(args *evaluateExpressionsOnContentArgs) error
 				return fmt.Errorf("writing result: %w", err)
 			}
 
-			fmt.Printf("%s\n", buf.String())
+			if _, err := fmt.Printf("%s\n", buf.String()); err != nil {
+				return fmt.Errorf("writing result: %w", err)
+			}
 		}
 	}
 	return nil
-- 
2.43.0


From 2dc4313b3cd51467242006a2709da13cb3687ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 06/11] fix: list documentation categories in a stable order

---
 commands/doc.go     | 11 +++++++++--
 tools/texted_doc.go |  2 ++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/commands/doc.go b/commands/doc.go
index 89d2a12..d4b96fa 100644
--- a/commands/doc.go
+++ b/commands/doc.go
@@ -2,6 +2,7 @@ package commands
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/spf13/cobra"
@@ -152,9 +153,15 @@ func listFunctions(category string, verbose bool) error {
 			categoryMap[cat] = append(categoryMap[cat], doc)
 		}
 
-		for catName, catDocs := range categoryMap {
+		catNames := make([]string, 0, len(categoryMap))
+		for catName := range categoryMap {
+			catNames = append(catNames, catName)
+		}
+		sort.Strings(catNames)
+
+		for _, catName := range catNames {
 			fmt.Printf("## %s\n\n", strings.Title(catName))
-			for _, doc := range catDocs {
+			for _, doc := range categoryMap[catName] {
 				fmt.Printf("- **%s**: %s\n", doc.Name, doc.Summary)
 			}
 			fmt.Printf("\n")
diff --git a/tools/texted_doc.go b/tools/texted_doc.go
index 0513d14..9b9411f 100644
--- a/tools/texted_doc.go
+++ b/tools/texted_doc.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	_ "embed"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/dhamidi/texted/edlisp"
@@ -187,6 +188,7 @@ func formatFunctionList(docs []edlisp.FunctionDoc, title string, verbose bool) s
 		for category := range categoryMap {
 			categories = append(categories, category)
 		}
+		sort.Strings(categories)
 
 		for _, category := range categories {
 			output.WriteString(fmt.Sprintf("## %s\n\n", category))
-- 
2.43.0


From 44f92d5924de71cfd45f268024328b8238b8d906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 07/11] fix: put the original content back when rewriting a
 file in place fails

---
 commands/edit.go |  2 +-
 texted.go        | 30 +++++++++++++++++++++++++-----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/commands/edit.go b/commands/edit.go
index d68c537..b7bc89c 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -593,7 +593,7 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 			continue
 		}
 
-		if err := os.WriteFile(filename, []byte(result), 0644); err != nil {
+		if err := texted.ReplaceFileContent(filename, string(content), result); err != nil {
 			if !args.quiet {
 				fmt.Printf("✗ Failed to write %s: %v\n", filename, err)
 			}
diff --git a/texted.go b/texted.go
index d393631..c120e7a 100644
--- a/texted.go
+++ b/texted.go
@@ -1,6 +1,7 @@
 package texted
 
 import (
+	"errors"
 	"fmt"
 	"os"
 
@@ -78,7 +79,7 @@ func EditFile(filename, script string) error {
 		return err
 	}
 
-	return writeFile(filename, modified)
+	return writeFile(filename, content, modified)
 }
 
 // EditFileWithFormat applies a texted script with a specific format to a file.
@@ -93,7 +94,7 @@ func EditFileWithFormat(filename, script, format string) error {
 		return err
 	}
 
-	return writeFile(filename, modified)
+	return writeFile(filename, content, modified)
 }
 
 // EditFiles applies a texted script to multiple files.
@@ -157,9 +158,28 @@ func readFile(filename string) (string, error) {
 	return string(content), nil
 }
 
-// writeFile writes content to a file.
-func writeFile(filename, content string) error {
-	err := os.WriteFile(filename, []byte(content), 0644)
+// ReplaceFileContent overwrites a file that holds original with modified.
+// If writing fails after the file has been opened, and thereby truncated,
+// the original content is put back.
+func ReplaceFileContent(filename, original, modified string) error {
+	err := os.WriteFile(filename, []byte(modified), 0644)
+	if err == nil {
+		return nil
+	}
+
+	var pathErr *os.PathError
+	if errors.As(err, &pathErr) && pathErr.Op == "open" {
+		return err // never opened, so there is nothing to restore
+	}
+	if restoreErr := os.WriteFile(filename, []byte(original), 0644); restoreErr != nil {
+		return fmt.Errorf("%w (restoring the original content failed as well: %v)", err, restoreErr)
+	}
+	return err
+}
+
+// writeFile replaces the original content of a file.
+func writeFile(filename, original, content string) error {
+	err := ReplaceFileContent(filename, original, content)
 	if err != nil {
 		return fmt.Errorf("failed to write file %s: %w", filename, err)
 	}
-- 
2.43.0


From 64bc7a95701755ecf1d21a42e752bcb4875bc1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 08/11] fix: keep the original content when backups and edited
 files coincide

With -i --backup, a file named twice had its backup overwritten with
already edited content, and a backup whose name is (or links to) another
edited file replaced that file's content before it was backed up.
---
 commands/edit.go | 70 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 69 insertions(+), 1 deletion(-)

diff --git a/commands/edit.go b/commands/edit.go
index b7bc89c..61d7289 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -533,6 +533,7 @@ func processSingleFileToStdout(args *processSingleFileToStdoutArgs) error {
 // processFilesInPlace processes files in place with optional backup
 func processFilesInPlace(args *processFilesInPlaceArgs) error {
 	hasErrors := false
+	backups := newBackupSet(args)
 	for _, filename := range args.files {
 		if args.verbose && !args.quiet {
 			fmt.Printf("Processing %s in place\n", filename)
@@ -565,7 +566,7 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 				continue
 			}
 
-			if err := os.WriteFile(backupFile, content, 0644); err != nil {
+			if err := backups.write(filename, backupFile, content); err != nil {
 				if !args.quiet {
 					fmt.Printf("✗ Failed to create backup %s: %v\n", backupFile, err)
 				}
@@ -612,3 +613,70 @@ func processFilesInPlace(args *processFilesInPlaceArgs) error {
 
 	return nil
 }
+
+// backupSet keeps the backups of one run from destroying what they protect.
+type backupSet struct {
+	edited []os.FileInfo // the files to be edited
+	made   []madeBackup  // the backups made so far
+}
+
+// madeBackup is a backup together with the file it was made for.
+type madeBackup struct {
+	file, backup os.FileInfo
+}
+
+// newBackupSet prepares the backups of the files to be edited, if requested.
+func newBackupSet(args *processFilesInPlaceArgs) *backupSet {
+	set := &backupSet{}
+	if args.backupSuffix == "" || args.dryRun {
+		return set
+	}
+	for _, filename := range args.files {
+		if info, err := os.Stat(filename); err == nil {
+			set.edited = append(set.edited, info)
+		}
+	}
+	return set
+}
+
+// write stores the content of filename in backupFile. When a file is named
+// twice, its first backup holds the original content and is kept. A backup that
+// would overwrite an edited file or another file's backup is refused, and so is
+// editing a backup made earlier in the same run.
+func (set *backupSet) write(filename, backupFile string, content []byte) error {
+	file, err := os.Stat(filename)
+	if err != nil {
+		return err
+	}
+	backup, err := os.Stat(backupFile)
+	if err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	exists := err == nil
+
+	for _, made := range set.made {
+		switch {
+		case os.SameFile(file, made.backup):
+			return fmt.Errorf("%s is the backup of another file", filename)
+		case exists && os.SameFile(backup, made.backup):
+			if os.SameFile(file, made.file) {
+				return nil
+			}
+			return fmt.Errorf("it is the backup of another file")
+		}
+	}
+	for _, edited := range set.edited {
+		if exists && os.SameFile(backup, edited) {
+			return fmt.Errorf("it is one of the files to edit")
+		}
+	}
+
+	if err := os.WriteFile(backupFile, content, 0644); err != nil {
+		return err
+	}
+	if backup, err = os.Stat(backupFile); err != nil {
+		return err
+	}
+	set.made = append(set.made, madeBackup{file, backup})
+	return nil
+}
-- 
2.43.0


From ce1b9b2f59f26ad542a6a3fed01fd953fdb3cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:44 +0000
Subject: [PATCH 09/11] fix: accept script lines longer than 64 KB

A longer line made an otherwise valid shell or S-expression script fail with
'token too long', while the same script worked in JSON syntax.
---
 edlisp/parser/linebased.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 03c9ffe..498efd4 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -5,6 +5,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strconv"
 	"strings"
 	"unicode"
@@ -20,6 +21,7 @@ import (
 // 4. Semicolons are treated as line separators (equivalent to newlines)
 func ParseReader(r io.Reader) ([]edlisp.Value, error) {
 	scanner := bufio.NewScanner(r)
+	scanner.Buffer(nil, math.MaxInt) // lines can be of any length
 	var expressions []edlisp.Value
 
 	for scanner.Scan() {
-- 
2.43.0


From e4433a48893f83590f7ecbcb1776bda3aeebb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:15 +0000
Subject: [PATCH 10/11] fix: fail when the file headers of expression results
 cannot be written

---
 commands/edit.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/commands/edit.go b/commands/edit.go
index 61d7289..d3a802c 100644
--- a/commands/edit.go
+++ b/commands/edit.go
@@ -302,7 +302,9 @@ func runExpressions(args *runExpressionsArgs) error {
 		}
 
 		if len(args.files) > 1 && !args.quiet {
-			fmt.Printf("=== %s ===\n", filename)
+			if _, err := fmt.Printf("=== %s ===\n", filename); err != nil {
+				return fmt.Errorf("writing result: %w", err)
+			}
 		}
 
 		err = evaluateExpressionsOnContent(&evaluateExpressionsOnContentArgs{
-- 
2.43.0


From e2b1f0509bbe0888321898f5e88f2395a7bba3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:52 +0000
Subject: [PATCH 11/11] fix: refuse scripts whose lists are nested deeper than
 the stack can follow

---
 edlisp/parser/linebased.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/edlisp/parser/linebased.go b/edlisp/parser/linebased.go
index 498efd4..57fda58 100644
--- a/edlisp/parser/linebased.go
+++ b/edlisp/parser/linebased.go
@@ -157,12 +157,18 @@ func parseShellLike(line string) (edlisp.Value, error) {
 	return &edlisp.List{Elements: elements}, nil
 }
 
+// maxNesting is how deep lists may be nested, the same as encoding/json allows
+// for arrays. Parsing, evaluating and printing lists is recursive, and running
+// out of stack cannot be recovered from.
+const maxNesting = 10000
+
 // tokenize splits a line into tokens, handling quoted strings and parentheses.
 func tokenize(line string) ([]string, error) {
 	var tokens []string
 	var current strings.Builder
 	inQuotes := false
 	escapeNext := false
+	nesting := 0
 
 	for _, r := range line {
 		if escapeNext {
@@ -189,6 +195,14 @@ func tokenize(line string) ([]string, error) {
 					current.Reset()
 				}
 				tokens = append(tokens, string(r))
+				if r == '(' {
+					nesting++
+				} else {
+					nesting--
+				}
+				if nesting > maxNesting {
+					return nil, fmt.Errorf("lists are nested more than %d deep", maxNesting)
+				}
 			}
 		case ' ', '\t', '\n', '\r':
 			if inQuotes {
-- 
2.43.0

