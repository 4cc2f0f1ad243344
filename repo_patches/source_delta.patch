From faa0da2101b4c26ff55f504ae7d7385709118409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:30 +0000
Subject: [PATCH 01/34] fix: piece table keeps text after a delete past the
 end, and panics on the second insert into a zero table

---
 pkg/txt/piece_table.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index b64520c..640f1c6 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -113,13 +113,11 @@ func (p *piece) append(pieces ...*piece) {
 func (pt *PieceTable) Insert(text []byte, at int) {
 	idx := 0
 	var prev *piece
+	if pt.append == nil {
+		pt.append = bytes.NewBuffer(nil)
+	}
 	if pt.head == nil {
-		pt.head = &piece{
-			length: len(text),
-			offset: 0,
-			reader: bytes.NewReader(text),
-		}
-		return
+		pt.head = &piece{}
 	}
 	for p := pt.head; p != nil; p = p.next {
 		idx += p.length
@@ -177,7 +175,10 @@ func (pt *PieceTable) Delete(length int, at int) {
 			return
 		}
 	}
-	//panic(fmt.Errorf("at (%d) too big, max %d", at, end))
+	// The range reaches past the end: everything after `at` is gone.
+	if first != nil {
+		first.next = nil
+	}
 }
 
 func (pt *PieceTable) clean() {
-- 
2.43.0


From 3aa765891e9feddf911a29e9d6dd4e715047206d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:20 +0000
Subject: [PATCH 02/34] fix: diff reports trouble and differences in its exit
 status, reads '-', long lines and CR, and is silent for equal files

---
 cmd/diff/main.go | 54 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index aa59f4f..c4a67b6 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -3,8 +3,10 @@ package main
 import (
 	"bufio"
 	"fmt"
+	"io"
 	"os"
 	"strconv"
+	"strings"
 
 	"github.com/fwip/posix-utils/pkg/diff"
 )
@@ -39,6 +41,9 @@ func parseSettings(args []string) (settings, error) {
 			}
 			s.provideContext = true
 			s.contextSize, err = strconv.Atoi(args[i+1])
+			if err != nil {
+				return s, err
+			}
 			i++
 		case "-e":
 			s.edFormat = true
@@ -81,29 +86,52 @@ func parseSettings(args []string) (settings, error) {
 }
 
 func readLines(fn string) ([]string, error) {
-	f, err := os.Open(fn)
-	if err != nil {
-		return nil, err
+	f := os.Stdin
+	if fn != "-" {
+		var err error
+		f, err = os.Open(fn)
+		if err != nil {
+			return nil, err
+		}
+		defer f.Close()
 	}
-	defer f.Close()
-	scanner := bufio.NewScanner(f)
+	reader := bufio.NewReader(f)
 	lines := make([]string, 0)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	for {
+		line, err := reader.ReadString('\n')
+		if line != "" {
+			lines = append(lines, strings.TrimSuffix(line, "\n"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
+		if err != nil {
+			return nil, err
+		}
 	}
-	return lines, scanner.Err()
 }
 
 func main() {
 	settings, err := parseSettings(os.Args[1:])
 	if err != nil {
-		fmt.Fprintf(os.Stdout, "Oh heck an error: %s\n", err)
-		os.Exit(1)
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
 	}
 
-	l1, _ := readLines(settings.file1)
-	l2, _ := readLines(settings.file2)
+	l1, err := readLines(settings.file1)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
+	l2, err := readLines(settings.file2)
+	if err != nil {
+		fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+		os.Exit(2)
+	}
 	changes := diff.Diff(l1, l2)
 
-	fmt.Println(diff.Format(changes))
+	if out := diff.Format(changes); out != "" {
+		fmt.Println(out)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From d232438404758f9123e6d64e28befb2a78deb493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:31 +0000
Subject: [PATCH 03/34] fix: tsort keeps the constraints on a word that is also
 given alone

---
 pkg/tsort/tsort.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/tsort/tsort.go b/pkg/tsort/tsort.go
index 7e10f0f..fe11884 100644
--- a/pkg/tsort/tsort.go
+++ b/pkg/tsort/tsort.go
@@ -23,7 +23,9 @@ func (s *Sorter) Add(items []string) {
 		return
 	}
 	if len(items) == 1 {
-		s.orderings[items[0]] = nil
+		if _, ok := s.orderings[items[0]]; !ok {
+			s.orderings[items[0]] = nil
+		}
 		return
 	}
 	for i := 0; i < len(items)-1; i++ {
-- 
2.43.0


From 11d2fa1b52b2d59057060220787400424e32b1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:57 +0000
Subject: [PATCH 04/34] fix: option parser takes the rest of a bundle as the
 argument once, and refuses a missing argument

---
 pkg/flag/parse.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index ff5f5e5..6c783e0 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -46,19 +46,22 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 			value := arg[j+2:]
 			if len(value) == 0 {
 				i++
+				if i >= len(p.Input) {
+					return nil, fmt.Errorf("-%c is unknown or lacks its argument", c)
+				}
 				value = p.Input[i]
 			}
 
 			if flag, ok := p.strings[c]; ok {
 				flag.execute(value)
-				continue
+				break
 			}
 			if flag, ok := p.ints[c]; ok {
 				err := flag.execute(value)
 				if err != nil {
 					return nil, err
 				}
-				continue
+				break
 			}
 			return nil, fmt.Errorf("man what's happening")
 			//// non-boolean flags may only be bundled if they are the last
-- 
2.43.0


From e03dd0b091807bb49795c65b1a6fe113c1ba7603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:39 +0000
Subject: [PATCH 05/34] fix: regular expressions count only adjacent
 repetitions, honour $, and try the empty end of the text

---
 pkg/regexes/bre_evaluate.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/regexes/bre_evaluate.go b/pkg/regexes/bre_evaluate.go
index 1030c1d..c9b6a13 100644
--- a/pkg/regexes/bre_evaluate.go
+++ b/pkg/regexes/bre_evaluate.go
@@ -5,7 +5,7 @@ func (bre Bre) Matches(input string) bool {
 	runes := []rune(input)
 
 	if bre.anchorLeft || len(input) == 0 {
-		match, length := elementsMatch(bre.elements, runes)
+		match, length := elementsMatch(bre.elements, runes, bre.anchorRight)
 		if !match {
 			return false
 		}
@@ -15,8 +15,8 @@ func (bre Bre) Matches(input string) bool {
 		return true
 	}
 
-	for i := range runes {
-		match, length := elementsMatch(bre.elements, runes[i:])
+	for i := 0; i <= len(runes); i++ {
+		match, length := elementsMatch(bre.elements, runes[i:], bre.anchorRight)
 		if !match {
 			continue
 		}
@@ -29,12 +29,12 @@ func (bre Bre) Matches(input string) bool {
 	return false
 }
 
-// recursive
-func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, matchlen int) {
+// recursive; with atEnd, only matches that end with the runes count
+func elementsMatch(elements []breDuplElement, runes []rune, atEnd bool) (matches bool, matchlen int) {
 
 	// No elements matches any string
 	if len(elements) == 0 {
-		return true, len(runes)
+		return !atEnd || len(runes) == 0, 0
 	}
 
 	e := elements[0]
@@ -47,12 +47,14 @@ func elementsMatch(elements []breDuplElement, runes []rune) (matches bool, match
 		} else if matched < e.count.min {
 			// Return early if we don't have at least the minimum matches
 			return false, 0
+		} else {
+			break
 		}
 	}
 
 	// Check remainder of matches, backtracking when necessary
 	for i := matched; i >= e.count.min; i-- {
-		if match, length := elementsMatch(elements[1:], runes[i:]); match {
+		if match, length := elementsMatch(elements[1:], runes[i:], atEnd); match {
 			return match, length + i
 		}
 	}
-- 
2.43.0


From dc892d1ae39c0b922eb397f4316110ecc6b2132b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:41 +0000
Subject: [PATCH 06/34] fix: cksum writes no name for standard input without
 operands

---
 cmd/cksum/main.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index d0177cb..6514941 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -11,7 +11,7 @@ func die(format string, args ...interface{}) {
 	os.Exit(1)
 }
 
-func run(filename string) {
+func run(filename string, label string) {
 	reader := os.Stdin
 	if filename != "-" {
 		f, err := os.Open(filename)
@@ -26,15 +26,15 @@ func run(filename string) {
 		die("couldn't read input %s", err)
 	}
 
-	fmt.Printf("%d %d %s\n", memcrc(bytes), len(bytes), filename)
+	fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
 }
 
 func main() {
 	files := os.Args[1:]
 	if len(files) == 0 {
-		files = append(files, "-")
+		run("-", "")
 	}
 	for _, f := range files {
-		run(f)
+		run(f, " "+f)
 	}
 }
-- 
2.43.0


From 0f9252c68d7b41768dfb07841767f3c229a5eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:00 +0000
Subject: [PATCH 07/34] fix: cat goes on after an operand it cannot read, and
 fails

---
 cmd/cat/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/cat/main.go b/cmd/cat/main.go
index 639fa86..e4dd716 100644
--- a/cmd/cat/main.go
+++ b/cmd/cat/main.go
@@ -45,11 +45,13 @@ func main() {
 		filenames = append(filenames, "-")
 	}
 
+	status := 0
 	for _, fn := range filenames {
 		err := writeFile(fn)
 		if err != nil {
 			os.Stderr.Write([]byte(fmt.Sprintf("Error encountered while attempting to read from %s: %s\n", fn, err)))
-			break
+			status = 1
 		}
 	}
+	os.Exit(status)
 }
-- 
2.43.0


From 98ab7fb4af6820a64732afe171ab26738bc916c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:00 +0000
Subject: [PATCH 08/34] fix: cmp -l exits 1 for different files, -s writes
 nothing, and missing operands or read errors are trouble

---
 cmd/cmp/main.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index e1235b0..80cd41b 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -33,6 +33,9 @@ func parseSettings(args []string) (settings, error) {
 			}
 		}
 	}
+	if s.file2 == "" {
+		return s, fmt.Errorf("two files are needed")
+	}
 	return s, nil
 }
 
@@ -58,6 +61,7 @@ func cmp(s settings) error {
 	buf1 := bufio.NewReader(f1)
 	buf2 := bufio.NewReader(f2)
 	l := 1
+	status := 0
 	for i := 1; err == nil; i++ {
 		b1, err1 := buf1.ReadByte()
 		b2, err2 := buf2.ReadByte()
@@ -71,6 +75,7 @@ func cmp(s settings) error {
 						fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
 					}
 				}
+				status = 1
 				if !s.writeAll {
 					os.Exit(1)
 				}
@@ -83,23 +88,30 @@ func cmp(s settings) error {
 		if err1 == io.EOF && err2 == io.EOF {
 			break
 		}
+		if err1 != nil && err1 != io.EOF {
+			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
+		}
+		if err2 != nil && err2 != io.EOF {
+			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+		}
 		if err1 != nil {
-			if err1 == io.EOF {
+			if !s.silent {
 				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file1, "")
-				os.Exit(1)
 			}
-			return fmt.Errorf("Error reading %s: %s", s.file1, err1)
+			os.Exit(1)
 		}
 		if err2 != nil {
-			if err2 == io.EOF {
+			if !s.silent {
 				fmt.Fprintf(os.Stderr, "cmp: EOF on %s%s\n", s.file2, "")
-				os.Exit(1)
 			}
-			return fmt.Errorf("Error reading %s: %s", s.file2, err2)
+			os.Exit(1)
 		}
 
 	}
 
+	if status != 0 {
+		os.Exit(status)
+	}
 	return nil
 }
 
-- 
2.43.0


From 5e468d94cd072941915ec9914f94be5c538f24d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:00 +0000
Subject: [PATCH 09/34] fix: head reads standard input without operands, writes
 lines unchanged, and reports errors instead of panicking

---
 cmd/head/main.go | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index d3d8a3a..55e63a5 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -19,14 +19,12 @@ func parseSettings(args []string) (settings, error) {
 		//filenames: []string{"-"},
 	}
 
-	if len(args) == 0 {
-		return s, nil
-		//return settings{}, fmt.Errorf("No arguments")
-	}
-
 	for i := 0; i < len(args); i++ {
 		if args[i] == "-n" {
 			i++
+			if i >= len(args) {
+				return s, fmt.Errorf("-n needs a number of lines")
+			}
 			n, err := strconv.Atoi(args[i])
 			if err != nil {
 				return s, err
@@ -44,7 +42,7 @@ func parseSettings(args []string) (settings, error) {
 	return s, nil
 }
 
-func process(s settings) {
+func process(s settings) (status int) {
 
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
@@ -60,27 +58,36 @@ func process(s settings) {
 		} else {
 			f, err = os.Open(filename)
 			if err != nil {
-				panic(err)
+				fmt.Fprintf(os.Stderr, "head: %s\n", err)
+				status = 1
+				continue
 			}
+			defer f.Close()
 		}
 
-		scan := bufio.NewScanner(f)
-		j := 0
-		for scan.Scan() && j < s.numLines {
-			fmt.Println(scan.Text())
-			j++
-		}
-		if scan.Err() != nil {
-			panic(scan.Err())
+		lines := bufio.NewReader(f)
+		for j := 0; j < s.numLines; j++ {
+			line, err := lines.ReadString('\n')
+			fmt.Print(line)
+			if err == io.EOF {
+				break
+			}
+			if err != nil {
+				fmt.Fprintf(os.Stderr, "head: %s: %s\n", filename, err)
+				status = 1
+				break
+			}
 		}
 	}
 
+	return status
 }
 
 func main() {
 	s, err := parseSettings(os.Args[1:])
 	if err != nil {
-		panic(err)
+		fmt.Fprintf(os.Stderr, "head: %s\n", err)
+		os.Exit(2)
 	}
-	process(s)
+	os.Exit(process(s))
 }
-- 
2.43.0


From 114dd954b6f1db2f9cd02733619275c5e3d9ad5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:00 +0000
Subject: [PATCH 10/34] fix: kill sends the requested signal to every process
 named, refuses bad command lines, and lists signals

---
 cmd/kill/main.go | 44 +++++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index a186ba1..a116177 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -7,6 +7,7 @@ import (
 	"os"
 	"strconv"
 	"strings"
+	"syscall"
 )
 
 var signalMap = map[string]int{
@@ -29,7 +30,7 @@ func main() {
 
 	listSignals := false
 	signal := 15
-	var pid int
+	var pids []int
 	var err error
 	var ok bool
 	for i := 1; i < len(os.Args); i++ {
@@ -39,39 +40,52 @@ func main() {
 			listSignals = true
 		case "-s":
 			i++
+			if i >= len(os.Args) {
+				errorMsg("-s needs a signal name - check kill -l for help\n")
+			}
 			signalName := strings.ToUpper(os.Args[i])
 			signal, ok = signalMap[signalName]
 			if !ok {
-				errorMsg("%s is not a valid signal name - check kill -l for help\n", a)
+				errorMsg("%s is not a valid signal name - check kill -l for help\n", os.Args[i])
 			}
 		default:
-			if a[0] == '-' {
+			if strings.HasPrefix(a, "-") {
 				signal, err = strconv.Atoi(a[1:])
 				if err != nil {
 					errorMsg("%s isn't a number, bro...", a)
 				}
 			} else {
-				pid, err = strconv.Atoi(a)
+				pid, err := strconv.Atoi(a)
 				if err != nil {
 					errorMsg("expected a PID here..., got %s", a)
 				}
+				pids = append(pids, pid)
 			}
 		}
 	}
 
 	if listSignals {
-
+		for n := 1; n <= 15; n++ {
+			for name, number := range signalMap {
+				if number == n {
+					fmt.Println(name)
+				}
+			}
+		}
+		return
+	}
+	if len(pids) == 0 {
+		errorMsg("expected at least one PID\n")
 	}
-	fmt.Println("sending", signal, "to", pid)
-	process, err := os.FindProcess(pid)
-	if err != nil {
-		errorMsg("couldn't find process with PID of %d: %s\n", pid, err)
+	failed := false
+	for _, pid := range pids {
+		err = syscall.Kill(pid, syscall.Signal(signal))
+		if err != nil {
+			fmt.Fprintf(os.Stderr, "couldn't send signal %d to %d, %s\n", signal, pid, err)
+			failed = true
+		}
 	}
-	//err = process.Signal(syscall.Signal(signal))
-	err = process.Kill()
-	if err != nil {
-		errorMsg("couldn't send signal %d to %d, %s", signal, pid, err)
+	if failed {
+		os.Exit(2)
 	}
-
-	fmt.Println("vim-go")
 }
-- 
2.43.0


From 4aa4676ee63d52752515c30a5d57bfb394569f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:00 +0000
Subject: [PATCH 11/34] fix: locale does not take values for formats, and
 writes LANG without quotes

---
 cmd/locale/main.go   | 2 +-
 pkg/locale/locale.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 23ecf52..95c63dd 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -4,5 +4,5 @@ import "fmt"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Printf(locale.FromEnv().String())
+	fmt.Print(locale.FromEnv().String())
 }
diff --git a/pkg/locale/locale.go b/pkg/locale/locale.go
index 61f1040..a77d099 100644
--- a/pkg/locale/locale.go
+++ b/pkg/locale/locale.go
@@ -38,7 +38,7 @@ func (l Locale) getVal(val string) string {
 
 func (l Locale) String() string {
 	var out strings.Builder
-	out.WriteString(fmt.Sprintf("LANG=\"%s\"\n", l.lang))
+	out.WriteString(fmt.Sprintf("LANG=%s\n", l.lang))
 	settings := []struct{ name, val string }{
 		{"LC_COLLATE", l.collate},
 		{"LC_CTYPE", l.ctype},
-- 
2.43.0


From aa3f1f71dced0afc73d6a0709afbf88e20e95687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:20 +0000
Subject: [PATCH 12/34] fix: ed writes nothing but the answers to commands on
 standard output

---
 pkg/ed/ed.go     | 4 +---
 pkg/ed/ed.peg    | 2 +-
 pkg/ed/ed.peg.go | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index df49cf7..14517e9 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -52,7 +52,6 @@ func (ed *Itor) Write() error {
 	var err error
 
 	tmpName := ed.filename + ".swp"
-	fmt.Printf("f is '%s', tmp is '%s'\n", ed.filename, tmpName)
 
 	stat, err := os.Stat(ed.filename)
 	if err != nil {
@@ -239,13 +238,12 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			p.Execute()
 		}
 		if s.Err() != nil {
-			fmt.Println("Err:", s.Err())
+			debug("Err:", s.Err())
 		}
 		close(cmds)
 	}()
 
 	for cmd := range cmds {
-		fmt.Println("cmd", cmd)
 		// Special-case quit command for now
 		if cmd.typ == ctquit {
 			break // TODO: checking
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 26da4ad..4dadc68 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -64,7 +64,7 @@ shellCmd <- '!' <param> {
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
 
 textTerm <- '\n.'
 
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index 5882678..c244f0f 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -448,7 +448,6 @@ func (p *Parser) Execute() {
 
 		case ruleAction8:
 			p.curCmd.text = buffer[begin:end]
-			fmt.Println("t", p.curCmd.text)
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -2305,7 +2304,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]; fmt.Println("t", p.curCmd.text)}> */
+		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
-- 
2.43.0


From 4f7ac4827353135d7f9a1b36536c3657e37d1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:21 +0000
Subject: [PATCH 13/34] fix: ed answers a line it cannot parse in its turn, and
 Q quits

---
 pkg/ed/command.go | 1 +
 pkg/ed/ed.go      | 8 ++++++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/command.go b/pkg/ed/command.go
index 0df7ebe..3499d27 100644
--- a/pkg/ed/command.go
+++ b/pkg/ed/command.go
@@ -44,4 +44,5 @@ const (
 	ctwrite
 	ctlineNumber
 	ctshell
+	ctinvalid // could not be parsed; text is the answer
 )
diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 14517e9..0204257 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -231,7 +231,8 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			err := p.Parse()
 			if err != nil {
 				//fmt.Println("Err!", err)
-				w.Write([]byte("?" + err.Error() + "\n"))
+				// Answered in its turn, after the commands before it
+				cmds <- Command{typ: ctinvalid, text: "?" + err.Error()}
 				//close(cmds)
 				continue
 			}
@@ -245,7 +246,7 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 
 	for cmd := range cmds {
 		// Special-case quit command for now
-		if cmd.typ == ctquit {
+		if cmd.typ == ctquit || cmd.typ == ctquitForce {
 			break // TODO: checking
 		}
 		result := ed.processCommand(cmd)
@@ -294,6 +295,9 @@ func linesIn(s string) int {
 func (ed *Itor) processCommand(cmd Command) string {
 	var err error
 
+	if cmd.typ == ctinvalid {
+		return cmd.text
+	}
 	cmd = setDefaultAddresses(cmd)
 	switch cmd.typ {
 	case ctedit:
-- 
2.43.0


From ff4f3073327ce0b2a2ffdc76c0c6801cb63fbf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:23 +0000
Subject: [PATCH 14/34] fix: ed keeps carriage returns and empty last lines,
 and starts a new line after an incomplete last one

---
 pkg/ed/ed.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 0204257..58346c3 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -119,7 +119,7 @@ func (ed *Itor) number(start, end int) string {
 func (ed *Itor) String() string {
 	s := ed.pt.String()
 	// POSIX requires a file to end with a newline
-	if s[len(s)-1] != '\n' {
+	if s != "" && s[len(s)-1] != '\n' {
 		s += "\n"
 	}
 	return s
@@ -127,6 +127,10 @@ func (ed *Itor) String() string {
 
 func (ed *Itor) insertBeforeLine(lineNum int, text string) {
 	at := ed.getLineAddr(lineNum)
+	if size := len(ed.pt.String()); at > size {
+		// The last line lacks its newline
+		ed.pt.Insert([]byte("\n"), size)
+	}
 	ed.pt.Insert([]byte(text+"\n"), at)
 }
 
@@ -158,13 +162,7 @@ func (ed *Itor) getLineAddr(num int) int {
 
 func (ed *Itor) getLines() (lines []string) {
 	// Retrieve the piece table's output and tokenize into lines
-	s := bufio.NewScanner(strings.NewReader(ed.pt.String()))
-	for s.Scan() {
-		lines = append(lines, s.Text())
-	}
-	if s.Err() != nil {
-		panic(s.Err())
-	}
+	lines = strings.Split(ed.pt.String(), "\n")
 
 	// If there's an empty line at the end, remove it
 	// This happens when the file ends in a newline character
-- 
2.43.0


From ed35b882abb110f0e33d73b3c6a0d392c4ef905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:25 +0000
Subject: [PATCH 15/34] fix: ed applies address offsets, and answers an address
 that is not in the buffer with ?

---
 pkg/ed/ed.go | 94 +++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 26 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 58346c3..66f1d48 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -180,15 +180,12 @@ func (ed *Itor) regexMatch(re string) (line int, found bool) {
 		debug(err)
 		return -1, false
 	}
-	n := (ed.currentLine % len(lines)) + 1
-	for ; ; n = (n % len(lines)) + 1 {
+	for i := range lines {
+		n := (ed.currentLine+i)%len(lines) + 1
 		debug("n is", n)
 		if regex.Match([]byte(lines[n-1])) {
 			return n, true
 		}
-		if n == ed.currentLine {
-			return -1, false
-		}
 	}
 	return -1, false
 }
@@ -252,32 +249,69 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	}
 }
 
-func (ed *Itor) addrLine(a address) int {
+var offsetRe = regexp.MustCompile(`[+-][0-9]*$`)
+
+// addrLine gives the number of the line, which may be outside of the buffer
+func (ed *Itor) addrLine(a address) (int, error) {
 	var line int
+	a.text = strings.TrimSpace(a.text)
+	if off := offsetRe.FindString(a.text); off != "" {
+		a.text = strings.TrimSuffix(a.text, off)
+		if len(off) == 1 {
+			off += "1"
+		}
+		n, err := strconv.Atoi(off)
+		if err != nil {
+			return 0, err
+		}
+		a.offset = n
+	}
 	switch a.typ {
 	case lCurrent:
 		line = ed.currentLine
 	case lNum:
-		n, _ := strconv.Atoi(a.text)
+		n, err := strconv.Atoi(a.text)
+		if err != nil {
+			return 0, err
+		}
 		line = n
 	case lLast:
 		n := len(ed.getLines())
 		line = n
 	case lRegex:
-		regex := strings.Trim(a.text, "/")
+		regex := a.text[1 : len(a.text)-1]
 		n, found := ed.regexMatch(regex)
 		line = n
 		if !found {
-			debug("oh no we don't have any way to communicate the invalid address")
+			return 0, fmt.Errorf("no line matches %s", a.text)
 		}
 	//case lRegexReverse:
 	//n := ed.regexMatchReverse(a.text)
 	//line = n
 	default:
-		panic("Dunno a bout address")
+		return 0, fmt.Errorf("Dunno a bout address")
 	}
 
-	return line + a.offset
+	return line + a.offset, nil
+}
+
+// addrRange gives the lines of a command, which have to be in the buffer and not before min
+func (ed *Itor) addrRange(cmd Command, min int) (start, end int, err error) {
+	start, err = ed.addrLine(cmd.start)
+	if err != nil {
+		return 0, 0, err
+	}
+	end = start
+	if cmd.end.typ != lNull {
+		end, err = ed.addrLine(cmd.end)
+		if err != nil {
+			return 0, 0, err
+		}
+	}
+	if start < min || end < start || end > len(ed.getLines()) {
+		return 0, 0, fmt.Errorf("invalid address")
+	}
+	return start, end, nil
 }
 
 func linesIn(s string) int {
@@ -297,6 +331,16 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return cmd.text
 	}
 	cmd = setDefaultAddresses(cmd)
+	var start, end int
+	switch cmd.typ {
+	case ctprint, ctnumber, ctnull, ctdelete, ctchange:
+		start, end, err = ed.addrRange(cmd, 1)
+	case ctappend, ctinsert, ctlineNumber:
+		start, end, err = ed.addrRange(cmd, 0)
+	}
+	if err != nil {
+		return "?" + err.Error()
+	}
 	switch cmd.typ {
 	case ctedit:
 		var filename string
@@ -309,14 +353,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
-		return ed.Print(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		return ed.Print(start, end)
 
 	case ctnumber:
-		return ed.number(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		return ed.number(start, end)
 	case ctnull:
-		lineNum := ed.addrLine(cmd.start)
-		ed.currentLine = lineNum
-		return ed.Print(lineNum, lineNum)
+		ed.currentLine = start
+		return ed.Print(start, start)
 
 	case ctwrite:
 		err = ed.Write()
@@ -325,30 +368,29 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctdelete:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		err := ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.currentLine = ed.addrLine(cmd.start)
+		ed.currentLine = start
 
 	case ctappend:
-		start := ed.addrLine(cmd.start) + 1
-		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text)
+		ed.insertBeforeLine(start+1, cmd.text)
+		ed.currentLine = start + 1 + linesIn(cmd.text)
 
 	case ctinsert:
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
 
 	case ctchange:
-		err := ed.Delete(ed.addrLine(cmd.start), ed.addrLine(cmd.end))
+		err := ed.Delete(start, end)
 		if err != nil {
 			return "?" + err.Error()
 		}
-		ed.insertBeforeLine(ed.addrLine(cmd.start), cmd.text)
-		ed.currentLine = ed.addrLine(cmd.start) + linesIn(cmd.text)
+		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctlineNumber:
-		return strconv.Itoa(ed.addrLine(cmd.start))
+		return strconv.Itoa(start)
 
 	default:
 		return "? (NYI)"
-- 
2.43.0


From 2c0238172ec50081680a4fe6e91d67a2c4ecdafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:18 +0000
Subject: [PATCH 16/34] fix: ed sets the current line as the commands require

---
 pkg/ed/ed.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 66f1d48..1d989f8 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -353,9 +353,11 @@ func (ed *Itor) processCommand(cmd Command) string {
 		}
 
 	case ctprint:
+		ed.currentLine = end
 		return ed.Print(start, end)
 
 	case ctnumber:
+		ed.currentLine = end
 		return ed.number(start, end)
 	case ctnull:
 		ed.currentLine = start
@@ -373,13 +375,20 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.currentLine = start
+		if n := len(ed.getLines()); start > n {
+			ed.currentLine = n
+		}
 
 	case ctappend:
 		ed.insertBeforeLine(start+1, cmd.text)
-		ed.currentLine = start + 1 + linesIn(cmd.text)
+		ed.currentLine = start + linesIn(cmd.text)
 
 	case ctinsert:
+		if start == 0 {
+			start = 1
+		}
 		ed.insertBeforeLine(start, cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctchange:
 		err := ed.Delete(start, end)
@@ -387,7 +396,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 			return "?" + err.Error()
 		}
 		ed.insertBeforeLine(start, cmd.text)
-		ed.currentLine = start + linesIn(cmd.text)
+		ed.currentLine = start + linesIn(cmd.text) - 1
 
 	case ctlineNumber:
 		return strconv.Itoa(start)
-- 
2.43.0


From ed9767275c190ddcbd893bad3e08c3770f6d4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:19 +0000
Subject: [PATCH 17/34] fix: ed writes the named file and lines, and keeps the
 buffer and other files when a write fails

---
 pkg/ed/ed.go | 62 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index 1d989f8..d21373f 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -5,7 +5,6 @@ import (
 	"bytes"
 	"fmt"
 	"io"
-	"io/ioutil"
 	"os"
 	"regexp"
 	"strconv"
@@ -40,39 +39,42 @@ func (ed *Itor) unsaved() bool {
 	return false
 }
 
-func (ed *Itor) closeFile() error {
-	ed.pt.Close()
-	return nil
-}
-
+// Write saves the buffer to its file
 func (ed *Itor) Write() error {
-	data := ed.pt.String()
-	ed.closeFile()
-
-	var err error
-
-	tmpName := ed.filename + ".swp"
+	return write(ed.filename, ed.pt.String())
+}
 
-	stat, err := os.Stat(ed.filename)
-	if err != nil {
-		debug("cannae stat", ed.filename)
+// write replaces a file, which keeps its old content until the new one is complete
+func write(filename, data string) error {
+	mode := os.FileMode(0666)
+	stat, err := os.Stat(filename)
+	if err == nil {
+		mode = stat.Mode()
+	} else if filename == "" || !os.IsNotExist(err) {
+		debug("cannae stat", filename)
 		return err
 	}
-	mode := stat.Mode()
-	//defer os.Remove(tmp.Name())
 
-	err = ioutil.WriteFile(tmpName, []byte(data), os.FileMode(mode))
+	tmpName := filename + ".swp"
+	tmp, err := os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
+	for os.IsExist(err) {
+		tmpName += "p" // that one belongs to somebody else
+		tmp, err = os.OpenFile(tmpName, os.O_WRONLY|os.O_CREATE|os.O_EXCL, mode)
+	}
 	if err != nil {
-		os.Remove(tmpName)
 		return err
 	}
-	err = os.Rename(tmpName, ed.filename)
+	_, err = tmp.Write([]byte(data))
+	if closeErr := tmp.Close(); err == nil {
+		err = closeErr
+	}
+	if err == nil {
+		err = os.Rename(tmpName, filename)
+	}
 	if err != nil {
 		os.Remove(tmpName)
-		return err
 	}
-
-	return ed.Edit(ed.filename, false)
+	return err
 }
 
 // Edit opens a new file to edit!
@@ -330,6 +332,7 @@ func (ed *Itor) processCommand(cmd Command) string {
 	if cmd.typ == ctinvalid {
 		return cmd.text
 	}
+	whole := cmd.start.typ == lNull
 	cmd = setDefaultAddresses(cmd)
 	var start, end int
 	switch cmd.typ {
@@ -337,6 +340,10 @@ func (ed *Itor) processCommand(cmd Command) string {
 		start, end, err = ed.addrRange(cmd, 1)
 	case ctappend, ctinsert, ctlineNumber:
 		start, end, err = ed.addrRange(cmd, 0)
+	case ctwrite:
+		if !whole {
+			start, end, err = ed.addrRange(cmd, 1)
+		}
 	}
 	if err != nil {
 		return "?" + err.Error()
@@ -364,7 +371,14 @@ func (ed *Itor) processCommand(cmd Command) string {
 		return ed.Print(start, start)
 
 	case ctwrite:
-		err = ed.Write()
+		filename, data := cmd.text, ed.pt.String()
+		if filename == "" {
+			filename = ed.filename
+		}
+		if !whole {
+			data = ed.Print(start, end) + "\n"
+		}
+		err = write(filename, data)
 		if err != nil {
 			return "?" + err.Error()
 		}
-- 
2.43.0


From 4431f1c96683c59043eab5828668b6e0c1335563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:35 +0000
Subject: [PATCH 18/34] fix: ed ends text only at a line that is a dot, and
 takes any character and address there

---
 pkg/ed/ed.go     | 26 +++++++++++++++-----------
 pkg/ed/ed.peg    | 18 +++++++++---------
 pkg/ed/ed.peg.go | 41 ++++++++++++++++++++++++-----------------
 3 files changed, 48 insertions(+), 37 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index d21373f..e166887 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -13,8 +13,9 @@ import (
 	"github.com/fwip/posix-utils/pkg/txt"
 )
 
-// TODO: This is not comprehensive.
-var multlineCmdStart = regexp.MustCompile(`^\s*[0-9.$]*\s*,?\s*[0-9.$]*\s*[aic]\s*$`)
+const addrPattern = `([0-9]+|[.$]|'[a-z]|/(\\/|[^/])+/|[?](\\[?]|[^?])+[?])([+-][0-9]*)?`
+
+var multlineCmdStart = regexp.MustCompile(`^\s*(` + addrPattern + `)?\s*[,;]?\s*(` + addrPattern + `)?\s*[aic]\s*$`)
 
 func debug(args ...interface{}) {
 	fmt.Fprintln(os.Stderr, args...)
@@ -208,15 +209,21 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 	cmds := make(chan Command)
 
 	go func() {
-		s := bufio.NewScanner(r)
-		for s.Scan() {
-			cmd := s.Text()
+		in := bufio.NewReader(r)
+		readLine := func() (line string, ok bool) {
+			line, err := in.ReadString('\n')
+			if err != nil && err != io.EOF {
+				debug("Err:", err)
+			}
+			return strings.TrimSuffix(line, "\n"), err == nil || line != ""
+		}
+		for cmd, ok := readLine(); ok; cmd, ok = readLine() {
 
 			// Handle multi-line commands
 			if multlineCmdStart.Match([]byte(cmd)) {
-				for s.Scan() {
-					cmd += "\n" + s.Text()
-					if s.Text() == "." {
+				for text, ok := readLine(); ok; text, ok = readLine() {
+					cmd += "\n" + text
+					if text == "." {
 						break
 					}
 				}
@@ -235,9 +242,6 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			}
 			p.Execute()
 		}
-		if s.Err() != nil {
-			debug("Err:", s.Err())
-		}
 		close(cmds)
 	}()
 
diff --git a/pkg/ed/ed.peg b/pkg/ed/ed.peg
index 4dadc68..68a100f 100644
--- a/pkg/ed/ed.peg
+++ b/pkg/ed/ed.peg
@@ -38,19 +38,19 @@ addTextCmd <- startAddr? addTextC newLine text
 
 markCmd <- startAddr? 'k' <[a-z]> {
   p.curCmd.typ = ctmark
-  p.curCmd.params = []string{buffer[begin:end]}
+  p.curCmd.params = []string{text}
 }
 
 destCmd <- range? destC <addrO> {p.curCmd.dest = p.curAddr ; p.curAddr = address{}}
 
 readCmd <- startAddr? 'r' sp <param> {
   p.curCmd.typ = ctread
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 writeCmd <- range? 'w' sp <param> {
   p.curCmd.typ = ctwrite
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
           / range? 'w' {
   p.curCmd.typ = ctwrite
@@ -58,15 +58,15 @@ writeCmd <- range? 'w' sp <param> {
 
 shellCmd <- '!' <param> {
   p.curCmd.typ = ctshell
-  p.curCmd.text = buffer[begin:end]
+  p.curCmd.text = text
 }
 
 # A null command works as a print
 nullCmd <- startAddr?
 
-text <- <(!textTerm .)*> textTerm {p.curCmd.text = buffer[begin:end]}
+text <- <(!textTerm .)*> textTerm {p.curCmd.text = text}
 
-textTerm <- '\n.'
+textTerm <- '\n.' &newLine
 
 rangeCmd <- range? sp* rangeC
 
@@ -81,14 +81,14 @@ range <- startAddr ',' endAddr
        / sp* ';' sp*           {p.curCmd.start = aCur; p.curCmd.end = aLast}
 
 
-addrCmd <- <startAddr> addrC {p.curCmd.start.text = buffer[begin:end]}
+addrCmd <- <startAddr> addrC {p.curCmd.start.text = text}
          / addrC
 
 # Addresses
 startAddr <- sp* addrO sp* {p.curCmd.start = p.curAddr; p.curAddr = address{}}
 endAddr <- sp* addrO sp* {p.curCmd.end = p.curAddr; p.curAddr = address{}}
 
-addrO <- <addr offset?>  {p.curAddr.text = buffer[begin:end]}
+addrO <- <addr offset?>  {p.curAddr.text = text}
 
 addr <- literalAddr
       / markAddr
@@ -120,7 +120,7 @@ bareCmd <- 'h' {p.curCmd.typ = cthelp}
 
 offset <- ('+'/'-') [0-9]*
 
-paramCmd <- paramC sp <param> { p.curCmd.params = []string{buffer[begin:end]}}
+paramCmd <- paramC sp <param> { p.curCmd.params = []string{text}}
           / paramC
 
 paramC <- 'e' {p.curCmd.typ = ctedit}
diff --git a/pkg/ed/ed.peg.go b/pkg/ed/ed.peg.go
index c244f0f..c973486 100644
--- a/pkg/ed/ed.peg.go
+++ b/pkg/ed/ed.peg.go
@@ -422,7 +422,7 @@ func (p *Parser) Execute() {
 		case ruleAction2:
 
 			p.curCmd.typ = ctmark
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 
 		case ruleAction3:
 			p.curCmd.dest = p.curAddr
@@ -430,12 +430,12 @@ func (p *Parser) Execute() {
 		case ruleAction4:
 
 			p.curCmd.typ = ctread
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction5:
 
 			p.curCmd.typ = ctwrite
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction6:
 
@@ -444,10 +444,10 @@ func (p *Parser) Execute() {
 		case ruleAction7:
 
 			p.curCmd.typ = ctshell
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 
 		case ruleAction8:
-			p.curCmd.text = buffer[begin:end]
+			p.curCmd.text = text
 		case ruleAction9:
 			p.curCmd.end = p.curCmd.start
 		case ruleAction10:
@@ -465,7 +465,7 @@ func (p *Parser) Execute() {
 			p.curCmd.start = aCur
 			p.curCmd.end = aLast
 		case ruleAction16:
-			p.curCmd.start.text = buffer[begin:end]
+			p.curCmd.start.text = text
 		case ruleAction17:
 			p.curCmd.start = p.curAddr
 			p.curAddr = address{}
@@ -473,7 +473,7 @@ func (p *Parser) Execute() {
 			p.curCmd.end = p.curAddr
 			p.curAddr = address{}
 		case ruleAction19:
-			p.curAddr.text = buffer[begin:end]
+			p.curAddr.text = text
 		case ruleAction20:
 			p.curAddr.typ = lCurrent
 		case ruleAction21:
@@ -499,7 +499,7 @@ func (p *Parser) Execute() {
 		case ruleAction31:
 			p.curCmd.typ = ctundo
 		case ruleAction32:
-			p.curCmd.params = []string{buffer[begin:end]}
+			p.curCmd.params = []string{text}
 		case ruleAction33:
 			p.curCmd.typ = ctedit
 		case ruleAction34:
@@ -1083,7 +1083,7 @@ func (p *Parser) Init() {
 			position, tokenIndex = position64, tokenIndex64
 			return false
 		},
-		/* 12 textTerm <- <('\n' '.')> */
+		/* 12 textTerm <- <('\n' '.' &newLine)> */
 		func() bool {
 			position70, tokenIndex70 := position, tokenIndex
 			{
@@ -1096,6 +1096,13 @@ func (p *Parser) Init() {
 					goto l70
 				}
 				position++
+				{
+					position72, tokenIndex72 := position, tokenIndex
+					if !_rules[rulenewLine]() {
+						goto l70
+					}
+					position, tokenIndex = position72, tokenIndex72
+				}
 				add(ruletextTerm, position71)
 			}
 			return true
@@ -2250,7 +2257,7 @@ func (p *Parser) Init() {
 		nil,
 		/* 42 Action2 <- <{
 		  p.curCmd.typ = ctmark
-		  p.curCmd.params = []string{buffer[begin:end]}
+		  p.curCmd.params = []string{text}
 		}> */
 		func() bool {
 			{
@@ -2267,7 +2274,7 @@ func (p *Parser) Init() {
 		},
 		/* 44 Action4 <- <{
 		  p.curCmd.typ = ctread
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2277,7 +2284,7 @@ func (p *Parser) Init() {
 		},
 		/* 45 Action5 <- <{
 		  p.curCmd.typ = ctwrite
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2296,7 +2303,7 @@ func (p *Parser) Init() {
 		},
 		/* 47 Action7 <- <{
 		  p.curCmd.typ = ctshell
-		  p.curCmd.text = buffer[begin:end]
+		  p.curCmd.text = text
 		}> */
 		func() bool {
 			{
@@ -2304,7 +2311,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 48 Action8 <- <{p.curCmd.text = buffer[begin:end]}> */
+		/* 48 Action8 <- <{p.curCmd.text = text}> */
 		func() bool {
 			{
 				add(ruleAction8, position)
@@ -2360,7 +2367,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 56 Action16 <- <{p.curCmd.start.text = buffer[begin:end]}> */
+		/* 56 Action16 <- <{p.curCmd.start.text = text}> */
 		func() bool {
 			{
 				add(ruleAction16, position)
@@ -2381,7 +2388,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 59 Action19 <- <{p.curAddr.text = buffer[begin:end]}> */
+		/* 59 Action19 <- <{p.curAddr.text = text}> */
 		func() bool {
 			{
 				add(ruleAction19, position)
@@ -2472,7 +2479,7 @@ func (p *Parser) Init() {
 			}
 			return true
 		},
-		/* 72 Action32 <- <{ p.curCmd.params = []string{buffer[begin:end]}}> */
+		/* 72 Action32 <- <{ p.curCmd.params = []string{text}}> */
 		func() bool {
 			{
 				add(ruleAction32, position)
-- 
2.43.0


From d7e2932ac2e7177c67f2169ffdf160adc388b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:51 +0000
Subject: [PATCH 19/34] fix: an era whose offset is no number is an error

---
 pkg/locale/time.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/time.go b/pkg/locale/time.go
index ffeb1c7..701e57e 100644
--- a/pkg/locale/time.go
+++ b/pkg/locale/time.go
@@ -65,7 +65,7 @@ func NewEra(input string) (Era, error) {
 	// Offset
 	offset, err := strconv.Atoi(parts[1])
 	if err != nil {
-		return Era{}, nil
+		return Era{}, err
 	}
 	era.offset = offset
 
-- 
2.43.0


From cad91be971c38f428e976db29665dff10f8b678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:53 +0000
Subject: [PATCH 20/34] fix: a definition with comment_char is not ignored as a
 whole

---
 pkg/locale/localelex.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index 45bedc3..b5761fc 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -512,8 +512,7 @@ func removeComments(input string) string {
 			continue
 		}
 		// Check for escape/comment_char redefinition
-		checkSpecialWord(l, "comment_char", &commentChar)
-		if !checkSpecialWord(l, "escape_char", &escapeChar) {
+		if !checkSpecialWord(l, "comment_char", &commentChar) && !checkSpecialWord(l, "escape_char", &escapeChar) {
 
 			// Join newlines if they end with escape character
 			for len(l) > 0 {
-- 
2.43.0


From 0a43dd103fc0297fddb173c882fec39941c163bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:50 +0000
Subject: [PATCH 21/34] fix: ed reads the file when it is opened, not when its
 text is needed

A read that failed, or a file that had become shorter, made ed panic in the middle of the
session and the edits were lost.
---
 pkg/ed/ed.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index e166887..cbfb2c8 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"regexp"
 	"strconv"
@@ -89,15 +90,17 @@ func (ed *Itor) Edit(filename string, force bool) error {
 		debug("cannae open", err)
 		return err
 	}
-	stat, err := f.Stat()
+	defer f.Close()
+	// Read it now: later it may have changed, or reading may fail when it is too late to say so
+	text, err := ioutil.ReadAll(f)
 	if err != nil {
-		debug("cannae stat", err)
+		debug("cannae read", err)
 		return err
 	}
 
 	debug("setting filename")
 	ed.filename = filename
-	ed.pt = txt.NewPieceTable(f, int(stat.Size()))
+	ed.pt = txt.NewPieceTable(bytes.NewReader(text), len(text))
 	ed.currentLine = len(ed.getLines())
 
 	return nil
-- 
2.43.0


From 5e555697aa12c5c6028a4722b23c6ba8ea8b6917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:30 +0000
Subject: [PATCH 22/34] fix: the argument attached to an option letter of
 several bytes is kept whole

---
 pkg/flag/parse.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/flag/parse.go b/pkg/flag/parse.go
index 6c783e0..2de77e4 100644
--- a/pkg/flag/parse.go
+++ b/pkg/flag/parse.go
@@ -3,6 +3,7 @@ package flag
 import (
 	"fmt"
 	"os"
+	"unicode/utf8"
 )
 
 // Parser does the hard work of assigning parses
@@ -43,7 +44,8 @@ func (p *Parser) Parse() (positionalArgs []string, err error) {
 			}
 
 			// Argument may be either bundled or separate
-			value := arg[j+2:]
+			_, size := utf8.DecodeRuneInString(arg[1+j:])
+			value := arg[1+j+size:]
 			if len(value) == 0 {
 				i++
 				if i >= len(p.Input) {
-- 
2.43.0


From 64849351d72feb7355d16e833f3402fab8e051ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:19 +0000
Subject: [PATCH 23/34] fix: a reader that tells the end along with the last
 bytes is no error

---
 pkg/txt/piece_table.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/txt/piece_table.go b/pkg/txt/piece_table.go
index 640f1c6..5ea2e5e 100644
--- a/pkg/txt/piece_table.go
+++ b/pkg/txt/piece_table.go
@@ -62,10 +62,10 @@ func (p piece) Read(bytes []byte) (int, error) {
 	n := 0
 	for n < p.length {
 		i, err := p.reader.ReadAt(bytes[n:p.length], p.offset+int64(n))
-		if err != nil {
+		n += i
+		if err != nil && (err != io.EOF || n < p.length) {
 			return 0, err
 		}
-		n += i
 	}
 	if n != p.length {
 		return 0, fmt.Errorf("Meant to read %d bytes, read %d instead", p.length, n)
-- 
2.43.0


From c64cf68154618827a66b177980bc465a3570b5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:53 +0000
Subject: [PATCH 24/34] fix: ed answers a failing e with '?', and e alone reads
 the file again

---
 pkg/ed/ed.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index cbfb2c8..dc46e0f 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -357,13 +357,13 @@ func (ed *Itor) processCommand(cmd Command) string {
 	}
 	switch cmd.typ {
 	case ctedit:
-		var filename string
+		filename := ed.filename
 		if len(cmd.params) > 0 {
 			filename = cmd.params[0]
 		}
 		err = ed.Edit(filename, false)
 		if err != nil {
-			return err.Error()
+			return "?" + err.Error()
 		}
 
 	case ctprint:
-- 
2.43.0


From d98b3758dc10d54a5ea67de09212771c12cd2197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:35 +0000
Subject: [PATCH 25/34] fix: LC_NUMERIC grouping takes a list of numbers, like
 mon_grouping

---
 pkg/locale/localelex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/locale/localelex.go b/pkg/locale/localelex.go
index b5761fc..f7291b4 100644
--- a/pkg/locale/localelex.go
+++ b/pkg/locale/localelex.go
@@ -65,7 +65,7 @@ var timeMap = map[string]decode{
 var numericMap = map[string]decode{
 	"decimal_point": {DECIMAL_POINT_STR, grabString},
 	"thousands_sep": {THOUSANDS_SEP_STR, grabString},
-	"grouping":      {GROUPING_STR, grabInt},
+	"grouping":      {GROUPING_STR, grabIntList},
 }
 
 // Monetary mappings
-- 
2.43.0


From bfa4d9960b2926d0c3b3f5a4cd3f0e70b3cd24b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:32 +0000
Subject: [PATCH 26/34] fix: cksum does not claim success when its output
 cannot be written

---
 cmd/cksum/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/cksum/main.go b/cmd/cksum/main.go
index 6514941..9ae07df 100644
--- a/cmd/cksum/main.go
+++ b/cmd/cksum/main.go
@@ -26,7 +26,10 @@ func run(filename string, label string) {
 		die("couldn't read input %s", err)
 	}
 
-	fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
+	_, err = fmt.Printf("%d %d%s\n", memcrc(bytes), len(bytes), label)
+	if err != nil {
+		die("couldn't write output %s", err)
+	}
 }
 
 func main() {
-- 
2.43.0


From 7cbca331c504be6675669d15eba1efc54f8f1d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:32 +0000
Subject: [PATCH 27/34] fix: cmp does not claim success when its output cannot
 be written

---
 cmd/cmp/main.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmd/cmp/main.go b/cmd/cmp/main.go
index 80cd41b..be014f1 100644
--- a/cmd/cmp/main.go
+++ b/cmd/cmp/main.go
@@ -70,9 +70,12 @@ func cmp(s settings) error {
 			if b1 != b2 {
 				if !s.silent {
 					if s.writeAll {
-						fmt.Printf("%d %o %o\n", i, b1, b2)
+						_, err = fmt.Printf("%d %o %o\n", i, b1, b2)
 					} else {
-						fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+						_, err = fmt.Printf("%s %s differ: char %d, line %d\n", s.file1, s.file2, i, l)
+					}
+					if err != nil {
+						return fmt.Errorf("could not write output: %s", err)
 					}
 				}
 				status = 1
-- 
2.43.0


From 197b281f73e386d0f2d319b458d20f4eef7b31a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:32 +0000
Subject: [PATCH 28/34] fix: diff does not claim success when its output cannot
 be written

---
 cmd/diff/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/diff/main.go b/cmd/diff/main.go
index c4a67b6..e28fe01 100644
--- a/cmd/diff/main.go
+++ b/cmd/diff/main.go
@@ -131,7 +131,10 @@ func main() {
 	changes := diff.Diff(l1, l2)
 
 	if out := diff.Format(changes); out != "" {
-		fmt.Println(out)
+		if _, err := fmt.Println(out); err != nil {
+			fmt.Fprintf(os.Stderr, "Oh heck an error: %s\n", err)
+			os.Exit(2)
+		}
 		os.Exit(1)
 	}
 }
-- 
2.43.0


From 5f530a9f1ae9fea603d34a44daee9a621e1ae378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:32 +0000
Subject: [PATCH 29/34] fix: head does not claim success when its output cannot
 be written

---
 cmd/head/main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmd/head/main.go b/cmd/head/main.go
index 55e63a5..1c7d06a 100644
--- a/cmd/head/main.go
+++ b/cmd/head/main.go
@@ -42,14 +42,22 @@ func parseSettings(args []string) (settings, error) {
 	return s, nil
 }
 
+// output writes results; when that fails there is nothing left to do.
+func output(text string) {
+	if _, err := fmt.Print(text); err != nil {
+		fmt.Fprintf(os.Stderr, "head: %s\n", err)
+		os.Exit(1)
+	}
+}
+
 func process(s settings) (status int) {
 
 	for i, filename := range s.filenames {
 		if len(s.filenames) > 1 {
 			if i > 0 {
-				fmt.Print("\n")
+				output("\n")
 			}
-			fmt.Printf("==> %s <==\n", filename)
+			output(fmt.Sprintf("==> %s <==\n", filename))
 		}
 		var f io.ReadCloser
 		var err error
@@ -68,7 +76,7 @@ func process(s settings) (status int) {
 		lines := bufio.NewReader(f)
 		for j := 0; j < s.numLines; j++ {
 			line, err := lines.ReadString('\n')
-			fmt.Print(line)
+			output(line)
 			if err == io.EOF {
 				break
 			}
-- 
2.43.0


From 2b3ea2b9fc01a324d6c0d008c0976d91e3204437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:32 +0000
Subject: [PATCH 30/34] fix: kill does not claim success when its output cannot
 be written

---
 cmd/kill/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmd/kill/main.go b/cmd/kill/main.go
index a116177..022a21f 100644
--- a/cmd/kill/main.go
+++ b/cmd/kill/main.go
@@ -68,7 +68,9 @@ func main() {
 		for n := 1; n <= 15; n++ {
 			for name, number := range signalMap {
 				if number == n {
-					fmt.Println(name)
+					if _, err := fmt.Println(name); err != nil {
+						errorMsg("couldn't write the list: %s\n", err)
+					}
 				}
 			}
 		}
-- 
2.43.0


From ad9851533c108caaaf8501bc259b9cc1f8fc9b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:32 +0000
Subject: [PATCH 31/34] fix: locale does not claim success when its output
 cannot be written

---
 cmd/locale/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/locale/main.go b/cmd/locale/main.go
index 95c63dd..3b5b112 100644
--- a/cmd/locale/main.go
+++ b/cmd/locale/main.go
@@ -1,8 +1,12 @@
 package main
 
 import "fmt"
+import "os"
 import "github.com/fwip/posix-utils/pkg/locale"
 
 func main() {
-	fmt.Print(locale.FromEnv().String())
+	if _, err := fmt.Print(locale.FromEnv().String()); err != nil {
+		fmt.Fprintf(os.Stderr, "locale: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 08a08945d46d43bac825d1f66f768f0ba167ea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:33 +0000
Subject: [PATCH 32/34] fix: tsort does not claim success when its output
 cannot be written

---
 cmd/tsort/main.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index a131ccb..8c2b717 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -41,11 +41,15 @@ func run(input io.Reader, output io.Writer) {
 		die("sort error! %s", err)
 	}
 	for _, item := range out {
-		fmt.Fprintln(output, item)
+		if _, err := fmt.Fprintln(output, item); err != nil {
+			die("write error! %s", err)
+		}
 	}
 
 	if closer, ok := output.(io.Closer); ok {
-		closer.Close()
+		if err := closer.Close(); err != nil {
+			die("write error! %s", err)
+		}
 	}
 
 }
-- 
2.43.0


From e7b9700148594354db8883354944c6f6c0b19b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:26 +0000
Subject: [PATCH 33/34] fix: tsort takes words of any length

---
 cmd/tsort/main.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmd/tsort/main.go b/cmd/tsort/main.go
index 8c2b717..b75783b 100644
--- a/cmd/tsort/main.go
+++ b/cmd/tsort/main.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"github.com/fwip/posix-utils/pkg/tsort"
@@ -18,6 +19,7 @@ func run(input io.Reader, output io.Writer) {
 	var sorter tsort.Sorter
 	scanner := bufio.NewScanner(input)
 	scanner.Split(bufio.ScanWords)
+	scanner.Buffer(nil, math.MaxInt32) // words may be long
 
 	for scanner.Scan() {
 		w1 := scanner.Text()
-- 
2.43.0


From 01a7f42a1eebd0f43fb1cfa73fdfb765aa7d5583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:48 +0000
Subject: [PATCH 34/34] fix: ed keeps typed bytes that are not UTF-8

---
 pkg/ed/ed.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/pkg/ed/ed.go b/pkg/ed/ed.go
index dc46e0f..a44f29f 100644
--- a/pkg/ed/ed.go
+++ b/pkg/ed/ed.go
@@ -233,7 +233,7 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 			}
 
 			debug("line", cmd)
-			p := &Parser{Buffer: cmd + "\n", Out: chan<- Command(cmds)}
+			p := &Parser{Buffer: widen(cmd + "\n"), Out: chan<- Command(cmds)}
 			p.Init()
 			err := p.Parse()
 			if err != nil {
@@ -253,11 +253,42 @@ func (ed *Itor) ProcessCommands(r io.Reader, w io.Writer) {
 		if cmd.typ == ctquit || cmd.typ == ctquitForce {
 			break // TODO: checking
 		}
-		result := ed.processCommand(cmd)
+		result := ed.processCommand(narrowed(cmd))
 		w.Write([]byte(result + "\n"))
 	}
 }
 
+// The parser works on characters and would lose bytes that are not UTF-8.
+// widen turns every byte into a character of its own for it.
+func widen(s string) string {
+	chars := make([]rune, len(s))
+	for i := range chars {
+		chars[i] = rune(s[i])
+	}
+	return string(chars)
+}
+
+// narrow undoes widen
+func narrow(s string) string {
+	bytes := make([]byte, 0, len(s))
+	for _, r := range s {
+		bytes = append(bytes, byte(r))
+	}
+	return string(bytes)
+}
+
+// narrowed is a command as it was typed
+func narrowed(cmd Command) Command {
+	cmd.text = narrow(cmd.text)
+	cmd.start.text = narrow(cmd.start.text)
+	cmd.end.text = narrow(cmd.end.text)
+	cmd.dest.text = narrow(cmd.dest.text)
+	for i := range cmd.params {
+		cmd.params[i] = narrow(cmd.params[i])
+	}
+	return cmd
+}
+
 var offsetRe = regexp.MustCompile(`[+-][0-9]*$`)
 
 // addrLine gives the number of the line, which may be outside of the buffer
-- 
2.43.0

