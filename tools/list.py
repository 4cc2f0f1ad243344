I, H, C, F, S = "inputs", "histories", "configurations", "fault_sequences", "schedules"
X = "crash_points"

p("C01", "Editing through the piece table equals editing plain text",
  "After any sequence of insertions and deletions at any positions in the text, the text of a piece table is exactly what the same edits make of a plain string: no text is lost, repeated or moved. A deletion that reaches past the end removes everything up to the end, one that starts past it removes nothing.",
  [I, H], "every original text and every sequence of insertions and deletions, of any bytes, at any position",
  "The tests sample a few edit sequences with fixed texts; how pieces are split and merged depends on the whole history of edits.",
  ["pkg/txt/piece_table.go"], "text is a chain of pieces of two buffers, split at edit positions",
  "original of 0..2 bytes (thorough 3) and four edits, insertions of 0..1 arbitrary bytes (thorough 2), any position and length; a zero table and five edits; originals up to 4097 bytes with three edits of up to 5000 bytes at five places, one of 70000 with three edits of up to 66000; three edits between two looks at the text")

p("C02", "Applying diff's output to one file yields the other",
  "The default output of diff is a well formed list of changes with right line numbers: applied to the first file it gives the second, and reversed, applied to the second, it gives the first. It is empty exactly when the files have the same lines.",
  [I], "every pair of text files",
  "Tests cannot enumerate pairs of files; line numbers, ranges and the order of changes must fit together for every pattern of equal and different lines.",
  ["pkg/diff/diff.go", "pkg/diff/output.go", "cmd/diff/main.go"], "longest common subsequence walk produces changes, the formatter turns them into hunks with line numbers",
  "library: all patterns of equal lines in files of 0..4 lines (thorough 5), behind 8..1100 common lines, 9..11, 99 or 1100 new lines against 0..2; command: files of 0..3 bytes (thorough 4) over newline, CR, NUL, space, '<', a, b, and lines of up to 65538 bytes; two or three changed parts of 0..4 lines")

p("C03", "diff's exit status separates equal, different and trouble",
  "diff exits 0 silently when the files have the same lines, and 1 with the differences on standard output when they do not, for files and for standard input given as '-'. When an operand cannot be opened or read, or the command line is wrong, it exits with more than 1, a diagnostic on standard error and no differences on standard output.",
  [I, F, C], "every pair of files, every command line, and every failure to open or read",
  "No test runs the command; failures of reads in the middle of a file cannot be caused by a test at all.",
  ["cmd/diff/main.go"], "the command reads both files completely before comparing, and turns the outcome into its status",
  "text files of 0..3 bytes (thorough 4); any one of the first 8 opens and reads fails; command lines of 0..3 words and up to two options; files of up to 5 lines of which a later read fails")

p("C04", "diff reports only lines that differ, in separate changes",
  "A change in diff's output never removes and adds back the same line, and two changes always have an unchanged line between them. Lines common to both files before and after the differences are not reported.",
  [I], "every pair of text files",
  "Minimality of changes is a relation between input and output over all pairs of files; the tests only compare fixed outputs.",
  ["pkg/diff/diff.go", "pkg/diff/output.go"], "common lines are matched before changes are formed",
  "all patterns of equal lines in files of 0..4 lines (thorough 5); 1..2 arbitrary lines between up to 1100 common ones; 24 line files with three arbitrary lines; files of 3, 20 or 70 lines of their own with two arbitrary ones each")

p("C05", "Topological sort respects every constraint or reports a cycle",
  "For any constraints added in any order, the sorted result lists every word exactly once and puts every word before those it must precede. When the constraints contain a cycle the result is an error and no order.",
  [I, H], "every sequence of constraints, and every iteration order of the maps used inside",
  "The result depends on the iteration order of maps, which differs from run to run, and on all graphs of constraints.",
  ["pkg/tsort/tsort.go"], "nodes without predecessors are taken out of a map of constraints until none is left",
  "1..3 calls (thorough 4) of one or two of six words, two chains of 0..3 and 0..2 words in any map iteration order; three chains in insertion order; words that begin alike, are empty or hold blanks; chains of up to 300 words, up to 60 words around one; 15 or 60 words before or behind others, pairs given twice, no word at all")

p("C06", "The tsort command orders its input or fails cleanly",
  "Given pairs of words separated by blanks and newlines in a file or on standard input, tsort writes every word once, one per line, in an order that respects every pair, and exits 0. An odd number of words, a cycle, or input that cannot be opened or read gives a diagnostic and a status above 0.",
  [I, F], "every input text, however it is split into reads, and every failing open or read",
  "No test runs the command, and none can make a read fail.",
  ["cmd/tsort/main.go", "pkg/tsort/tsort.go"], "words are scanned in pairs and given to the sorting library",
  "input of 0..7 bytes (thorough 8) over a, b, A, space, tab, newline; 1..3 pairs of four words in any map order; six bytes in up to three reads of which one fails; words of up to 65537 bytes; chains of up to 1000 words")

p("C07", "Option parsing gives every option and operand its meaning",
  "On every proper command line, options may be bundled, option arguments may be attached or follow, the last value of an option counts, '--' or the first operand ends the options, and what remains is returned as operands in order. Options not given keep their values.",
  [I, C], "every command line over a set of registered options",
  "Words interact: whether a word is an option, an argument or an operand depends on all earlier ones; the tests try about ten lines.",
  ["pkg/flag/parse.go", "pkg/flag/flag.go"], "one pass over the words and over the letters of each bundle",
  "0..3 words (thorough 4) of 0..3 bytes over nine characters, bundles of 1..6 letters with 0..2 further words, numbers up to the limits of 64 bits, five words of kinds")

p("C08", "Option parsing refuses bad command lines without crashing",
  "An unknown option, an option that lacks its argument and a number option whose argument is not a 64-bit integer give an error and no operands. No command line, of any bytes, makes the parser crash, and no proper line is refused.",
  [I], "every command line, including ill-formed text",
  "Absence of crashes and of wrong acceptance is a statement about all inputs.",
  ["pkg/flag/parse.go", "pkg/flag/flag.go"], "checks at the end of the words and of each bundle",
  "0..2 words (thorough 3) of 0..3 bytes over eight characters, number arguments of 0..3 printable bytes also behind 17 digits, words of 0..3 arbitrary bytes")

p("C09", "Basic regular expressions match exactly what they describe",
  "A compiled pattern of ordinary characters, periods, bracket lists, '*' and interval counts, with or without '^' and '$', matches a text exactly when some part of the text (at the start or end where anchored) is what the pattern describes.",
  [I], "every pattern of these elements and every text",
  "Matching is a relation over all pairs of patterns and texts; backtracking errors show only for certain combinations of counts and texts.",
  ["pkg/regexes/bre.go", "pkg/regexes/bre_evaluate.go"], "the pattern becomes an automaton that is run from every position",
  "two elements with all kinds of counts of 0..4 or three with none or '*', anchors, texts of 0..3 letters (thorough 4) of three; counts up to 256; bracket lists of 1..4 special characters; any ASCII; characters of 1..4 bytes, newlines and bytes that are no character; texts of up to 300 letters; two texts after one another")

p("C10", "Malformed patterns are refused, well-formed ones accepted",
  "A pattern with an unterminated bracket list or an unterminated or unreadable interval count is refused when it is compiled (with an error or a panic) and never yields a matcher. Every other pattern of ordinary characters, periods, bracket lists, '^', '$', and single counts after an element is accepted.",
  [I], "every pattern text",
  "Tests list a few bad patterns; acceptance and refusal must be right for every one.",
  ["pkg/regexes/bre.go"], "the pattern is read element by element",
  "patterns of 0..4 bytes (thorough 5) over twelve characters; intervals of 0..5 bytes over five; counts with blanks and signs")

p("C11", "cksum writes the POSIX checksum, length and name of every input",
  "For every operand in order, or for standard input, cksum writes one line with the POSIX CRC of the bytes and their number, the number of bytes, and the name when one was given. The result depends only on the bytes, not on how they arrive.",
  [I], "every content, any split into reads, and every list of operands",
  "There is no test of cksum; a wrong table entry or length only shows for certain bytes and sizes.",
  ["cmd/cksum/cksum.go", "cmd/cksum/main.go"], "a table driven CRC over the data and the octets of the length",
  "0..5 arbitrary bytes (thorough 7); files of 31..65536 bytes with one arbitrary byte and of 1 MiB; 0..3 operands of 0..2 bytes in reads of 1..2 bytes")

p("C12", "cksum never vouches for an input it could not read",
  "When an input cannot be opened or read, cksum writes no line for it, writes a diagnostic and exits above 0. Every line that is written is the right one for its file, and without failures the status is 0.",
  [I, F], "every failing open or read at any point of any input",
  "Tests cannot make reads fail in the middle of a file.",
  ["cmd/cksum/main.go", "cmd/cksum/cksum.go"], "errors of opening and reading are passed up to the command",
  "two files of 0..2 letters, any one of the first 8 opens and reads fails; standard input in up to 4 reads; 1..3 operands including a missing file and a directory")

p("C13", "cmp finds the first difference and names where it is",
  "cmp is silent and exits 0 for equal inputs. For different ones it exits 1 and writes the number of the first differing byte and of its line, or, when one input is a prefix of the other, says on standard error which one ended. This holds for files and for standard input given as '-', however the bytes arrive.",
  [I], "every pair of inputs and every split into reads",
  "No test runs cmp; the byte and line numbers depend on the whole contents.",
  ["cmd/cmp/main.go"], "byte by byte comparison of two buffered readers, counting bytes and lines",
  "two inputs of 0..4 bytes (thorough 6) over newline, NUL, a, b; common starts of 9..131071 bytes before 0..2 arbitrary bytes; up to six short reads")

p("C14", "cmp -l lists every difference, cmp -s says nothing",
  "With -l cmp writes one line for each differing byte, in order, with its number and both values in octal, and for nothing else; with -s it writes nothing at all. In both modes the exit status is 0 for equal inputs and 1 for different ones.",
  [I], "every pair of inputs",
  "The list is a function of all byte pairs; no test runs cmp.",
  ["cmd/cmp/main.go"], "the comparison goes on after a difference with -l, and keeps the status",
  "-l on two inputs of 0..3 arbitrary bytes (thorough 4), and one arbitrary byte behind 0..4096 common ones; -s on 0..4 bytes (thorough 6) over three characters in short reads")

p("C15", "cmp reports trouble and never takes it for an answer",
  "When an input cannot be opened or read, or the command line does not name two inputs, cmp exits with more than 1 and a diagnostic. Whatever fails, a status of 0 or 1 and everything written to standard output is right for the actual contents.",
  [I, F, C], "every failing open or read, with every option and every command line",
  "Tests cannot make a read fail in the middle of one of two files.",
  ["cmd/cmp/main.go"], "read errors are told from the end of a file before the comparison is judged",
  "two files of 0..3 bytes in reads of 1..2 bytes, any one of the first 10 opens and reads fails, no option, -l or -s; command lines of 0..3 words of five kinds")

p("C16", "cat copies its inputs in order, byte for byte",
  "cat writes the contents of its operands, and of standard input for '-' or without operands, in the order given and without changing, adding or losing a byte, and exits 0. -u makes no difference to what is written.",
  [I, C], "every list of operands, all contents, every split into reads",
  "No test runs cat; buffers and short reads matter only for certain sizes.",
  ["cmd/cat/main.go"], "each input is copied to standard output",
  "0..3 words (thorough 4) among two files, standard input and -u, 0..3 arbitrary bytes, short reads; files up to 1048577 bytes with two arbitrary bytes")

p("C17", "cat fails visibly and still copies what it can",
  "When an operand cannot be opened or read, or the output cannot be written, cat writes a diagnostic and exits above 0; the other operands are still copied in order. A status of 0 means that everything was written.",
  [I, F], "every failing open, read or write at any point",
  "Tests cannot make reads or writes fail.",
  ["cmd/cat/main.go"], "the errors of each copy are reported and remembered for the status",
  "1..4 operands of four kinds (readable, standard input, missing, directory); any one of the first 12 opens, reads and writes fails on two files of 0..3 arbitrary bytes")

p("C18", "head writes exactly the first lines of its inputs",
  "head writes the first lines (ten, or as many as -n says) of each operand, or of standard input without operands, byte for byte, whatever the length of the lines and whether or not the last one is complete. With several operands each part follows a header with its name, and parts are separated by an empty line.",
  [I, C], "every text, number of lines and list of operands",
  "No test runs head; bytes such as CR, missing newlines and long lines are never sampled.",
  ["cmd/head/main.go"], "lines are read and written until the number is reached",
  "text of 0..5 bytes (thorough 7) over newline, CR, NUL, a, the first 0..4 lines, short reads; 8..101 lines with -n 9..100; lines of 4095..70000 bytes; 2..3 operands")

p("C19", "head reports what it cannot read, without crashing",
  "When an operand cannot be opened or read head writes a diagnostic, goes on with the other operands and exits above 0; what it wrote is always a start of the right output. A missing or unreadable number of lines is refused, and nothing makes head crash.",
  [I, F, C], "every failing open or read, every argument of -n",
  "Tests cannot make reads fail and do not run head.",
  ["cmd/head/main.go"], "errors become diagnostics and the exit status",
  "1..3 operands of three kinds; text of 0..4 bytes, any one of the first 6 opens and reads fails; -n with none or 0..2 arbitrary ASCII characters")

p("C20", "test evaluates string and number expressions by the rules of POSIX",
  "With up to four arguments test decides by their number: one is true when not empty, a binary primary in the middle of three comes before anything else, '!' negates the rest, -n and -z look at one string, and numbers compare as integers. True exits 0, false 1; an expression that makes no sense, or a comparison of something that is no integer, exits above 1 with a diagnostic.",
  [I], "every list of up to four words",
  "Words that look like operators can be operands; the number of combinations is beyond examples, and no test runs the command.",
  ["cmd/test/main.go", "cmd/test/tests.go"], "dispatch on the number of words and tables of primaries",
  "0..4 words of a list of 11 (thorough 16); strings of 0..3 arbitrary bytes (thorough 4); numbers of 1..2 digits (thorough 3), six digits and at the limits of 64 bits; non-numbers of 0..2 characters")

p("C21", "test's file primaries tell the truth about every file",
  "-e -f -d -h -L -p -S -c -b -g -u and -s are true exactly when the named file exists and is of that kind, has that bit, or is not empty; links are followed except by -h and -L. A missing file makes each of them false, and unknown primaries are an error.",
  [I, C], "every kind and mode of file, directly or through links",
  "No test runs the command; combinations of kind, mode and links are many.",
  ["cmd/test/tests.go", "cmd/test/main.go"], "stat or lstat and the bits of the mode",
  "seven kinds of files (regular of 0..2 bytes, directory, fifo, socket, character device, missing, dangling link) with set-id and sticky bits, through 0..2 links, with and without !; a block device cannot be made here")

p("C22", "kill sends the requested signal to the named processes only",
  "kill sends the signal given by name (in any case), by number, or TERM by default, once to each process named and to no other, and exits 0 silently; when a signal cannot be sent it says so and exits above 0. A command line without a process, or with a signal or process it does not understand, is refused and nothing is sent; -l sends nothing and lists the names it understands.",
  [I, C, F], "every command line",
  "Tests cannot send arbitrary signals to arbitrary processes; there is no test of kill.",
  ["cmd/kill/main.go"], "the command line is read completely before any signal is sent",
  "eight names in any case, numbers 0..99, 1..3 processes of up to six digits or 0, sending to any of them succeeds or fails for one of two reasons; words of 0..2 arbitrary ASCII characters where a name or number is expected (signals are recorded by a stand-in); numbers with other characters in them, negative signals")

p("C23", "locale reports each category by the precedence of the environment",
  "locale writes LANG, the six categories and LC_ALL, one per line: a category is LC_ALL when that is set, else its own variable, else LANG; values that come from LC_ALL or LANG are quoted and a category's own value is not. Values are written unchanged, and an empty variable counts as not set.",
  [I, C], "every environment",
  "All subsets of eight variables and all values; no test covers it.",
  ["cmd/locale/main.go", "pkg/locale/locale.go"], "each category is resolved from the environment variables",
  "any subset of the eight variables set, empty or unset; values of 0..3 arbitrary bytes (thorough 5) for LANG, LC_ALL or one category")

p("C24", "Editing with ed's a, i, c and d equals editing a list of lines",
  "After any sequence of a, i, c and d commands, with addresses or without, the buffer that ed writes has exactly the lines that the same edits make of a list of lines, and the current line is the last line added, or the one after the deleted ones (the last line when there is none). Text is taken as typed up to a line that is only a dot: other lines that start with a dot, blanks, CR, empty lines and letters other than ASCII are kept.",
  [I, H], "every file, every sequence of editing commands and every text",
  "Each command depends on the buffer and the current line that all earlier ones left; the tests try single commands on one file of three lines.",
  ["pkg/ed/ed.go", "pkg/ed/ed.peg", "pkg/ed/ed.peg.go", "cmd/ed/main.go", "pkg/txt/piece_table.go"], "commands are parsed by a grammar and turned into insertions and deletions of a piece table at computed line positions",
  "0..3 lines of one of seven characters, last one complete or not; one command with 15 kinds of addresses or two (thorough three) with 8 (6), text of 1..3 lines; 12 lines of up to 120 bytes with numbers 0..13, ranges, and text of up to 12 lines or 5000 bytes; empty lines at either end of a text, letters of one to four bytes and other separators")

p("C25", "ed prints the lines its addresses name and keeps the current line",
  "p, n, = and an address alone print exactly the addressed lines (with their numbers for n; the line number for =). Addresses are numbers, '.', '$', /text/ searched from the line after the current one and around the end, each with an offset, and ranges of them with the usual defaults. Afterwards the current line is the last line printed, = leaves it, and an empty line prints the next line.",
  [I, H], "every buffer, every address and range, and every sequence of such commands",
  "The tests use about ten fixed addresses on one buffer; offsets, wrap-around of searches and the current line over several commands are not sampled.",
  ["pkg/ed/ed.go", "pkg/ed/address.go", "pkg/ed/ed.peg", "pkg/ed/ed.peg.go"], "addresses are resolved against the buffer and the current line, with defaults per command",
  "0..3 lines of one arbitrary byte with 17 addresses in 6 forms; 12 lines with numbers and offsets 0..15; 1..4 lines of 1..2 characters with five searches in seven forms from any line; three commands (thorough four) of ten kinds on four lines; searches with blanks and letters of both cases; line numbers around 1000; lines that are a question mark")

p("C26", "ed's w saves the named lines safely and touches no other file",
  "w writes exactly the addressed lines (by default the whole buffer) to the named file, by default the one being edited; the buffer and the current line stay. Whatever fails, and whenever ed is killed, the file has its complete old or its complete new content, a failure is answered with '?', the buffer can still be written afterwards, and no other file is changed; none is left behind unless ed was killed.",
  [I, F, X], "every buffer, range and file name, every failing operation and every moment of a kill",
  "Disk full, failing renames and kills in the middle of a write cannot be sampled by tests.",
  ["pkg/ed/ed.go"], "the text goes to a fresh temporary file which is then renamed",
  "0..3 lines of one arbitrary byte after one of five edits, four names and nine ranges; any one of the first 16 operations fails with 0..3 bytes written; a kill before any of the first 8 operations with 0..6 bytes written; texts of up to 65537 bytes; a second w without a name")

p("C27", "ed answers what it cannot do with '?' and changes nothing",
  "A line that is no command, or a command that this ed does not have, or one whose address is not in the buffer, is answered with a question mark and leaves the buffer, the current line and the file as they were; ed goes on with the next line. No line, of any bytes, makes ed crash or hang.",
  [I], "every input line on every buffer",
  "Absence of crashes and of side effects is a statement about all lines; the tests give only proper commands.",
  ["pkg/ed/ed.go", "pkg/ed/ed.peg", "pkg/ed/ed.peg.go", "pkg/ed/address.go"], "the grammar refuses, and addresses are checked before a command acts",
  "0..3 characters (thorough 4) of 16 before any character that ends no command; pairs of 19 commands with bad addresses and 13 unknown ones; lines of one arbitrary byte or 2..3 (thorough 4) of 20 characters; all pairs of twelve addresses; buffers of 0..3 lines")

p("C28", "ed answers its commands in order on every schedule",
  "However the goroutine that reads commands and the one that executes them are scheduled, ed answers every command, proper or not, in the order given; everything before the end of input or q is done before ed ends, and nothing after q is.",
  [S, H], "every interleaving of the reading and the executing goroutine",
  "Tests see the schedules that happen; an answer written by the wrong goroutine appears out of order only sometimes.",
  ["pkg/ed/ed.go", "cmd/ed/main.go"], "commands go from the parser to the executing loop through an unbuffered channel",
  "three commands of nine kinds (thorough four) with one preemption, three of three kinds with two preemptions (thorough three), a session ending in q, Q or end of input with three preemptions (thorough four); q and Q with five kinds of buffers, 60 or 300 commands")

p("C29", "An era is read from its description completely, or refused",
  "A description direction:offset:start:end:name:format gives an era with exactly these parts: the direction is + or -, the offset a decimal number, the other parts are kept as written, and a format may itself contain colons. Different descriptions give different eras. Any other text (too few parts, another direction, an offset that is no number) gives an error.",
  [I], "every description, of any bytes",
  "Acceptance and refusal are statements about all texts; the tests try three descriptions.",
  ["pkg/locale/time.go"], "the text is split at colons, the first two parts are checked and the rest joined again",
  "0..7 parts: directions of 0..2 and offsets of 0..2 arbitrary bytes, others 0..1; proper descriptions with offsets of 1..3 digits, dates, names and formats of 1..2 characters; pairs of descriptions with parts of 0..1 arbitrary bytes; offsets of up to 19 characters")

p("C30", "A locale definition is split into its words and values completely",
  "From a proper locale definition the lexer gives every category name, keyword, number, symbol, separator and character of a string, in order, each with its kind and exact text. Lines that start with the comment character disappear, lines that end in the escape character are joined with the next, comment_char and escape_char lines set those characters, and everything else is kept byte for byte.",
  [I, C], "every proper definition of the categories, however it is laid out",
  "Layout, comments and values combine freely; the tests have a handful of fixed definitions.",
  ["pkg/locale/localelex.go"], "a state machine in its own goroutine hands tokens over a channel; comments and joined lines are removed first",
  "each of 55 keywords of LC_MONETARY, LC_TIME, LC_CTYPE, LC_NUMERIC and LC_MESSAGES with 1..3 values of up to three arbitrary printable characters; one or two categories with comments of two arbitrary bytes in up to six places, other comment and escape characters, joined and empty lines; strings of up to 3 parts with characters by number; blanks and line ends; of LC_COLLATE only orders of 0..4 symbols; two definitions after one another with different comment and escape characters")

p("C31", "ed's e takes a file into the buffer completely, or changes nothing",
  "e with a name replaces the buffer by the lines of that file, e alone by those of the file being edited; the current line is then the last one, and w without a name writes to that file. When the file cannot be opened or read, ed answers '?', and the buffer, the current line and the file being edited stay. No file is changed by e.",
  [I, F], "every pair of files, every state of the buffer, and every failing or partial read",
  "No test opens a second file, and none can make a read fail or give only a part.",
  ["pkg/ed/ed.go", "cmd/ed/main.go", "pkg/txt/piece_table.go"], "the file is read completely before the buffer is replaced",
  "files of 0..2 and 0..3 lines of an arbitrary byte, the last one complete or not, one of four edits before, five forms of e, w with and without a name; any one of the first 8 opens and reads fails, or three reads of 1..4 bytes; files of up to 65537 bytes; files of up to 1048577 bytes, 14 kinds of names")

p("C32", "A command that cannot write its results does not claim success",
  "When writing to standard output fails at any point, cksum, cmp, diff, head, kill -l, locale and tsort write a diagnostic and exit with a status above 0 (cmp and diff: above 1), and what has been written is a start of the right output. A status that tells of success, or of a difference, means that all of the output was written.",
  [I, F], "every input and every failing or partial write",
  "Tests cannot make a write fail after some bytes.",
  ["cmd/cksum/main.go", "cmd/cmp/main.go", "cmd/diff/main.go", "cmd/head/main.go", "cmd/kill/main.go", "cmd/locale/main.go", "cmd/tsort/main.go"], "the errors of writing are turned into the exit status",
  "inputs of up to two files of 0..3 bytes over three characters (cmp with and without -l, head with one or two files), ordered words, three environments; any one of the first 6 writes fails after 0..2 bytes; writes that fail after 0..2 bytes")

p("C33", "The list of differences holds both texts in full",
  "The comparison that the diff library returns for two lists of lines, and writes one line each with a mark in front, holds both in full: the lines marked ' ' and '-' are the old text in order, those marked ' ' and '+' the new one. The lists given to it are not changed.",
  [I], "every pair of lists of lines",
  "The tests compare a few fixed pairs; that no line is lost, doubled or moved must hold for every pattern of equal lines.",
  ["pkg/diff/diff.go"], "equal lines at both ends are set aside and the rest is compared in two directions",
  "all patterns of equal lines in texts of 0..4 lines (thorough 5); 1..2 lines of 0..3 arbitrary bytes; up to 1100 common lines around arbitrary ones")

p("C34", "An editor inside a program does what its commands and calls say",
  "An ed.Itor, new or zero, does the commands that ProcessCommands reads from any reader, in whatever parts it delivers them, answers them in order to the writer, and has done all of them, up to the end or q, when it returns; a further call goes on with the same buffer at its last line. String is then the whole buffer with every line ended by a newline, Print(a, b) the lines a to b, and Delete(a, b) removes exactly these.",
  [I, C], "every buffer, sequence of commands and calls, and every way a reader delivers them",
  "The tests use the library with a dozen fixed scripts from a string.",
  ["pkg/ed/ed.go", "pkg/ed/address.go", "pkg/ed/ed.peg.go", "pkg/txt/piece_table.go"], "commands go through a channel from the goroutine that reads to the one that executes; text is a piece table",
  "buffers of 0..3 lines, two (thorough three) commands a, c, d or i with six kinds of addresses in one call or several, then Delete of any lines and Print of all ranges; seven commands in parts of 1..5 bytes (first three reads), the end with the last part or alone, q or Q before the last command")

na("N01", "cut writes the selected parts of every line",
  "cut writes, for each line of its inputs, the bytes, characters or fields that its list selects.",
  [I, C], "every text and list", "No test runs cut.", ["cmd/cut/main.go"], "none: the command stops after its options",
  "not implemented here (README marks cut as X): the program refuses every command line and has no code that reads input, so there is nothing to encode")

na("N02", "tail writes the last part of its input",
  "tail writes the last ten lines of its input, or the part that -n or -c says.",
  [I, C], "every text and number", "No test runs tail.", ["cmd/tail/main.go"], "none: the package does not compile",
  "not implemented here (README marks tail as X): cmd/tail does not compile at the pinned commit and has no code that reads input, so there is nothing to encode")
