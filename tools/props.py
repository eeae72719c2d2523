"""The properties; tools/mk.py writes properties.jsonl and MANIFEST.json from this table."""
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, note, technique=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None, **({"state": state} if state else {})),
                  note=note, technique=technique))


PARS = ["src/parser.c", "src/parser_macros.h", "src/parsers/*.rl", "src/sourcefile.c"]
PMECH = [("line bookkeeping macros", "src/parser_macros.h"), ("common actions", "src/parsers/common.rl"), ("pending lines", "src/parser.c count_line, report_lines"), ("one scanner per language", "src/parsers/*.rl")]
COUNT = ["ohcount_sourcefile_parse_with_callback"]

prop("P01", "Counting any file in any language touches no memory but the file's",
     "Counting the lines of any file content in any supported language terminates, reads and writes only the file's contents and memory it owns, and releases all memory it allocates. "
     "Every line it reports lies inside the file and is not empty.",
     ["inputs"], "every byte content of the file, every language with a parser",
     "the tests parse about 400 sample files once each; an unfinished construct, a stray control character or a nested template can take the generated scanner to states none of them reaches",
     PARS, PMECH, COUNT, "all byte contents up to the stated size for every language and all instances of the templates; longer free text is outside")
prop("P02", "Every physical line of a file is reported exactly once, in order",
     "For any file content in any language, line counting reports the file's physical lines (ended by LF, CRLF, CR, FF or the end of the file) in order: no report covers two lines, no line is reported twice, no report ends between the CR and the LF of a CRLF, and text that is not reported is white space at the beginning of a reported line or at the very end of the file (in PHP also the '?' of a '?>' that begins a line).",
     ["inputs"], "every byte content of the file, every language with a parser",
     "the tests compare totals of sample files; a line lost or doubled at a particular boundary between two tokens does not occur in them",
     PARS, PMECH, COUNT, "all byte contents up to the stated size for every language and all instances of the templates")
prop("P03", "A line counts as blank exactly if it holds nothing but white space",
     "Whatever token or embedded language a line lies in, it is reported as blank if and only if it has no character but spaces, tabs, vertical tabs and line ends (in DCL a leading '$' counts as white space).",
     ["inputs"], "every byte content of the file, every language with a parser",
     "the tests' samples have few blank lines inside strings, comments and at language boundaries",
     PARS, PMECH, COUNT, "all byte contents up to the stated size for every language and all instances of the templates")
prop("P04", "Lines are code or comment as the language's lexical syntax says",
     "A line is reported as code if any part of it lies outside comments (strings included) and as comment if it only has comments, where comments and strings are those of the language's lexical syntax: line comments, block comments (nested where the language nests them), string literals with their escapes, in which comment delimiters mean nothing. "
     "Comments and strings left open at the end of the file are not judged.",
     ["inputs"], "every text over the language's delimiters, for each of 111 languages",
     "each language has a handful of sample snippets; interactions of quotes, escapes, delimiters and newlines are not sampled systematically",
     ["src/parsers/*.rl", "src/parser_macros.h", "src/parser.c"], PMECH, COUNT, "agreement with an independent reference lexer on all texts of the stated length over each language's alphabet; the table of syntaxes is trusted")
prop("P05", "Entity listing is safe, ordered and reports entities only",
     "Listing the entities of any file content in any language terminates, touches no memory but the file's and its own, and releases what it allocates. Entities lie inside the file, are not empty, come in order without overlap, carry the caller's data, and never are line kinds.",
     ["inputs"], "every byte content of the file, every language with a parser",
     "the tests list the entities of one short snippet per language",
     PARS, [("entity machines", "src/parsers/*.rl")], ["ohcount_sourcefile_parse_entities_with_callback"], "all byte contents up to the stated size for every language and all instances of the templates")
prop("P06", "What is reported for a file does not depend on the files before it",
     "Counting a file or listing its entities reports the same lines and entities, in the same language, place and order, whatever files were counted or listed before in the process, even if those end in the middle of a comment, string or embedded language.",
     ["histories", "inputs"], "every byte content of the file, a list of files before it that leave the scanners in every kind of unfinished state",
     "the scanners keep their state in globals; the tests always parse complete files and never compare two parses of one file",
     PARS, [("reset of the global state", "src/parser_macros.h init, src/parsers/common.rl enqueue/commit"), ("pending lines", "src/parser.c")], COUNT + ["ohcount_sourcefile_parse_entities_with_callback"],
     "all byte contents up to the stated size for every language and all instances of the templates; the files in between are a fixed list")
prop("P07", "Line ends of any convention are counted alike",
     "The same text with its lines ended by LF, by CRLF or by CR is reported line by line the same: as many lines, each of the same language and kind and with its end at the same place.",
     ["inputs"], "every text (without other CRs and form feeds), every language with a parser",
     "the samples have LF line ends; the scanners spell newlines in hundreds of patterns, each of which may take a CRLF apart or count its characters",
     PARS, [("newline", "src/parsers/common.rl"), ("one scanner per language", "src/parsers/*.rl")], COUNT, "all texts of the stated size and the templates, two runs over one symbolic text")
prop("P08", "Lines of embedded languages are attributed to the right language and kind",
     "In documents that embed languages (HTML with CSS, JavaScript, PHP, Ruby, Java, C#, VB or ClearSilver; MXML, CoffeeScript, HAML, Nix, MetaPost) and in multi-line constructs, every line is reported with the language it is written in and its kind, "
     "and the outer language resumes after the embedded part's end, whatever identifiers the text uses.",
     ["inputs"], "all instances of the document templates",
     "each pair of languages is tested with one sample file",
     ["src/parsers/*.rl", "src/parser_macros.h"], [("fcall/fret between machines", "src/parsers/*html.rl, *_aspx.rl, jsp.rl, mxml.rl, haml.rl, nix.rl, coffeescript.rl"), ("seen", "src/parser_macros.h emb_newline")], COUNT,
     "the documents are fixed except for their holes")

prop("P09", "A missing line end at the end of a file changes nothing",
     "A text whose last line is not ended by a newline is reported as the same text with the newline: as many lines, each of the same language and kind and at the same place (unless the last line ends in white space, or in DCL in '$').",
     ["inputs"], "every text that does not end in white space, every language with a parser",
     "the samples are complete files or one line; the end of the file meets the scanners in any state, also inside an embedded language",
     PARS, [("last line", "src/parser_macros.h last_line, process_last_line, emb_last_line"), ("one scanner per language", "src/parsers/*.rl")], COUNT, "all texts of the stated sizes and the templates up to each of their lines, two runs over one symbolic text")

SFM = ["src/sourcefile.c", "src/parsed_language.c", "src/loc.c", "src/parser.c"]
prop("P10", "A file's totals and kept texts are exactly those of its reported lines",
     "The counts a SourceFile gives per language (its loc list and its parsed languages) are the numbers of lines reported for that language and kind, every language with a line is listed once, in order of first occurrence, with a file count of one, the totals add up to the number of lines, "
     "and the code and comment texts kept for diffs and licenses are the code and comment lines without their indent (files with NUL bytes are excepted from the texts).",
     ["inputs"], "every byte content of the file, every language with a parser",
     "the tests compare counts of sample files and never look at the kept texts of most languages",
     SFM, [("collecting lines", "src/sourcefile.c parser_callback, ohcount_sourcefile_parse"), ("adding up", "src/loc.c")], ["ohcount_sourcefile_get_loc_list", "ohcount_sourcefile_get_parsed_language_list"],
     "all byte contents up to the stated size for every language and all instances of the templates")
DET = ["src/detector.c", "src/hash/*.gperf", "src/sourcefile.c"]
DMECH = [("order of the sources of evidence", "src/detector.c ohcount_detect_language"), ("tables", "src/hash/*.gperf"), ("content tests", "src/detector.c disambiguate_*")]
OBD = ["ohcount_detect_language", "ohcount_is_binary_filename"]
prop("P11", "Detecting any file's language is memory safe and answers a known language",
     "Detecting the language of a file of any name and any content terminates, touches no memory but the file's and its own, releases everything it allocates (libmagic included), and answers either no language or one of the languages that the file's extension can stand for.",
     ["inputs"], "every byte content of files of every ambiguous extension, every answer of libmagic",
     "the tests detect about a hundred sample files; lines longer than the detector's buffers, empty files and truncated directives are not among them",
     DET, DMECH, OBD, "all byte contents up to the stated size; libmagic and PCRE are the environment")
prop("P12", "File names and Emacs modes select the documented language in documented order",
     "An extension, a whole file name or an Emacs mode line selects exactly the language the documented tables give it; an extension counts before a mode line and that before the file name and libmagic; extensions are taken as written and then in lower case; names in no table select nothing; "
     "files with the documented binary extensions are never looked at.",
     ["inputs"], "every file name near the tables' entries and every mode line near the languages' names",
     "the tests try a few dozen names of several hundred, and no near misses",
     DET, DMECH, OBD, "names that differ from the tables' entries in one byte, in case or in length, and all short names; the tables are trusted")
prop("P13", "Ambiguous extensions are decided by content and neighbours as documented",
     "For each extension that stands for several languages (.aspx .asx .b .bas .cs .dat .def .f .fs .h .in .inc .m .mod .pl .pp .pro .r .rs .st) the language is the one that the rule stated next to the test selects from the content of the file and the names of its neighbours, wherever in the file the deciding text stands; "
     "a name with .in behind it is decided like the name without.",
     ["inputs"], "every arrangement of the words a rule looks for",
     "the tests have one or two sample files per extension; evidence on the first or last line, right behind a near miss or behind a long line is not sampled",
     DET, DMECH, OBD, "texts of two (thorough: three) words of each rule's vocabulary and of up to three arbitrary bytes")
prop("P16", "libmagic's report selects the language of the interpreter or script it names",
     "For a file that its name does not decide, a report of libmagic that names a script or an interpreter selects the language of that name, regardless of case, path and switches, and no language if there is none of that name; reports that name nothing select nothing.",
     ["inputs"], "every name of an interpreter within ten forms of libmagic's report",
     "the tests have a dozen script samples and depend on the installed libmagic's wording",
     DET, [("interpretation of the report", "src/detector.c detect_language_magic, magic_parse")], OBD, "ten forms of report")
LISTS = ["src/loc.c"]
LM = [("merging by language", "src/loc.c ohcount_loc_list_add_loc, ohcount_loc_delta_list_add_loc_delta")]
prop("P17", "Loc lists are exact per-language sums",
     "Whatever sequence of locs and lists is added, a loc list has one entry per language, in order of first addition, whose counts are the sums of those added; totals are the sums over all; lookups find each language and no other; lists keep copies of their own; the compact list drops exactly the languages without lines.",
     ["inputs", "histories"], "every sequence of additions, every count",
     "the tests add two or three locs with small counts",
     LISTS, LM, ["ohcount_loc_list_*"], "sequences up to the stated length, all 32-bit counts")
prop("P18", "Loc delta lists are exact per-language sums of additions and removals",
     "Whatever sequence of deltas and lists is added, a delta list has one entry per language, in order of first addition, whose counts of added and removed code, comments and blanks are the sums of those added; net counts are added minus removed; lookups find each language and no other; "
     "the compact list drops exactly the languages without any change.",
     ["inputs", "histories"], "every sequence of additions, every count",
     "the tests add two or three deltas with small counts",
     LISTS, LM, ["ohcount_loc_delta_list_*"], "sequences up to the stated length, all 32-bit counts")
prop("P19", "The line diff of two texts is minimal and exact",
     "For any two texts, the numbers of added and removed lines are those of a longest common subsequence of their lines, so that equal texts have no difference and added minus removed is the difference in lines; the computation touches no memory but the texts' and its own and releases it. "
     "Texts too long for it are handed to the diff command through temporary files that hold exactly those texts and are removed afterwards, and its report is counted by the marks at the beginning of its lines.",
     ["inputs", "faults"], "every pair of texts; every report of the diff command",
     "the tests diff three pairs of texts; hash collisions, missing final newlines and repeated lines do not occur in them",
     ["src/diff.c"], [("diff core", "src/diff.c"), ("through the diff command", "src/diff.c ohcount_calc_diff_with_disk")], ["ohcount_calc_diff", "ohcount_calc_diff_with_disk"],
     "all pairs of texts within the stated size")
prop("P20", "Diffing two revisions counts exactly the lines that changed, per language",
     "Diffing two files lists each language of either; its added and removed code and comments are those of a longest common subsequence of the language's code (comment) lines without indent, blanks are compared by number; a missing file counts as empty; "
     "the net change of each language is the difference of its totals in the two files, and equal files have no change.",
     ["inputs", "histories"], "every pair of revisions",
     "the tests diff a handful of file pairs, mostly in one language",
     ["src/sourcefile.c", "src/diff.c", "src/loc.c"], [("diffing language by language", "src/sourcefile.c ohcount_sourcefile_diff")], ["ohcount_sourcefile_diff"],
     "all pairs of short files over a small alphabet in C and shell, HTML documents with holes")

prop("P24", "A file's licences are those found in its comments, none hidden or doubled",
     "A file's licences are those of the table whose expression matches the comments of at least one of its languages, unless the match holds a term the licence excludes, lies within the match of another licence that is found, or a more specific licence is found that overrides it; each is listed once. "
     "The expressions get the language's comments without the indent and punctuation that begins a line, each line end replaced by a space; all memory is released.",
     ["inputs"], "every position of every match, every pair of licences, comments in one or two languages",
     "each licence is tested with one sample file that has little else in it; how matches of several licences and languages interact is not tested",
     ["src/licenses.c"], [("containment, exclusion, override", "src/licenses.c ohcount_detect_license"), ("table", "src/licenses.c license_map")], ["ohcount_detect_license", "ohcount_sourcefile_get_license_list"],
     "what the regular expressions match is the environment's choice, so a wrong expression is not found")
prop("P25", "The command line tool reports exactly what the library finds",
     "For any files, each report of the ohcount tool (annotate, detect, help, individual, license, -re, summary, which is the default) prints exactly what the library finds in them: every line with its language and kind, every source file's language, every file's licences, every entity, one row per file and language in alphabetical order, or one row per language in descending order of code with the sums and the totals. "
     "Exactly the documented words are options; a path that does not exist is reported and the others are still counted; everything opened is closed and all memory released.",
     ["inputs"], "every content of the files, every word as option",
     "the tests do not run the tool",
     ["src/ohcount.c", "src/hash/options.gperf"], [("reports", "src/ohcount.c annotate, detect, individual, summary"), ("sorting", "src/ohcount.c sort_loc_list_by_*"), ("options", "src/hash/options.gperf")], ["output of main"],
     "the files' bytes up to the stated size and alphabets; file system and printf are a model")
prop("P21", "A file's answers do not depend on what was asked of it before",
     "Whatever a SourceFile was asked before, and in whatever order, its contents, size, language, parsed languages, counts, licences, entities, lines and differences are those of a SourceFile newly made for the same file, whether its contents are on disk, at another disk path or set by the caller; and it releases all memory and files at the end.",
     ["histories", "inputs"], "every sequence of questions, every content",
     "the tests ask each file one or two things; contents are read, freed and read again behind the accessors, and results are kept",
     ["src/sourcefile.c", "src/parser.c", "src/detector.c", "src/licenses.c"], [("contents", "src/sourcefile.c ohcount_sourcefile_get_contents, ohcount_sourcefile_parse"), ("kept results", "src/sourcefile.c")],
     ["ohcount_sourcefile_get_contents", "ohcount_sourcefile_get_loc_list", "ohcount_sourcefile_diff", "ohcount_sourcefile_parse_entities_with_callback"], "all sequences of the stated length, contents over a small alphabet")
prop("P23", "A directory's source files are listed completely and once, and summed",
     "Adding a directory to a list of source files adds every regular file in it and, at any depth, in its directories that are not hidden, by its path below the directory, exactly once; links are not followed, other kinds of files and unreadable or missing directories are passed over, and files added before or after keep their order. "
     "The counts of the list per language are the sums of its files'. Everything opened is closed and all memory released.",
     ["inputs"], "every tree of the stated size, every kind and order of its entries",
     "the tests list one directory of the repository",
     ["src/sourcefile.c"], [("walk", "src/sourcefile.c ohcount_sourcefile_list_add_directory"), ("list", "src/sourcefile.c ohcount_sourcefile_list_add_file"), ("sums", "src/sourcefile.c ohcount_sourcefile_list_analyze_languages")],
     ["ohcount_sourcefile_list_add_directory", "ohcount_sourcefile_list_analyze_languages"],
     "trees of up to six entries and four levels; the file system is a model")
