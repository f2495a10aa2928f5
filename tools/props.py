# ruff: noqa
SORTF = ["src/sort.rs", "src/comp.rs", "src/bin/cdx/sort_main.rs"]
prop("P01", "Sort outputs a stable ordered permutation of its input lines",
     "For any set of input files and any list of sort keys (any built-in ordering, each optionally reversed, where `random` is one order of the key values, fixed for the run), the sort command writes every input line exactly once, the lines are in non-decreasing key order with keys compared left to right, and lines with equal keys keep the order in which they were read. A shared header is written once, first, and is never sorted into the data; a missing final newline is supplied.",
     ["inputs", "configurations"], "all line contents, file splits, key lists, orderings, headers, compressed or plain files",
     "The test files sort a handful of short fixed inputs; ties, reversal of long or cached keys, and multi-file splits are not reached.",
     SORTF, [("cached comparison then full comparison of two lines", "src/comp.rs:LineCompList::comp_items"),
             ("stable in-memory sort", "src/sort.rs:Sorter::do_sort"), ("header handling of each file", "src/sort.rs:Sorter::add_file")],
     "p_sort.py", "All inputs up to 4 (thorough 5) lines in up to 3 files over 3 key ranks are model-checked; they are replayed with 24 families of concrete values per ordering, and random larger runs are validated against the specification.")
prop("P02", "Sort --unique keeps exactly the first line of each key",
     "With --unique the sort command writes exactly one line for every distinct key, namely the first line with that key in input order, in key order. Two keys are the same exactly when their ordering calls them equal.",
     ["inputs", "configurations"], "all inputs, splits into files and key lists",
     "Tests use one short list; which of several equal-but-different lines survives, and equality of long keys, is never exercised.",
     SORTF, [("dedup after stable sort", "src/sort.rs:Sorter::do_sort"), ("equality of cached lines", "src/comp.rs:LineComp::equal_items")],
     "p_sort.py", "As P01, with uniqueness.")
prop("P03", "Sort output does not depend on the memory budget or on spilling",
     "Sorting through any memory budget, so that any number of sorted runs are spilled to disk and merged, produces byte for byte the output that sorting entirely in memory produces, with and without uniqueness. No line length relative to the budget makes sorting fail or lose data.",
     ["inputs", "configurations", "histories"], "all budgets from one byte up, all inputs, every placement of the spills",
     "The command line always uses a 500 MB budget, so no existing test ever spills a run.",
     ["src/sort.rs"], [("buffer filling and spilling", "src/sort.rs:Sorter::add"), ("spilled run", "src/sort.rs:Sorter::write_tmp"), ("merging of the runs", "src/sort.rs:SortConfig::merge_t")],
     "p_sort.py", "In the model a spill may happen after any line; the real sorter is driven through its library interface with budgets from 1 byte to beyond the input.",
     state=[("data, data_used, data_calc", "the memory buffer and how much of it is complete lines", "src/sort.rs:Sorter"), ("tmp_files", "the runs spilled so far", "src/sort.rs:Sorter")],
     observe=["output of the library sorter given a budget"])
prop("P04", "Merging sorted files equals sorting their concatenation",
     "Merging any number of already sorted files, with either merge algorithm, writes every line exactly once in key order with equal lines in file order; with --unique only the first line of each key is written. The result equals sorting the concatenation of the files.",
     ["inputs", "configurations"], "any number of sorted files including empty and header-only ones, any keys, both algorithms",
     "Tests merge two or three tiny files without ties across files.",
     SORTF, [("heap merge", "src/sort.rs:SortConfig::merge_t2"), ("tournament-tree merge", "src/sort.rs:SortConfig::merge_t1")],
     "p_merge.py", "Both merge algorithms are specified (heap choice and tournament tree) and proved equal by TLC for up to 4 (5) lines in up to 4 files.")
prop("P06", "Sort --check accepts exactly the sorted files",
     "The check mode of sort exits successfully if and only if every input file, taken alone, is in non-decreasing key order (strictly increasing with --unique). It writes nothing to standard output and reports each offending pair up to the requested number (the first in any case).",
     ["inputs", "configurations"], "all files, key lists and report limits",
     "Tests check a few files; the verdict must be right for every position of the fault.",
     ["src/bin/cdx/sort_main.rs", "src/comp.rs"], [("comparison of adjacent lines", "src/comp.rs:comp_check"), ("loop over files", "src/bin/cdx/sort_main.rs:main")],
     "p_merge.py", "All files up to 4 (5) lines in up to 2 files are model-checked and replayed.")
prop("P05", "Built-in orderings are consistent total orders in every representation",
     "Each built-in ordering (plain, lower, length, numeric, float, ip, equal, random as any one order of the values, and expr, the numeric order of an expression over the line), alone or reversed and on a chosen column, the whole line or several keys in turn, ranks any two byte strings as its definition says; and the cached sort key, the comparison of split lines, of raw lines, and of a preset value against a line all give the same answer, with equality true exactly when the ordering says equal.",
     ["inputs", "configurations"], "all pairs of byte strings, orderings, reversal, key positions",
     "Only a few pairs per ordering are tested, each through one of the five comparison paths.",
     ["src/comp.rs", "src/num.rs"], [("comparator implementations", "src/comp.rs:Compare"), ("cache and reversal", "src/comp.rs:Comp::fill_cache"), ("key lists", "src/comp.rs:LineCompList")],
     "p_compare.py", "All strings up to 3-5 (thorough 4-6) bytes over alphabets that cover every branch; TLC checks that the digit-by-digit algorithms compute the numeric key order; about 100k (600k) pairs replayed through five comparison paths.",
     observe=["results of the library comparison functions"])
prop("P07", "Join pairs exactly the lines whose keys are equal",
     "Joining two files sorted on their keys (the second without repeated keys) writes, for every line of the first file in file order, one output line if and only if the second file has a line with an equal key, built from the requested (or default) columns of the two lines, named in the header as in their files or as asked for. Other than two files are refused. Lines of either file without a partner are exactly the ones written to that file's --also output, in order and with that file's own header. Output files hold nothing else.",
     ["inputs", "configurations"], "all pairs of sorted files, key columns, orderings and reversal, output column lists, header or none",
     "Tests use a dozen hand-made pairs; runs of equal keys, exhaustion of either file at every point and ragged lines are not covered.",
     ["src/join.rs", "src/bin/cdx/join_main.rs", "src/comp.rs"], [("two-cursor join", "src/join.rs:Joiner::join_quick"), ("default output columns", "src/join.rs:Joiner::join"), ("per-file key columns", "src/comp.rs:LineCompList::comp_cols_n")],
     "p_join.py", "All sorted pairs up to 4 (5) lines over 4 (5) keys plus sampled larger pairs; the cursor machine is model-checked against the declarative meaning and every behaviour is replayed.",
     observe=["stdout, exit status, --also and --file output files of cdx join"])
prop("P08", "Binary search returns exactly the matching lines and always ends",
     "Searching a sorted file for a value prints exactly the contiguous lines whose key equals the value, in file order (none if absent), preceded by the header if there is one; with context it adds exactly the requested number of neighbouring data lines, clipped at the ends of the data. This holds for every layout of line lengths, including empty lines and a missing final newline, and the search always terminates.",
     ["inputs", "configurations"], "all sorted files, line lengths, values present or absent, keys and contexts",
     "A handful of files are tested; the probe arithmetic over byte positions depends on the length of every line.",
     ["src/binsearch.rs", "src/bin/cdx/binsearch_main.rs"], [("lower and upper bound over byte positions", "src/binsearch.rs:lower_bound_n"), ("context lines", "src/bin/cdx/binsearch_main.rs:main")],
     "p_binsearch.py", "The byte-position algorithm is model-checked (loop invariants, exactness, termination) for all files up to 4 lines of 1-2 bytes (thorough 5 of 1-3) and sampled files up to 40 lines; all are replayed.",
     state=[("begin, end, trapped", "window of byte positions still under consideration", "src/binsearch.rs:lower_bound_n")])
prop("P09", "Uniq reduces each run of equal adjacent lines to its chosen line and count",
     "Uniq splits its input into maximal runs of adjacent lines whose keys are equal (whole lines if no key is given) and writes exactly one line per run, in order: the first line (default), the last, or the least or greatest under the given ordering with the earliest of equals; with --count every line carries the exact number of lines of its run in a new first or last column, and the header, if there is one, is written once with that column added.",
     ["inputs", "configurations"], "all inputs, key lists, orderings, choices and count positions, header or none",
     "Tests cover a few short runs; the last run, runs of length one and ties under min and max are scarcely reached.",
     ["src/bin/cdx/uniq_main.rs", "src/comp.rs"], [("the three loops over the input", "src/bin/cdx/uniq_main.rs:main"), ("choice of the line", "src/bin/cdx/uniq_main.rs:Count::assign")],
     "p_uniq.py", "All inputs up to 4 (5) lines over 2 keys and 2 (3) ranks, each under every choice and every loop of the program, plus sampled inputs up to 20 lines; all replayed with varied orderings, layouts and options.")
prop("P10", "Aggregates of a group are functions of exactly that group's values",
     "Each aggregator of uniq (count, sum, mean, min, max, prefix, suffix, merge with its options, sum/min/max/mean of character and word counts, and expr, folding an expression over the lines) yields for every group the value its definition gives on exactly that group's column values, in the new or replaced column asked for, unaffected by other groups and by other aggregators; all remaining columns come from the group's chosen line. The library's aggregator specs (replace, prefix or append, then name, column and aggregator) mean the same.",
     ["inputs", "configurations", "histories"], "all sequences of groups of values, aggregators, options and placements",
     "Tests use one or two groups with one aggregator; reset between groups and option combinations are not covered.",
     ["src/agg.rs", "src/bin/cdx/uniq_main.rs"], [("accumulators and their reset", "src/agg.rs:Agg"), ("placement of the columns", "src/agg.rs:LineAggList::fill"), ("merging of lists", "src/agg.rs:Merge")],
     "p_uniq.py", "All divisions of up to 3 values (words up to 2 symbols with separators) into groups, plus sampled larger groups; accumulators model-checked against their declarative meaning and replayed through uniq with up to 4 aggregators at once.",
     state=[("val, cnt, empty", "running value of the current group", "src/agg.rs:Min")])
prop("P11", "Column selection yields exactly the named columns with the right header",
     "Cut writes for every data line exactly the columns its field list denotes, in list order: numbers, numbers from the end, names, ranges of any of these, open ranges, name matchers, renames and exclusions; groups and composites are built from exactly the columns they name. The output header names those columns correspondingly, with repeated names refused, numbered or kept as asked; a short line yields empty values. For several files the columns are resolved against each file's own header, and the run fails if the resulting headers differ or a list names a column that does not exist.",
     ["inputs", "configurations"], "all field lists, groups, composites, headers, file sets and line widths",
     "Tests use fixed lists on one or two fixed files; combinations of exclusion, renaming, ranges and several headers are not covered.",
     ["src/column.rs", "src/bin/cdx/cut_main.rs"], [("resolution of a field list against a header", "src/column.rs:ColumnSet::lookup"), ("output header and duplicates", "src/column.rs:ColumnHeader::push"), ("composites", "src/column.rs:CompositeColumn")],
     "p_columns.py", "All lists of up to 2 items over headers of up to 2 (3) columns, plus 4000 (30000) sampled lists of groups, composites and fields over 1-3 files of up to 6 columns; all model-checked against a set-valued meaning and replayed.")
prop("P12", "Cat concatenates exactly, padding and numbering as asked",
     "Cat writes the contents of its files one after the other, nothing lost, repeated or changed, with the shared header once at the top. A newline missing at the end of a file is supplied after every file, only at the very end, or nowhere, as asked. With line options, exactly the lines matched by --remove are dropped and exactly the lines not matched by --skip are numbered, consecutively from the start value through all files, in the requested column; other lines get an empty number.",
     ["inputs", "configurations"], "all file sets including empty and header-only files, every position of newlines relative to the read buffer, all option combinations",
     "Tests concatenate a few tiny files that each end in a newline.",
     ["src/bin/cdx/cat_main.rs"], [("fast and slow copy loops", "src/bin/cdx/cat_main.rs:main"), ("line counter", "src/column.rs:ColumnCount")],
     "p_cat.py", "All pairs of files up to 3 (4) symbols under every padding and all line-option cases up to 2 files of 2 (3) lines, plus sampled larger ones; symbols become 1 to 16385 bytes so that reads end everywhere.")
prop("P20", "Several files are combined only if their headers agree, header written once",
     "Cat, cut, cgrep, sort, sort --merge and sample, given several files, succeed exactly when all non-empty files have the same header or all have none, and every header is well formed; then the header is written once, first, and every data line of every file is written as data. Files without contents are ignored; a file with only a header is not. The other header modes of the library (require, strip, none, trust, ignore) accept and write exactly what they say.",
     ["inputs", "configurations"], "all sequences of files with equal, different, malformed or no headers, any number of data lines, every tool and mode",
     "Tests cover two or three files and a single mismatch with one tool.",
     ["src/util.rs", "src/bin/cdx/cat_main.rs", "src/bin/cdx/cut_main.rs", "src/bin/cdx/cgrep_main.rs", "src/bin/cdx/sample_main.rs", "src/sort.rs"], [("agreement of headers", "src/util.rs:HeaderChecker::check"), ("well-formed headers", "src/util.rs:is_valid_cdx"), ("header parsing", "src/util.rs:read_header")],
     "p_cat.py", "All sequences of up to 3 files over 4 header kinds and up to 1 (2) lines in all 6 modes, plus sampled sequences of up to 7 files; replayed with 15 tool invocations and, for every mode, through the library's checker.",
     state=[("head, saw_one", "the first header and whether any file was seen", "src/util.rs:HeaderChecker")])
prop("P13", "Paste puts the files' lines side by side in step",
     "Paste writes one line per step made of each file's line at that step. With Exact it succeeds only if all files have the same number of lines; with Early it stops with the shortest file; with Late it goes on to the longest, filling exhausted files with their default values (by column) or their last line. The header is the files' headers side by side if all have one, none otherwise, with repeated names refused, kept, numbered or renamed as asked, and an unused rename refused unless sloppy.",
     ["inputs", "configurations"], "all sets of files with any numbers of lines, end modes, defaults and name handling",
     "Tests paste two files of two or three lines.",
     ["src/bin/cdx/paste_main.rs", "src/column.rs"], [("stepping loop", "src/bin/cdx/paste_main.rs:main"), ("names and renames", "src/column.rs:ColumnHeader::push"), ("defaults by column", "src/column.rs:ScopedValues")],
     "p_paste.py", "All sets of up to 3 files of up to 2 (3) lines in every mode plus sampled sets of up to 5 files with clashing names and renames; replayed with random defaults.")
prop("P16", "Verify exits successfully exactly for files that meet every demand",
     "Verify succeeds if and only if, in every file, each line has as many columns as the header (or first line), matches every pattern, is in order (strictly, for unique) with respect to its predecessor when asked, and the first and last lines satisfy the demanded comparisons, under any ordering and its reversal, for a key column or the whole line. The verdict does not depend on the report limit, and nothing is written to standard output.",
     ["inputs", "configurations"], "all files, positions of the fault including first and last line, orderings, comparison operators, ranges and limits",
     "Two tests exist, both with a pattern.",
     ["src/bin/cdx/verify_main.rs", "src/util.rs", "src/comp.rs"], [("loop over the lines", "src/bin/cdx/verify_main.rs:main"), ("comparison of a line with a value", "src/util.rs:CheckLine"), ("order of adjacent lines", "src/comp.rs:comp_check")],
     "p_verify.py", "All files of up to 2 (3) lines over 3 ranks with every fault and every operator, plus sampled sets of up to 3 files of 12 lines; replayed under all orderings.",
     observe=["exit status and stdout of cdx verify"])
prop("P17", "Wc counts exactly, per file or per column, and totals add up",
     "Wc reports for every file with data lines the exact number of lines, bytes, characters and whitespace-separated words (each line counted with its newline), or with --columns the same over all values of each named column in all files, in the order columns first appear; the totals line is the sum of the rows. File names, header and totals appear exactly as the options (or their defaults) say.",
     ["inputs", "configurations"], "all file sets, contents, counters and options",
     "One test exists, counting the lines of one file.",
     ["src/bin/cdx/wc_main.rs", "src/agg.rs"], [("per-file and per-column loops", "src/bin/cdx/wc_main.rs:main"), ("counters", "src/agg.rs:Counter")],
     "p_wc.py", "All files of up to 2 lines of up to 3 (4) characters plus sampled sets of up to 4 files and 4 columns; replayed with random selections of counters and options.")
prop("P18", "Sample picks exactly the lines asked for, or an even spread",
     "With --for or --range, sample writes exactly the lines with the given numbers, counted from 1 in each file, in order. With --sample N it writes min(N, lines) lines of each file (at least two if there are two): distinct, in order, including the first and the last, with no gap greater than twice an even spacing, whatever the number of lines.",
     ["inputs", "configurations"], "all file lengths, sample sizes, ranges and steps, several files",
     "No test runs the sample command.",
     ["src/bin/cdx/sample_main.rs", "src/sampler.rs"], [("streaming sampler", "src/sampler.rs:Smooth"), ("line numbers", "src/util.rs:Reader::line_number")],
     "p_sample.py", "The streaming sampler is model-checked for 6 (13) sizes and up to 40 (140) lines, the selections for all small cases, plus sampled cases up to 150 lines; the replay accepts any choice that satisfies the property.",
     state=[("data, jump, pos", "lines kept, distance between them, lines since the last kept one", "src/sampler.rs:Smooth")])
prop("P19", "Transpose turns column j of line i into column i of line j",
     "Transpose writes one line per column of the header (or of the first line): the column name, if there is a header, then the value of that column in each line in order, empty where a line is short, up to the requested number of lines. With --head the first output line becomes a header.",
     ["inputs", "configurations"], "all files, widths and limits", "No test runs the transpose command.",
     ["src/transpose.rs"], [("matrix", "src/transpose.rs:transpose")],
     "p_paste.py", "All files up to 3 columns and 3 (4) lines of any widths plus sampled files up to 12 by 15.")
prop("P14", "Cgrep selects exactly the lines its patterns select",
     "Cgrep writes, in order and unchanged, exactly the lines of its files for which all patterns hold (with --or, any pattern; with --invert, exactly the other lines), after the shared header. A pattern looks at one column, the whole line, the number of columns, a comparison between columns, or a set of columns under a determiner (all, some, none, notall, mixed, uniform, or at most, at least or exactly a number or fraction of them, of hits or of misses); not negates it. A column beyond the end of a line is empty. With --location each line is preceded by its file name, its line number or its byte offset.",
     ["inputs", "configurations"], "all files, pattern lists, determiners and thresholds, combinations and locations",
     "Fifteen tests exist, each with one or two patterns on a file of three lines; only one determiner path and no column comparison is reached.",
     ["src/bin/cdx/cgrep_main.rs", "src/matcher.rs"], [("loop over the lines", "src/bin/cdx/cgrep_main.rs:main"), ("combination with early exit", "src/matcher.rs:LineMatcherList::ok"), ("determiners with early exit", "src/matcher.rs:Determiner::match_mid"), ("column comparison", "src/matcher.rs:CompMatcher")],
     "p_match.py", "All rows of 3 (4) cells under all 12 determiners, thresholds and negation, plus 5000 (40000) sampled sets of up to 4 patterns over up to 3 files; early exits model-checked against the declarative meaning; every behaviour replayed.")
prop("P15", "Patterns match exactly the texts their method and modifiers define",
     "Each matching method accepts exactly the texts its description says: prefix, suffix, infix, exact, glob (star any text, ? any one), regex, length, file-exact (any non-empty line of the file), empty, blank, comment/hash/slash (also accepting blank texts), integer, number, float, ip, yes. The modifiers have their documented effect on every one of them: case ignores case (Unicode case with utf8), trim removes surrounding white space first, null also accepts empty texts, and/or combine a list of patterns, not reverses the answer, utf8 works on characters instead of bytes. The answer is the same wherever the pattern is used.",
     ["inputs", "configurations"], "all pattern texts, targets, methods and modifier combinations",
     "A dozen pairs are tested for glob and a few patterns elsewhere; backtracking, empty texts, case folding that changes lengths and modifier combinations are not reached.",
     ["src/matcher.rs", "src/text.rs"], [("pattern construction and modifiers", "src/matcher.rs:MatchMaker::make2"), ("modifiers at match time", "src/matcher.rs:Matcher::umatch"), ("glob loop with one retry point", "src/text.rs:Text::glob")],
     "p_match.py", "The glob loop is model-checked against its declarative meaning and for termination (all patterns up to 4 (5), texts up to 4 (5), plus sampled longer ones). About 3000 (14000) patterns, every method with every combination of modifiers, each over about 120 texts in bytes and in characters, are replayed through four uses of the pattern.",
     observe=["results of the library matching functions"])
prop("P21", "Arithmetic expressions parse and evaluate as conventional mathematics",
     "In calc and wherever a command takes an arithmetic expression (cut --expr, the expr matcher of cgrep and verify, the expr ordering of sort), an expression is accepted exactly when it is well formed and its functions exist with that number of arguments. Its value is that of conventional mathematics: comparisons bind loosest, then + and -, then * / and %, then unary signs, then ^ (grouping to the right), then factorial; equal levels group to the left; comparisons give 1 or 0. A column named or numbered in it stands for that column's number on each line, missing or non-numeric text for zero. A malformed expression is an error, never a crash.",
     ["inputs", "configurations"], "all expressions, constants, functions and column values",
     "A few conversions to postfix form are unit tested; no test evaluates an expression or feeds one from columns.",
     ["src/tok2.rs", "src/shunting_yard.rs", "src/expr.rs", "src/bin/cdx/calc_main.rs"], [("tokens", "src/tok2.rs:tokenize"), ("operator stack", "src/shunting_yard.rs:to_rpn"), ("postfix evaluation and constant folding", "src/expr.rs:Expr::rpn_to_expr"), ("columns as variables", "src/expr.rs:Expr::lookup")],
     "p_expr.py", "All token strings up to 4 (5) tokens over 11 kinds: the operator-stack machine is model-checked against the grammar (one meaning per text, same tree, same value); plus 3000 (20000) sampled trees up to depth 4 and broken texts. Values are exact fractions with a power of two below; library functions are compared at sample points.",
     observe=["stdout and exit status of cdx calc, cut -e, cgrep, sort and verify with expr"])
prop("P22", "Text modes: values read are those written, in every quoting and delimiter",
     "Under --text-in and --text-out, rows of values survive the text file: reading a file in a mode yields exactly the values it says (plain; double quotes, where delimiters and line ends within quotes belong to the value and a doubled quote is a quote; or backslash escapes), and values written in quote or backslash mode are read back as they were, whatever delimiters, line ends, quotes or backslashes they contain. Plain output replaces delimiters and line ends by the replacement character and nothing else. Commands that pass lines through (cgrep, uniq, sample, cat) judge the values and write the lines unchanged; transpose turns the values and writes them in the output mode, paste and join put lines and plain values together with the mode's delimiter. What a mode leaves out at its end is as usual (tab, plain, blank, newline), and without --text-out the output is as the input. The header mode decides whether the first line is a header (m a CDX line, x and y always, n never, s dropped) and how a header is written.",
     ["inputs", "configurations"], "all values, delimiters, quoting modes, header modes, and combinations of input and output modes",
     "Six tests exist, with one file each; none writes quotes or backslashes, uses another line delimiter, or reads back what was written.",
     ["src/util.rs", "src/column.rs"], [("splitting lines with quotes", "src/util.rs:TextFileMode::read_line"), ("splitting values", "src/util.rs:split_quotes"), ("writing values", "src/util.rs:TextFileMode::write"), ("header in a mode", "src/column.rs:ColumnHeader::get_head")],
     "p_text.py", "All rows of two values up to 2 characters over 5 (6) special and ordinary bytes, every input and output quoting, as written by cdx and with needless quoting: byte-by-byte reader, writer and re-reader model-checked; plus 2500 (20000) sampled files with other delimiters, line ends and up to 6 rows. Replayed through cut, cgrep, uniq, sample, cat, transpose, paste and join (both newline only; join plain only). Not claimed: sort, binsearch and tabs, which know only tabs (DESIGN.md), unclosed quotes, a dangling backslash, backslash mode with line ends other than newline and return.")
prop("P23", "Reading does not depend on how the input arrives or is compressed",
     "The same content gives the same result, exit status and output, whether it is an uncompressed file, a gzip file of one or more members divided anywhere, arrives on standard input in pieces of any size, compressed or not, or is given on the command line in place of a file name as <<TEXT (\\n, \\t, \\s and \\\\ standing for newline, tab, blank and backslash): the header and the compression are recognised and the lines are the same. A gzip input that ends before its data does is an error.",
     ["inputs", "schedules", "configurations"], "all contents, divisions into pieces and into gzip members",
     "All tests hand the whole input over at once, uncompressed but for one; no test has a short read or a second gzip member.",
     ["src/util.rs"], [("recognising compression", "src/util.rs:get_reader"), ("recognising a header", "src/util.rs:TextFileMode::read_header"), ("reading lines", "src/util.rs:TextFileMode::read_line")],
     "p_reading.py", "All contents up to 4 (5) tokens in every division into pieces, all gzip contents up to 3 (5) tokens in every division into members, with free interleaving of arrival and reading at one token less; plus 1500 (10000) sampled longer inputs. Replayed through 23 commands, one piece written only when the previous one has been taken from the pipe. Input given in place: all texts up to 4 (5) of 8 kinds of character, model-checked against the text meant (spec/Inline.tla).",
     observe=["stdout and exit status of the commands fed piece by piece"])
prop("P24", "A transformed field is the composition of its transforms, value by value",
     "In a field list (of cut, or the output list of join), every + after the columns adds a transform: each selected column of each line is written as the transforms applied from left to right to its value, and to nothing else; other columns, the order, the header and the number of lines are those without transforms. lower and upper (also lowercase, uppercase) change case, in ASCII or with utf8. in characters (a byte that can be part of no character counts as the replacement character, which utf8.normspace takes for white space); normspace turns white space into single blanks and drops it at both ends; bytes,RANGES picks those bytes in that order (characters with utf8.); to_base64 and from_base64 encode and decode. A value that cannot be decoded, an unknown transform and a malformed argument are errors, never a crash.",
     ["inputs", "configurations"], "all chains of transforms, values, column selections and lines",
     "Three transforms are unit tested on one or two values; no test runs a chain, utf8 variants or undecodable input through a command.",
     ["src/trans.rs", "src/column.rs"], [("chain of transforms", "src/trans.rs:TransList::trans"), ("parsing field lists", "src/column.rs:ColumnSet::add"), ("fetching transformed columns", "src/column.rs:ColumnSet::fetch")],
     "p_trans.py", "All chains of up to 3 (4) transforms on a set of telling values and 3000 (20000) sampled chains on sampled values; the left-to-right machine is model-checked against the composition; every behaviour replayed through cut, several field lists at once, for lists that leave columns out and for the output columns of join.")
prop("P25", "Numbers in text are read and written with one value everywhere",
     "A text is read as the longest number it starts with: an optional sign, digits, and for real numbers a fraction and an exponent, then one optional suffix k m g t p e z y (powers of 1000) or K M G T P E Z Y (powers of 1024). Its value is that of the digits (real numbers to one part in 10^12; integers beyond the range are clamped), text that starts with no number counts as zero, and where a whole number is demanded, anything left over is an error. Written as plain or float a number reads back as itself, with .N it has N decimals correctly rounded; power2 and power10 write at most three digits and the right suffix, within a tenth.",
     ["inputs", "configurations"], "all texts, numbers, suffixes and formats",
     "Three float texts and a few formats are unit tested; suffixes, long digit strings, junk and rounding at the suffix boundaries are not.",
     ["src/text.rs", "src/num.rs"], [("scan of integers", "src/text.rs:Text::to_usize"), ("scan of reals", "src/text.rs:Text::to_f64"), ("suffix values", "src/num.rs:suffix_valf"), ("writing", "src/num.rs:NumFormat::print")],
     "p_numbers.py", "All texts up to 4 (5) bytes over 10 kinds in three number kinds: the scanner is model-checked against the grammar (longest prefix, one reading); all integers to 12000 (120000) and sampled ones to 2*10^8 for suffix writing; plus 4000 (20000) sampled longer texts. Every text is read through the library in bytes and characters, formats judged on 14000 (140000) values, and sums, calc and sample options run through the program.",
     observe=["values returned by the library's number functions"])
prop("P26", "Named functions are found alike from every thread, whatever was used first",
     "The registries of comparators, line comparators, matchers, aggregators, counters, transforms and generators behave as if their built-in names had always been there: from any number of threads, in any order and as the first use or not, making a built-in name gives that function, never an unknown name. A registration replaces or adds one entry for every later use in any thread and is never lost or undone by another thread's first use; an alias stands for the name it was last given; a name nobody registered is unknown, and the reserved names of modifiers cannot be registered. No combination of such calls blocks forever.",
     ["schedules", "histories", "inputs"], "all interleavings of calls from several threads and all orders of first use",
     "The tests use each registry from one thread at a time and after other tests have filled it.",
     ["src/comp.rs", "src/matcher.rs", "src/agg.rs", "src/trans.rs", "src/textgen.rs"],
     [("comparators", "src/comp.rs:CompMaker"), ("matchers", "src/matcher.rs:MatchMaker"), ("aggregators and counters", "src/agg.rs:AggMaker"), ("transforms", "src/trans.rs:TransMaker"), ("generators", "src/textgen.rs:GenMaker")],
     "p_registry.py", "All interleavings of two threads with one call each (all pairs of calls), of 400 (4000) sampled pairs of up to three calls and 60 (400) triples, step by step with the locks: answers explained by a registry that was never empty, no lost registration, termination; the unguarded variant is shown to fail. Bound by running 5200 (36000) fresh processes with the threads released together; every outcome must be one the specification reaches. Interleavings of the real threads are sampled, not enumerated.",
     observe=["answers of the library's make functions in each thread"])
prop("P27", "Tabs lays files out in columns that fit the screen and cuts as little as needed",
     "Each line shown by tabs has its values in columns of equal position in every line, one blank apart; a column is as wide as its widest shown value if all columns fit the width of the screen, otherwise the widest give way one position at a time, so that the whole width is used and what is cut is shared evenly; a value is cut only where it does not fit its column, at the last character that fits, wide characters counting two. Header names are centred, other values start at the left of their column. One file shows its header and as many first lines as the screen has; several files share the lines, each at least an equal share, without overrunning the screen. Lines with more or fewer values, more columns than the screen is wide, more files than lines and a terminal of unknown size (100 by 24 is used) are all shown, never a crash.",
     ["inputs", "configurations"], "all files, widths of values, screen sizes and numbers of files",
     "The one test of tabs shows a small file on the default screen.",
     ["src/tabs.rs", "src/bin/cdx/tabs_main.rs"], [("layout", "src/tabs.rs:show2"), ("widest column gives way", "src/tabs.rs:dec_max"), ("sharing the screen", "src/bin/cdx/tabs_main.rs:main")],
     "p_tabs.py", "All files of up to 2 lines and 2 columns of widths to 2 (3) on screens of 4 (7) widths and 2 (4) heights, with or without header; 1080 (10800) sampled files, ragged, with wide characters, alone and several at once. The shrinking loop, with free choice among equally wide columns, is model-checked against the declared layout. Replayed through the library on rectangles of any size, through the program without a terminal, and on pseudo terminals of 16 sizes. Not claimed: the title line over each of several files, trailing blanks, control characters, which of equal columns gives way.",
     observe=["lines printed by tabs, by the library on a given rectangle and by the program on a pseudo terminal"])
prop("P28", "Filegen writes exactly the table its options describe",
     "filegen writes as many lines as asked for (10 if not told), each with the columns of the options in order, -m N,spec standing for N columns (a grid column if there is none), and with --with-header first a header naming c1, c2 and so on. In line i and column j a grid column has i_j, a count column its start plus i-1, a null column nothing, an expr column the value of the expression with line = i and col = j in the given format, a decimal column a number with at most the digits of its pattern before and exactly those after the point, negative only if the pattern is signed, and a normal column numbers spread around the mean by the deviation. A malformed option is an error that writes no output, never a crash.",
     ["inputs", "configurations"], "all lists of options, numbers of lines and positions",
     "One test runs one command line; random columns, counting and malformed specs are not tested.",
     ["src/textgen.rs", "src/bin/cdx/filegen_main.rs"], [("one line", "src/textgen.rs:GenList::write"), ("counting", "src/textgen.rs:CountGen"), ("decimal patterns", "src/textgen.rs:DecimalGen"), ("options", "src/bin/cdx/filegen_main.rs:main")],
     "p_filegen.py", "All lists of up to 2 options of 6 generators, 0 to 2 (3) columns each and 0 to 2 (3) lines; 500 (5000) sampled lists of up to 5 options and 30 lines, 12 (60) of 300 lines. The cell-by-cell writer is model-checked against the table. Every behaviour replayed; random columns are judged by their set of values and, over 300 lines, by coverage and spread.")
prop("P29", "A tooltest passes exactly when the command did all it was expected to",
     "A test file passes if and only if its command can be run, ends with the expected status (0 if not told), writes to standard output and to standard error what is expected (nothing if not told; the given text byte for byte, less the last newline after #nonewline, or what a named matcher accepts), makes every expected file with the expected content and leaves no other file or directory. The command is given the standard input and files of the test; comments and the order of the sections do not matter; an unknown directive fails the test. The verdict depends on the test alone, not on the tests run before it; the report counts the tests run, passed and failed, and the exit status is 0 only if none failed.",
     ["inputs", "histories", "faults"], "all test files, behaviours of the tested command and sequences of tests",
     "The repository's own tests run through tooltest, and nearly all of them pass: that failures are noticed, and that one failing test leaves the next alone, is not tested.",
     ["src/tooltest.rs"], [("parsing", "src/tooltest.rs:Test::open"), ("texts", "src/tooltest.rs:grab"), ("run and compare", "src/tooltest.rs:Test::run"), ("report", "src/tooltest.rs:Config::report")],
     "p_tooltest.py", "All single tests over 4 output texts, 2 error texts, 2 (3) statuses, 3 kinds of made files and the same expectations, plus 900 (8000) sampled sequences of up to 6 tests with matchers, stdin, several files, missing programs, kills, left-over files and directories. The line-by-line parser and the run are model-checked against the verdict's definition; the variant with a shared directory is shown to fail. Replayed with shell scripts as the tested commands, alone and in chains of 8.",
     observe=["the report and exit status of tooltest"])
prop("P30", "A zero exit status means all input was read and all output arrived",
     "If a command exits with status 0, it has read its inputs to their end and every byte of its output has arrived where it was to go: standard output, the files named for it, and in between the temporary files of a sort. If a destination takes only part of the output (full disk, size limit, at whatever byte), or an input is missing, damaged or cut short, the command says so on standard error and exits with another status, and what did arrive is a prefix of the right output. A reader that closes the pipe early is no failure: the command stops quietly with status 0. With room for everything it succeeds.",
     ["faults", "inputs"], "all commands, all points at which a destination stops accepting or a source stops delivering",
     "No test makes a write fail; whether the last buffer is flushed, and whether its failure is noticed, shows only then.",
     ["src/util.rs", "src/sort.rs", "src/join.rs", "src/bin/cdx/main.rs"],
     [("writers", "src/util.rs:get_writer"), ("readers", "src/util.rs:get_reader"), ("runs of a sort", "src/sort.rs:Sorter::write_tmp"), ("outputs of a join", "src/join.rs:Joiner::join_quick"), ("status", "src/bin/cdx/main.rs:main")],
     "p_output.py", "All tools of up to 3 (4) pieces of up to 3 units, one, two or spooled outputs, every limit of every device, every point of failure of the source, with and without a reader that goes away; a buffer of 4 units. The variant that does not flush is shown to be refused. Replayed with 34 invocations of the real commands under file size limits, /dev/full, closed pipes and damaged gzip files; the sorter's temporary files are limited in the library.",
     observe=["exit status, standard output, standard error and output files of the cdx command", "result of the library sorter"])
prop("P31", "A command line means the same however it is spelled; bad ones are refused",
     "Every way of writing the same options and files gives the same result: long and short names, the value as the next word, after = or glued to the short name, flags in one cluster, options before, between or after the files, and -- in front of the files. Files are taken in the order given, also when one is given twice; all words after -- are files even if they look like options, and no file means standard input. Of an option that may be repeated every occurrence counts, in order; of one that takes a single setting the last counts; a flag given twice is given. A tool or option that does not exist, an option without its value, also when it is a repeated one, a flag with a value, a value that makes no sense for its option and more files than the tool takes are refused with a message, another status than 0 and no output.",
     ["inputs", "configurations"], "all command lines and all ways of spelling them",
     "The tests write each command in one way; none repeats an option, leaves out a value or has a file that looks like an option.",
     ["src/bin/cdx/args.rs", "src/bin/cdx/main.rs", "src/bin/cdx/globals.rs"],
     [("collecting options", "src/bin/cdx/args.rs:get_arg"), ("parsing", "src/bin/cdx/args.rs:parse"), ("choosing the tool", "src/bin/cdx/main.rs:inner_main"), ("options of every tool", "src/bin/cdx/globals.rs:Settings::consume")],
     "p_args.py", "All commands of up to 3 items (files, two flags, a repeatable and a last-counts option, 2 (3) values) in every spelling, all of up to 2 items followed by an unknown option, a missing value, a flag with a value or a senseless value, tools that take no, one or many files, and 25 (200) sampled commands of up to 5 items: the token-by-token parser is model-checked against the meaning of the command. 6000 (46000) spellings are run, with the options of 17 tools put in, and must give the status and output of the plainest spelling of what counts.",
     observe=["exit status, standard output and standard error of the cdx command"])
prop("P32", "Library column sets and values per column mean the columns their specs name",
     "For users of the library: a ColumnSet made from any spec gives, looked up in any list of names, the same columns by every call (lookup_cols, get_cols_num, lookup1 if it is one column, select, select_sloppy, write, write2, write3, write3s, write_sloppy), in the order of the spec, and picks them from a line of any length; for columns the line lacks the strict calls fail and the others write the filler or nothing, and nothing is picked before a lookup. ScopedValues gives each column the last value whose columns include it, otherwise the default, tells which have one, and gives the same as integers and reals; a value for a column that does not exist is an error. A later lookup in other names replaces the earlier one. No call panics.",
     ["inputs", "configurations", "histories"], "all column specs, lists of names, lines of any length and sequences of values",
     "Doc tests look up a few specs in one list of names; lines of other lengths, overlapping values and second lookups are not tested.",
     ["src/column.rs"], [("column sets", "src/column.rs:ColumnSet"), ("values per column", "src/column.rs:ScopedValues::lookup"), ("one value", "src/column.rs:ScopedValue::new")],
     "p_scoped.py", "All single and pairs of values with 24 kinds of items over 1 or 2 columns (up to 4 of columns and pieces together in thorough) and 2500 (20000) sampled specs and name lists, lines of 6 lengths; resolution piece by piece is model-checked against the last-value meaning. 30000 (240000) calls sequences are run through the library. Not claimed: values with a leading delimiter, the value of columns beyond the last name.",
     observe=["columns and values returned by the library's ColumnSet and ScopedValues"])
prop("P33", "A shortened file name is exactly the last parts asked for",
     "binsearch --filename and cgrep --location name.N write, in front of each line they output, the file's name shortened to its last N parts between slashes, the whole name if it has no more or if no number (or 0) is given, under the column name given or the default one. A final slash does not count as a part. The library's tail, tail_path, head and head_path give the first or last N delimited parts of any text, as bytes and as characters alike, and 0 parts are nothing.",
     ["inputs", "configurations"], "all names, delimiters and numbers of parts",
     "Unit tests take parts of two or three short texts; no test runs the commands on a name with directories.",
     ["src/text.rs", "src/bin/cdx/binsearch_main.rs", "src/util.rs"], [("parts of a text", "src/text.rs:Text::tail_path_u8"), ("file name column of binsearch", "src/bin/cdx/binsearch_main.rs:main"), ("file location of cgrep", "src/util.rs:FileLocItem::write_data")],
     "p_paths.py", "All texts up to 7 (10) characters and 4 (6) parts, plus 1500 (10000) sampled longer ones; the scan is model-checked against the parts. Replayed through the library as bytes and text, and through both commands on files in directories of those names.",
     observe=["stdout of binsearch -H and cgrep -l; results of the library functions"])
prop("P34", "A Reader shows each line with its columns, its place and the lines before it",
     "For users of the library, and through it every command: a Reader opened on a file shows the header and column names, then each line of the file exactly once in order, as it is in the file and divided into its columns, with its number, the byte offset at which it starts and the name of the file; the lines before it, as many as the Reader was made to keep, are still there, empty ones before the first line; after the last line it is done. All of that in every text mode, compressed or not, with or without a final line break. Opened on another file at any point, it is as a new Reader. cgrep --location writes these places in front of the lines it selects, separated like the columns.",
     ["inputs", "configurations", "histories"], "all files, text modes, numbers of lines kept and sequences of files opened after any number of lines",
     "One test reads two lines; looking back further than one line, opening a second file and places in quoted files are never tested.",
     ["src/util.rs", "src/bin/cdx/cgrep_main.rs"], [("next line", "src/util.rs:Reader::getline"), ("opening", "src/util.rs:Reader::open"), ("lines before", "src/util.rs:Reader::prev_line"), ("place", "src/util.rs:FileLocList::write_data")],
     "p_reader.py", "All pairs of files up to 2 lines of 2 (3) lengths, the first left after any line, keeping 0 to 2 (3) lines, and 1200 (8000) sampled sequences of up to 4 files; the ring of lines is model-checked against the file. 3300 (18000) sequences of calls are run through the library and 1200 (8000) files through cgrep --location, in 3 quotings, 3 delimiters and 2 line breaks. Not claimed: offsets where the header is skipped (header mode s), a call after the end.",
     state=[("lines, curr", "the ring of lines in view", "src/util.rs:Reader"), ("loc", "where the current line is", "src/util.rs:Reader")],
     observe=["what the library's Reader returns after each call", "stdout of cgrep --location"])
