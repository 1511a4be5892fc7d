GEN = "Evidence, not proof: seeded random search with shrinking over grammar-generated programs and configurations; the oracle is an independent reference lexer and parser for Lua 5.3. Configurations that remove spaces or newlines are combined with replace_zero_spaces_with_hint, and hints are whitespace (other values rewrite the code on purpose)."

prop("P01", "Formatting never changes the code",
     "For every valid Lua 5.3 program and every configuration made of layout options (alone or with a line range), the formatted text is a valid program with exactly the same sequence of tokens. Only a table's field separators may be exchanged for the configured one, its trailing separator may come or go, and quotes of strings may change to the other kind with the same value.",
     ["programs", "configurations"], "all valid programs x all configurations of whitespace hints, newline, indentation, single-line, separator and quote options",
     "The tests fix about a hundred short programs with one or two options each; a token joined or dropped under an unusual combination of neighbouring tokens, comments and options is never sampled.",
     ["src/parser/lua_ast.rs", "src/parser/lua_lexer.rs", "src/parser/lua_syntax.lalrpop", "src/formatting/list.rs", "src/formatting/loc_hint.rs", "src/formatting/reconstruction.rs", "src/formatting/util.rs"],
     [("ConfiguredWrite of every syntax node", "src/parser/lua_ast.rs"), ("lists with separators", "src/formatting/list.rs"), ("space and comment hints between tokens", "src/formatting/loc_hint.rs")],
     "property-based testing: generated program x configuration, token-sequence equality by a reference lexer", GEN)

prop("P02", "Comments survive formatting",
     "Unless comment removal is requested, every comment of the input is in the output, in the same order, of the same kind (one-line, or long with the same bracket level) and between the same two tokens. Its text is unchanged except that a configured hint replaces the space at its start or end.",
     ["programs", "configurations"], "all valid programs with comments in every gap between tokens x all layout configurations without comment removal",
     "Tests place comments in a few hand-picked gaps; there are several hundred kinds of gaps and dozens of options that act on them.",
     ["src/formatting/loc_hint.rs", "src/parser/comment_ast.rs", "src/parser/comment_lexer.rs", "src/parser/comment_syntax.lalrpop", "src/parser/lexer_util.rs", "src/parser/lua_ast.rs"],
     [("comment block between two tokens", "src/formatting/loc_hint.rs"), ("comment nodes", "src/parser/comment_ast.rs")],
     "property-based testing: generated commented programs, comment list compared by gap, kind and text", GEN)

prop("P03", "Comment removal removes exactly the comments",
     "With comment removal on (and zero spaces replaced by a hint), the output contains no comment, and its token sequence and shebang line are those of the input.",
     ["programs", "configurations"], "all valid programs with comments x all layout configurations with remove_comments",
     "Tests sample a few positions; removal may join two tokens or leave a comment in any of the gaps the tests do not touch.",
     ["src/parser/comment_ast.rs", "src/formatting/loc_hint.rs", "src/parser/lua_ast.rs"],
     [("remove_comments", "src/parser/comment_ast.rs"), ("replace_zero_spaces_with_hint", "src/formatting/loc_hint.rs")],
     "property-based testing: reference lexer finds no comment and the same tokens", GEN)

prop("P04", "Without options nothing changes",
     "With no option set, formatting any valid program gives back the same bytes; a comment or shebang line that ends the file without a newline gets that newline and nothing else.",
     ["programs"], "all valid programs with arbitrary whitespace and comments between tokens",
     "The tests check a fixed list of programs; every gap of every syntax form must be written back verbatim.",
     ["src/parser/lua_ast.rs", "src/formatting/loc_hint.rs", "src/formatting/list.rs", "src/parser/comment_ast.rs", "src/parser/common.rs", "src/parser/lua_syntax.lalrpop"],
     [("verbatim copy of the text between tokens", "src/parser/common.rs"), ("positions recorded by the grammar", "src/parser/lua_syntax.lalrpop")],
     "property-based testing: byte identity (round trip)", GEN)

prop("P05", "Every valid program is accepted",
     "Every syntactically valid Lua 5.3 program is formatted, under every configuration, without an error.",
     ["programs", "configurations"], "all valid Lua 5.3 programs x all layout configurations",
     "The grammar is infinite and the hand-written grammar and lexer have many special cases; tests cover each production once.",
     ["src/parser/lua_syntax.lalrpop", "src/parser/lua_lexer.rs", "src/parser/lexer_util.rs", "src/parser/comment_syntax.lalrpop"],
     [("grammar", "src/parser/lua_syntax.lalrpop"), ("lexer", "src/parser/lua_lexer.rs")],
     "property-based testing: grammar-based generation of valid programs, acceptance", GEN + " The forms listed in known_findings.txt are left out by construction and probed one by one.")

prop("P06", "No input and no option value crashes the formatter",
     "For every text and every combination of option values (also malformed, huge or contradictory ones), formatting ends with a text or with a parsing error, never with a panic or an internal formatting error, and a second run on the same input gives the same result.",
     ["texts", "configurations"], "all Unicode texts x all values of all options and line ranges",
     "Crashes hide in combinations of option values, multi-byte characters and positions; tests only use sane values and mostly ASCII.",
     ["src/formatter.rs", "src/config.rs", "src/parser/common.rs", "src/parser/lua_lexer.rs", "src/parser/lexer_util.rs", "src/formatting/util.rs", "src/formatting/loc_hint.rs", "src/formatting/reconstruction.rs", "src/formatting/decoration.rs"],
     [("character to byte positions", "src/formatting/reconstruction.rs"), ("width and range arithmetic", "src/formatting/util.rs")],
     "property-based testing and fuzzing: lexeme soup, damaged and valid programs x arbitrary option values; crash and determinism oracle",
     "Evidence, not proof: seeded random search with shrinking. Deeply nested programs are run without the single-line options, whose cost is exponential in the nesting depth.")

prop("P07", "Invalid programs are rejected",
     "Text that is not a valid program (by a reference grammar that already allows luafmt's documented leniencies) is reported as a parsing error with a message; no formatted text is produced.",
     ["texts"], "all texts obtained from valid programs by deleting, duplicating, replacing, swapping or inserting a token or a malformed lexeme, at every position",
     "Tests hold a few dozen malformed snippets; a grammar change that silently drops what it cannot parse would go unnoticed.",
     ["src/parser/lua_syntax.lalrpop", "src/parser/lua_lexer.rs", "src/parser/lexer_util.rs", "src/parser/comment_syntax.lalrpop", "src/parser/mod.rs", "src/formatter.rs"],
     [("grammar", "src/parser/lua_syntax.lalrpop"), ("lexer errors", "src/parser/lexer_util.rs")],
     "property-based testing: mutation of valid programs, rejection compared with a lenient reference parser",
     "Evidence, not proof: seeded random search with shrinking. What luafmt lets through by design (expression statements, calls as assignment targets, '...' anywhere in a parameter list, raw newlines in quoted strings, some malformed numerals) is not claimed to be rejected.")

prop("P28", "Parsing errors name the place",
     "The message for an invalid program names the first token the text before it cannot be continued with, and its place (first and one past its last character, counted in characters from 0), or the end of the file when the program is incomplete; a symbol that starts no token is named with its place, and a string or comment without an end is reported as an unexpected end of file.",
     ["texts"], "all invalid texts: lexeme soup, damaged programs, programs with a deleted, duplicated, replaced, swapped or inserted token or malformed lexeme",
     "Tests only check that a few snippets are refused; where an error is reported depends on every token of the text before it.",
     ["src/parser/lua_lexer.rs", "src/parser/lexer_util.rs", "src/parser/lua_syntax.lalrpop", "src/formatter.rs"],
     [("positions and names of tokens", "src/parser/lua_lexer.rs"), ("ends of tokens", "src/parser/lexer_util.rs"), ("grammar", "src/parser/lua_syntax.lalrpop")],
     "property-based testing: place of the first impossible token computed by a reference parser",
     "Evidence, not proof: seeded random search with shrinking. Not claimed for malformed numerals, hexadecimal fractions, '[=' and '#!' inside of the text, which luafmt reads in its own way.")

prop("P08", "Formatting is idempotent",
     "Formatting the output again with the same configuration gives the same text, for configurations that replace the whitespace of the input (the shipped default and every configuration that removes spaces and newlines).",
     ["programs", "configurations"], "all programs without comments x whitespace-normalising configurations (text shorter than twice max_width); with comments for the shipped newline and hint options without a width limit",
     "Stability is a property of the composition of all writers with the parser; the tests format once.",
     ["src/parser/lua_ast.rs", "src/formatting/list.rs", "src/formatting/decoration.rs", "src/formatting/loc_hint.rs", "src/parser/comment_ast.rs"],
     [("newlines and indentation", "src/formatting/decoration.rs"), ("one-line attempts", "src/parser/lua_ast.rs")],
     "property-based testing: metamorphic relation f(f(x)) = f(x)",
     GEN + " Constructs longer than twice max_width are outside of the claim: luafmt decides by the length of the source text not to try them on one line.")

prop("P09", "The layout does not depend on the whitespace of the input",
     "Two programs with the same tokens and different whitespace are formatted to the same text by every configuration that removes spaces and newlines.",
     ["programs", "whitespace", "configurations"], "all token sequences x pairs of whitespace layouts x whitespace-normalising configurations (text shorter than twice max_width)",
     "The tests never compare two layouts of the same code.",
     ["src/parser/lua_ast.rs", "src/formatting/loc_hint.rs", "src/formatting/list.rs", "src/parser/comment_ast.rs"],
     [("space between tokens", "src/formatting/loc_hint.rs"), ("newlines between comments", "src/parser/comment_ast.rs")],
     "property-based testing: metamorphic relation over pairs of whitespace layouts", GEN)

prop("P10", "A line range leaves the rest of the file alone",
     "With line_range=l:r, everything before and after the selected lines, extended to whole top-level statements and the space between them, is byte for byte the same as in the input; only write_newline_at_eof may still complete the end of the file.",
     ["programs", "configurations", "line ranges"], "all programs with comments x all layout configurations x all line ranges",
     "Tests use a few ranges over two or three files; every kind of statement must respect a range boundary at every position.",
     ["src/formatting/util.rs", "src/formatting/reconstruction.rs", "src/formatting/loc_hint.rs", "src/formatting/list.rs", "src/parser/lua_ast.rs", "src/config.rs"],
     [("range extension to whole statements", "src/formatting/reconstruction.rs"), ("verbatim copy outside of the range", "src/formatting/util.rs")],
     "property-based testing: prefix and suffix equality with the range computed by a reference parser", GEN)

prop("P11", "A line range formats the selected statements like the whole file",
     "With a line range, every selected top-level statement comes out as it does when the whole file is formatted (when it starts in the same column); so does the gap between two selected neighbours; a range of all lines gives the same text as no range.",
     ["programs", "configurations", "line ranges"], "all programs x all layout configurations x all line ranges",
     "Tests use a few ranges over two or three files.",
     ["src/formatting/util.rs", "src/formatting/reconstruction.rs", "src/formatting/loc_hint.rs", "src/formatting/list.rs", "src/parser/lua_ast.rs"],
     [("range extension to whole statements", "src/formatting/reconstruction.rs"), ("positions inside comments", "src/formatting/loc_hint.rs")],
     "property-based testing: differential between the ranged and the whole run, statement by statement", GEN)

LAYOUT = "Evidence, not proof: seeded random search with shrinking over grammar-generated programs and configurations. The oracle is an independent reference layout (harness/src/layout.rs) which computes every gap between two tokens from the reference syntax tree and the configuration; each layout property compares the gaps of its own kind."
AST = ["src/parser/lua_ast.rs", "src/formatting/list.rs", "src/formatting/decoration.rs", "src/formatting/util.rs", "src/formatting/reconstruction.rs"]

prop("P12", "Statement layout",
     "With the whitespace of the input replaced, line breaks and indentation of statements follow the options: newline_format_statement puts every statement of a block on a new line (after a ';' too); newline_format_do_end, _for, _function, _if, _repeat_until and _while = 1 put the body of that construct, and its 'else', 'elseif', 'until' and 'end', on new lines, other values do not; every line is indented by indentation_string once for each enclosing block; tokens on the same line are separated by one space or by none, the same way for every occurrence of a construct; write_newline_at_eof completes the end of the file.",
     ["programs", "configurations"], "all programs without comments x all configurations that remove spaces and newlines, with and without a width limit; nested blocks of any kind and depth",
     "Tests use one construct and one or two options at a time; indentation and line breaks result from the nesting of all of them.",
     AST, [("blocks and statement lists", "src/parser/lua_ast.rs"), ("newlines and indentation", "src/formatting/decoration.rs"), ("spaces between tokens", "src/formatting/loc_hint.rs")],
     "property-based testing: gap-by-gap comparison with a reference layout", LAYOUT)

prop("P13", "Table layout",
     "Table constructors follow the options: with newline_format_table_field every field is on its own line, one level further in; newline_format_table_constructor = 1 puts the closing bracket on its own line; hint_table_constructor stands inside of the brackets of a table that stays on its line; field_separator replaces ',' and ';'; write_trailing_field_separator adds or removes the separator after the last field; write_newline_at_multiline_table breaks the line before a table, write_newline_at_explist_multiline_table only before one that is a further element of an expression list; an empty table stays '{}'.",
     ["programs", "configurations"], "all programs with tables (nested, empty, in calls, in expression lists) x all configurations that remove spaces and newlines, with and without a width limit",
     "Tests fix some twenty tables; separators, hints and line breaks depend on the position of the field, on the context of the table and on several options at once.",
     AST, [("table constructors and fields", "src/parser/lua_ast.rs"), ("lists with separators", "src/formatting/list.rs")],
     "property-based testing: gap-by-gap and separator comparison with a reference layout", LAYOUT)

prop("P14", "Expression layout",
     "Binary operators, expression lists and variable suffixes follow the options: newline_format_binary_op = 1 breaks the line before every operator and 2 behind it; newline_format_exp_list = 1 before every further element of a list, newline_format_exp_list_first = 1 before the first one; newline_format_var_suffix before every '.name' and ':method'; operands, list elements and suffixes on their own lines are indented one level (lists and suffixes with indent_exp_list and indent_var_suffix, in the indent_one_line_ variants also those without a line break); the indentation returns to what it was behind the construct.",
     ["programs", "configurations"], "all programs with operators, calls, indexes and lists x all configurations that remove spaces and newlines, with and without a width limit",
     "Tests fix a few chains and lists; indentation is a state carried through nested expressions, functions and tables.",
     AST, [("operators, suffixes and expression lists", "src/parser/lua_ast.rs"), ("list decoration", "src/formatting/list.rs"), ("indentation", "src/formatting/decoration.rs")],
     "property-based testing: gap-by-gap comparison with a reference layout", LAYOUT)

prop("P15", "Single-line layout and max_width",
     "With max_width, what a force_single_line_ option is on for (operators, tables and their fields, if, functions, suffixes, expression lists) is written without the line breaks of its newline_format_ options when its line then has less than max_width characters (with what precedes it, tabs and multi-byte characters included as one), and with these line breaks otherwise. Constructs whose option is off, and those whose source is twice max_width long or longer, are laid out as without max_width.",
     ["programs", "configurations"], "all programs with comments x all configurations with every max_width and every set of force_single_line options",
     "Whether a construct fits depends on all that is around and inside it; the tests hold a few samples, most with one nesting level.",
     AST, [("one-line attempts", "src/parser/lua_ast.rs"), ("width computation", "src/formatting/util.rs")],
     "property-based testing: gap-by-gap comparison with a reference layout", LAYOUT + " Deeply nested programs are left out (the cost of luafmt is exponential in the nesting depth there).")

prop("P16", "What is not asked to change stays as it is",
     "Whitespace the options do not replace is written back as it is: without remove_spaces_between_tokens blanks between tokens are kept, without remove_all_newlines blank lines are kept and without remove_single_newlines single line breaks are kept too; a line break or a hint comes in only where an option asks for it, and a space where there was none only with replace_zero_spaces_with_hint.",
     ["programs", "whitespace", "configurations"], "all programs with arbitrary whitespace (blanks, tabs, CR, form feeds, blank lines) x all configurations that keep some of it, with and without a width limit",
     "The tests use tidy sources; the effect of an option on unusual whitespace in the several hundred kinds of gaps is never sampled.",
     ["src/formatting/loc_hint.rs", "src/formatting/util.rs", "src/formatting/list.rs", "src/formatting/decoration.rs", "src/parser/lua_ast.rs"],
     [("space between tokens", "src/formatting/loc_hint.rs"), ("newline options", "src/formatting/util.rs")],
     "property-based testing: gap-by-gap comparison with a reference layout", LAYOUT)

prop("P17", "Comment layout",
     "Comments follow the options: hint_before_comment, hint_after_multiline_comment and the _text hints give the blanks around and inside of comments; newline_format_first_oneline_comment and newline_format_first_multiline_comment = 1 put the first comment of a gap on a new line, newline_format_oneline_comment and newline_format_multiline_comment = 1 the further ones; comments on a new line are indented like the code there; a one-line comment is always followed by a line break.",
     ["programs", "configurations"], "all programs rich in comments (several of both kinds in one gap, in every kind of gap) x all configurations with comment options, with and without a width limit",
     "Tests place comments in a few gaps; the effect depends on the gap, on the comment before and after and on some fifteen options.",
     ["src/parser/comment_ast.rs", "src/parser/comment_syntax.lalrpop", "src/parser/comment_lexer.rs", "src/formatting/loc_hint.rs", "src/formatting/decoration.rs", "src/parser/lua_ast.rs"],
     [("comment nodes", "src/parser/comment_ast.rs"), ("comment block between two tokens", "src/formatting/loc_hint.rs")],
     "property-based testing: gap-by-gap comparison with a reference layout", LAYOUT)

prop("P18", "Quote conversion keeps the values of strings",
     "With convert_charstring_to_normalstring every literal in single quotes becomes one in double quotes with the same value (double quotes inside are escaped, other escapes are kept); other literals, and all literals without the option, are unchanged.",
     ["string literals", "configurations"], "all programs with string literals of every escape, quote and non-ASCII character x all layout configurations",
     "Quoting is a small language of its own: runs of backslashes before quotes, escaped line ends, \\z, \\x, \\u; tests hold a handful of literals.",
     ["src/parser/lua_ast.rs", "src/parser/lua_lexer.rs", "src/parser/lexer_util.rs", "src/formatting/util.rs"],
     [("string literals", "src/parser/lua_ast.rs"), ("literals in the lexer", "src/parser/lua_lexer.rs")],
     "property-based testing: differential with a reference conversion and comparison of decoded values", GEN)

CLI = "Evidence, not proof: seeded random search with shrinking. The program is luafmt's own main.rs, rebuilt from /repo, run as an unprivileged user in a scratch directory that is removed afterwards."

prop("P19", "Configuration files set what they say",
     "Reading a configuration file has the same effect as setting, in the order of the file, every option that a top-level assignment of a number, string (with its escape sequences decoded) or boolean literal names; earlier settings stay unless they are overwritten; an invalid value leaves the option as it was; unknown names, comments, local variables, function bodies and other Lua code have no effect; a file that is no Lua program is reported and changes nothing; the settings are displayed as they are.",
     ["configuration files", "settings made before"], "all Lua files made of assignments in every notation (quotes, escapes, comments, separators, shebang, final return) and of other statements",
     "The tests load a handful of files; every one of the fifty options has its own name, type and field, and a Lua file can say the same thing in many ways.",
     ["src/config.rs", "src/parser/lua_syntax.lalrpop"],
     [("reload_format_from_file and set", "src/config.rs")],
     "property-based testing: differential between the loaded file and option-by-option settings", GEN.split(';')[0] + "; the oracle is the list of settings the file was generated from.",
     ["Config::reload_format_from_file", "Config::set", "Display of Config"])

prop("P20", "Command-line options do what the settings do",
     "Formatting standard input with any list of --name=value arguments gives what the library gives for the valid ones among them (the last one of a name counts); invalid values, unknown names and unrecognized arguments are reported on standard error one by one and have no other effect; -i and -r change nothing there; -v adds text before the output only and shows the settings.",
     ["argument lists", "programs"], "all lists of valid, invalid, unknown and repeated options and flags, in any order",
     "Tests check a few argument lists against the parsed structure and never run the program.",
     ["src/main.rs", "src/config.rs", "src/formatter.rs"],
     [("argument parsing", "src/main.rs"), ("set", "src/config.rs")],
     "property-based testing: differential between the program and the library", CLI, ["luafmt program"])

prop("P21", "Each file is formatted with the nearest configuration",
     "Without format options on the command line every file is formatted with the .luafmt*.lua file of its own directory or else of the nearest directory above it (of the place a link leads to); line_range is kept; files without such a configuration, or with an invalid one, are reported and not formatted; with a format option on the command line no configuration file is used.",
     ["directory trees", "arguments"], "all trees with configuration files at any levels x path arguments (relative, absolute, through '..' and links) x options",
     "The tests look up a configuration in one fixed tree.",
     ["src/file_util.rs", "src/formatter.rs", "src/config.rs", "src/main.rs"],
     [("get_file_config", "src/file_util.rs"), ("process_file", "src/formatter.rs")],
     "property-based testing: model of the lookup over generated directory trees", CLI, ["luafmt program"])

prop("P22", "The right files are formatted",
     "A file argument stands for that file whatever its name; a directory stands for its regular files with the extension lua, with -r also for those of all directories below, without the files whose names start with .luafmt; paths are handled in sorted order, a missing path is reported, and the others are still handled.",
     ["directory trees", "arguments"], "all trees with all sorts of names, nested directories (also ones named like files) and links x path arguments x -r",
     "The tests list one fixed tree.",
     ["src/file_util.rs", "src/main.rs"],
     [("get_path_files", "src/file_util.rs"), ("main", "src/main.rs")],
     "property-based testing: model of the selection over generated directory trees, library and program", CLI, ["luafmt program", "get_path_files"])

prop("P23", "In-place formatting only writes formatted files",
     "With -i every selected file that can be formatted then holds exactly the formatted text; files with errors (no Lua program, not UTF-8, unreadable, read-only, no or an invalid configuration) keep every byte, are reported by name and do not keep the others from being formatted; nothing else in the tree changes (other files, modes, links) and nothing goes to standard output; without -i no file changes.",
     ["directory trees", "file contents and modes", "arguments"], "all trees with good and bad files, links to files and repeated arguments x options",
     "The tests never run the program; what happens to a user's files in a mixed tree is decided nowhere.",
     ["src/main.rs", "src/formatter.rs", "src/file_util.rs"],
     [("process_file_path", "src/main.rs"), ("process_file", "src/formatter.rs")],
     "property-based testing: comparison of the whole tree before and after with a model", CLI + " An interrupted write or a full disk is not covered: luafmt writes in place and makes no promise about it.", ["luafmt program"])

prop("P24", "All ways to run the formatter agree",
     "For any bytes and any configuration the library on a buffer and on a file, and the program on standard input, on a file, in place, with -v and with the options in a configuration file give the same text, or all report an error and give none.",
     ["texts", "configurations"], "all byte strings (programs, damaged programs, invalid UTF-8, empty, larger than a pipe buffer) x all configurations and line ranges",
     "The tests call one library function.",
     ["src/main.rs", "src/formatter.rs", "src/config.rs", "src/file_util.rs"],
     [("main", "src/main.rs"), ("process_file and process_buffer_with_config", "src/formatter.rs")],
     "property-based testing: differential between eight ways to run", CLI, ["luafmt program", "process_file", "process_buffer_with_config"])

prop("P25", "Names and texts matter only by their width",
     "When the identifiers of a program are replaced by others of the same length and the letters in its strings and comments by other characters (also ones of several bytes), the output is the old output with the same replacements, under every configuration, with max_width and line_range too.",
     ["programs", "replacements", "configurations"], "all programs with comments x all layout configurations and line ranges",
     "Positions and widths are counted in characters and text is cut in bytes; tests hold little non-ASCII text.",
     ["src/formatting/util.rs", "src/formatting/reconstruction.rs", "src/parser/common.rs", "src/formatting/loc_hint.rs", "src/parser/lua_lexer.rs", "src/parser/comment_lexer.rs", "src/parser/lua_ast.rs"],
     [("character to byte positions", "src/formatting/reconstruction.rs"), ("substr", "src/parser/common.rs"), ("widths", "src/formatting/util.rs")],
     "property-based testing: metamorphic relation under renaming", GEN)

prop("P26", "Statements are formatted independently of each other",
     "With newline_format_statement and the whitespace of the input replaced, formatting two programs put one after the other gives their two outputs joined by a line break, and formatting a program without comments inside of a block of any kind gives (without a width limit) its output with every line one indentation further in.",
     ["pairs of programs", "blocks", "configurations"], "concatenation: all pairs of programs with comments between their tokens; nesting: all programs without comments; x all configurations that remove spaces and newlines",
     "Indentation, nesting levels and one-line attempts are state carried from statement to statement; tests hold short programs.",
     AST, [("statement lists", "src/parser/lua_ast.rs"), ("indentation state", "src/formatting/decoration.rs")],
     "property-based testing: metamorphic relation under concatenation and nesting", GEN)

prop("P27", "The time grows in proportion to the input",
     "Repeating a construct (statements, fields, arguments, comments, elseif branches, method calls, long literals) sixteen times as often takes about sixteen times as long (less than 80 times), not its square.",
     ["programs", "configurations"], "sequences of any generated statements, of table fields, arguments, comments, branches, calls and literal text of up to some ten thousand characters x all layout configurations",
     "The tests hold short texts; quadratic work only shows in files of real size.",
     ["src/config.rs", "src/formatting/reconstruction.rs", "src/formatting/util.rs", "src/formatting/list.rs", "src/parser/lua_ast.rs", "src/parser/common.rs", "src/parser/comment_lexer.rs", "src/parser/lua_lexer.rs"],
     [("state copied for one-line attempts", "src/config.rs"), ("index of characters", "src/formatting/reconstruction.rs")],
     "property-based testing: metamorphic relation on processor time under repetition", "Evidence, not proof: seeded random search. Processor time of the thread, best of three, with a wide margin. Nesting is not covered: the time doubles with every level of nested tables and calls (known finding).")

prop("P29", "Options act only on the constructs they name",
     "An option that is about a kind of construct (while, for, repeat, do blocks, if, functions, tables, binary operators, call and member suffixes, lists of expressions, comments, strings in single quotes) changes nothing in a program without such a construct, whatever the other options are; and without max_width, the options that put an operator expression, if, function, suffix chain or list of expressions on a single line change nothing.",
     ["programs", "pairs of configurations", "line ranges"], "all programs that lack at least one of the kinds of constructs x all pairs of configurations that differ only in options of the kinds they lack",
     "Tests set an option to look at its own effect; that it leaks to another construct or is read in place of another one shows only for the pairs nobody thought of.",
     AST + ["src/formatting/list.rs", "src/formatting/loc_hint.rs", "src/parser/comment_ast.rs"],
     [("options read by each construct", "src/parser/lua_ast.rs"), ("comments", "src/parser/comment_ast.rs"), ("lists", "src/formatting/list.rs")],
     "property-based testing: metamorphic relation between configurations", GEN)
