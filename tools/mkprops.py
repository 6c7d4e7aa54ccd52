#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (the single place where
the property texts are maintained)."""
import json
import os

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe=None,
         state=None):
  P.append({
      "id": pid, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {
          "files": files,
          "state": [dict(name=n, meaning=m, where=w) for n, m, w in state or []],
          "mechanism": [dict(name=n, where=w) for n, w in mech],
          "observe_at": observe or ["cmake-format output text"],
          "hook_needed": None}})


FM = "cmakelang/format/__main__.py"
FF = "cmakelang/format/formatter.py"
LX = "cmakelang/lex/__init__.py"
AN = "cmakelang/parse/argument_nodes.py"
BN = "cmakelang/parse/body_nodes.py"
SN = "cmakelang/parse/statement_node.py"
SI = "cmakelang/parse/simple_nodes.py"
AD = "cmakelang/parse/additional_nodes.py"
PU = "cmakelang/parse/util.py"
FUNS = "cmakelang/parse/funs/"
MK = "cmakelang/markup.py"
CU = "cmakelang/config_util.py"
CF = "cmakelang/configuration.py"
LM = "cmakelang/lint/__main__.py"
LB = "cmakelang/lint/basic_checker.py"
LU = "cmakelang/lint/lint_util.py"
LD = "cmakelang/lint/lintdb.py"

prop("C01", "Formatting never changes what the listfile means",
     "For every valid listfile and every configuration, the formatted text is valid CMake and holds the same commands in the same order with the same arguments: same number, same kind (unquoted, quoted, bracket), same content, same parentheses. Only letter case of command names, letter case of keywords when keyword_case asks for it, order inside argument lists that were asked to be sorted, and line endings inside multi-line arguments may differ. Executing the original and the formatted text with the real cmake gives the same observable result.",
     ["inputs", "configurations", "programs"],
     "all listfiles in the accepted CMake grammar (builtin, module and unknown commands, nested control flow, all argument kinds, comments anywhere, any whitespace) times all formatting configurations",
     "The tests compare a few hundred literal inputs against literal outputs, mostly with the default configuration; argument loss, splitting or reordering for other argument kinds, commands, widths or comment positions is out of their reach.",
     [LX, FF, AN, SN, BN, AD, SI, FUNS],
     [("tokenize: one token per argument", LX), ("per-command argument parsers build a tree of all tokens", FUNS + ", " + AN),
      ("ScalarNode.write prints the spelling of each token", FF)])

prop("C02", "Comments are never lost, duplicated, reordered or leaked into code",
     "Every word of every comment of the input appears exactly once and in order in the comments of the output, a comment never swallows code and code never becomes a comment. A comment keeps its place relative to the commands: comments before, inside and after a statement stay before, inside and after it, and bracket comments keep their text.",
     ["inputs", "configurations"],
     "all placements of line, trailing, explicit-trailing and bracket comments (between statements, between, before and after arguments, around parentheses, at scope starts and ends, at end of file without newline) times comment texts times configurations",
     "Comment placement interacts with every argument parser and every wrapping decision; the tests hold a few dozen placements.",
     [SI, AD, AN, SN, FF, MK],
     [("consume_trailing_comment / consume_comment attach each comment token to a tree node", SI + ", " + PU),
      ("has_terminal_comment forces a line break after a line comment", FF)])

prop("C03", "Formatting is idempotent",
     "For every valid listfile and every configuration, formatting the formatted text again with the same configuration returns it unchanged. In particular a file just formatted passes --check.",
     ["inputs", "configurations"],
     "all accepted listfiles times formatting configurations",
     "The test-suite checks single inputs for a fixed expected output; a second application is only tried on a handful of already formatted snippets.",
     [FF, MK, "cmakelang/common.py"],
     [("layout is computed from the token tree only, not from the input layout", FF),
      ("stable_wrap iterates the comment wrapper to a fixed point", "cmakelang/common.py")])

prop("C04", "Regions between format off and on are copied byte for byte",
     "The text between a '# cmake-format: off' and the next '# cmake-format: on' comment (long or short tag spelling), at any nesting depth, appears in the output exactly as in the input, whatever it contains (multi-byte text, byte order mark before it, strange spacing, tabs) and whatever is configured. An 'off' that is never switched on protects the rest of the file, and nothing outside the regions is affected by their presence.",
     ["inputs", "configurations"],
     "all listfiles with zero or more regions at any statement position, with arbitrary valid code and comments inside, times encodings, line endings and configurations",
     "Tests hold three literal inputs in ASCII; the byte-offset arithmetic depends on everything before the region.",
     [FF, LX, BN],
     [("OnOffSwitchNode.write copies the slice of the input file by byte offset", FF),
      ("token begin/end byte offsets", LX)],
     state=[("offswitch_location", "byte offset where the protected region started", FF)])

prop("C05", "Line endings follow the line_ending option uniformly",
     "Every line of the output ends with the configured line ending: only LF for 'unix', only CRLF for 'windows', and for 'auto' the style of the input when the input uses one style. The choice, and the line ending of the input, changes nothing else in the output.",
     ["inputs", "configurations"],
     "all accepted listfiles rendered with LF or CRLF (multi-line strings, bracket arguments and comments, line comments, trailing comments, protected regions) times line_ending times other options",
     "Tests use one short input per option value.",
     [FM, FF, LX],
     [("detect_line_endings / set_line_ending", FM + ", " + CF), ("CursorFile writes config.format.endl", FF), ("normalize_line_endings", FF)])

prop("C06", "Formatted text has clean whitespace",
     "Outside multi-line arguments and protected regions no line of the output ends in whitespace, and there are no tab characters in indentation unless use_tabchars is on. The output ends with exactly one line ending, two or more blank lines between statements become exactly one, a single blank line stays, and no blank line is invented. On a line, arguments are separated by exactly one space, with none just inside of parentheses.",
     ["inputs", "configurations"],
     "all accepted listfiles with arbitrary vertical and horizontal whitespace times configurations",
     "Literal tests never vary whitespace around every construct.",
     [FF, BN, SI],
     [("WhitespaceNode and create_box_tree drop or keep blank lines", FF), ("format_comment_lines strips", FF)])

prop("C07", "Line width is respected, and reported truthfully when it is not",
     "When the formatter reports a valid layout, no line of the output is wider than line_width. With require_valid_layout an invalid layout makes the tool fail with non-zero status and write nothing, and otherwise the output is written as usual. Lines are not broken needlessly: a statement without comments whose one-line form fits and that no wrapping option forbids is written on one line.",
     ["inputs", "configurations"],
     "all accepted listfiles times line_width from tiny to huge and all wrapping options",
     "Tests look at some widths for a few statements; overflow appears only at exact column boundaries.",
     [FF, FM],
     [("reflow_valid accumulates over the layout tree", FF), ("onefile_main raises FormatError", FM)])

prop("C08", "Indentation follows block nesting and the tab policy",
     "Every statement and scope-level comment starts at column depth * tab_size, where depth is the number of enclosing if/foreach/while/function/macro blocks. With use_tabchars the output is the same text with the leading spaces of lines replaced by tabs according to fractional_tab_policy, and the content of multi-line arguments and protected regions is not changed by it.",
     ["inputs", "configurations"],
     "all nestings of control flow with all kinds of statements and comments times tab_size, use_tabchars, fractional_tab_policy",
     "The tests exercise two nestings and two tab settings.",
     [FF, BN], [("FlowControlNode/BodyNode reflow offsets", FF), ("replace_with_tabs", FF)])

prop("C09", "Case and spacing style options are applied everywhere and only there",
     "command_case, keyword_case, separate_ctrl_name_with_space, separate_fn_name_with_space and per-command overrides apply to every command and keyword of the file as documented, including canonical spelling of builtin and custom commands. They never change the letter case of anything that is not a command name or a keyword, and space goes before the opening parenthesis exactly for the class of commands selected.",
     ["inputs", "configurations"],
     "all commands (control flow, builtin, module, custom, unknown) in any input case times all option combinations and per-command overrides",
     "Tests cover one or two commands per option.",
     [FF, CF, FUNS + "standard_funs.py"],
     [("ScalarNode.write", FF), ("need_paren_space", FF), ("Configuration.resolve_for_command", CF)])

prop("C10", "Wrapping options are honoured",
     "A positional group with more than max_pargs_hwrap arguments and an argument group with more than max_subgroups_hwrap groups are written vertically, a positional group that is wrapped horizontally takes no more lines than max_lines_hwrap allows (one more than its value), commands listed in always_wrap are wrapped, and dangle_parens/dangle_align place the closing parenthesis of every wrapped statement on its own line at the documented column. These options move line breaks and indentation only.",
     ["inputs", "configurations"],
     "custom commands of known signature with any number of arguments and keyword groups times all wrapping options",
     "Tests hold single literal cases at default thresholds.",
     [FF], [("PargGroupNode/ArgGroupNode/StatementNode reflow and validation", FF)])

prop("C11", "Sorting is an opt-in ordered permutation",
     "Argument lists are reordered only with autosort enabled and only lists that are inherently sortable (source lists of add_library and add_executable, and lists declared sortable in the configuration) or tagged sortable and not tagged unsortable. A sorted list is a permutation of the original, ordered by the lower-case form of the arguments as written, stable, with each trailing comment still on its argument, and everything else in the statement (target name, type, flags, other lists) stays in place. Lists are not inferred to be sortable where a variable reference stands at the place of the type or a flag.",
     ["inputs", "configurations"],
     "all argument lists (duplicates, mixed case, quoted, variables, trailing comments) of sortable, tagged and plain commands times tag spellings times autosort",
     "Tests hold a few lists; stability, duplicates, comment attachment and neighbours are not sampled.",
     [FF, FUNS + "add_library.py", FUNS + "add_executable.py", AN],
     [("sort_arguments", FF), ("sortable flag and sort tags", AN + ", " + FUNS)])

prop("C12", "Literal comments stay literal",
     "With enable_markup off every comment line is kept as it is except for trailing whitespace. With markup on, text in fences, the first comment when first_comment_is_literal is set, a leading shebang, comments matching literal_comment_pattern and bracket comments are kept line by line.",
     ["inputs", "configurations"],
     "all comment texts (lists, rulers, indentation, multi hash, unicode, long lines) at scope level times the literal mechanisms",
     "Tests have one literal example each.",
     [FF, MK], [("format_comment_lines / get_comment_lines", FF), ("VERBATIM state of markup.parse", MK)])

prop("C13", "Comment markup keeps its structure",
     "Reflowed comment blocks keep their items: paragraphs stay separated by blank comment lines, every bullet item starts with bullet_char and every enumeration item is numbered 1..n with enum_char, nested lists stay nested, notes and rulers stay on lines of their own, hash rulers fill the line when canonicalised. All words of an item stay in that item in order, and no line exceeds the available width unless a single word does (lines of an enumeration may exceed it by the width of their number). Lists are separated from paragraphs by blank comment lines.",
     ["inputs", "configurations"],
     "all sequences of markup items (paragraphs, bullet lists, enumerations up to many items, notes, rulers, fences, separators) times widths and markup options",
     "Tests have about ten literal blocks; item counts, digit boundaries and adjacent item kinds are not explored.",
     [MK, FF], [("markup.parse state machine", MK), ("markup.format_items", MK)])

prop("C14", "The lexer is lossless and its locations are exact",
     "For every text that tokenizes, the concatenated token spellings are the input, and each token's line, column and byte offsets are those of its first character in the input (after a byte order mark, if there is one). On valid CMake the tokens delimit exactly the arguments, comments, parentheses and command names that CMake itself sees.",
     ["inputs"],
     "arbitrary unicode text, and all valid listfiles including brackets of any level, escapes, multi-line tokens, CRLF, BOM",
     "Tests tokenise about thirty strings and compare token types; only a few locations are compared.",
     [LX], [("re.Scanner token table", LX), ("running line/column/offset counts", LX)],
     ["tokenize() result", "--dump lex"])

prop("C15", "The parse tree holds every token exactly once, in order",
     "For every valid listfile, the leaves of the parse tree are exactly the tokens of the file in order, apart from discarded end-of-statement noise, so nothing is dropped or duplicated between lexing and layout. Every statement node holds one command with its own parentheses and arguments, and block nesting in the tree is the block nesting of the source.",
     ["inputs", "configurations"],
     "all commands known to the parser database with arbitrary argument lists (keywords in any order, repeated, missing values, comments between) and unknown commands",
     "Each per-command parser is tested on a few typical invocations only.",
     [AN, SN, BN, AD, FUNS, PU],
     [("each parser pops tokens from the shared list and appends them to a node", AN)],
     ["parse() result"])

prop("C16", "Bad input is rejected cleanly",
     "For any text at all, the formatter either writes a complete result with exit status 0 or fails with non-zero status within bounded time, having changed no file and written no partial output. Input that is not valid CMake because of unbalanced parentheses, unterminated strings or brackets, or missing or stray block ends is never turned into output that silently drops part of it: where such text is accepted, the output holds all of it.",
     ["inputs"],
     "arbitrary byte strings, truncations, deletions, duplications and splices of valid listfiles",
     "The tests only feed valid input, plus two error cases.",
     [LX, BN, SN, FM], [("UserError/InternalError handling in main", FM), ("tokenize remainder check", LX)],
     ["exit status, stdout and files of cmake-format"])

prop("C17", "All ways of running cmake-format agree",
     "For any listfile and configuration, formatting through standard input, a file to standard output, -o and -i gives the same bytes as each other. --check writes nothing and exits 0 exactly when formatting would leave the file unchanged; with several files each is handled as if alone and the exit status is non-zero iff one of them failed.",
     ["inputs", "configurations", "histories"],
     "listfiles times configurations (file or command line) times invocation modes times sets of several files with mixed formatted, unformatted and failing members",
     "Tests run a few modes on one or two files.",
     [FM], [("onefile_main / inner_main", FM)], ["exit status, stdout and files of cmake-format"])

prop("C18", "In-place formatting is all or nothing",
     "After cmake-format -i ends, however it ends (success, parse error, encoding error, write error, kill at any file operation), the file holds either its original bytes or the complete formatted bytes. On success its permissions are kept, an already formatted file is not rewritten, and no other file is changed or left behind.",
     ["inputs", "crash_points", "fault_sequences"],
     "listfiles and encodings times every file operation of the in-place path as crash or error point",
     "Tests only cover the successful path on one file and its mode.",
     [FM], [("write to a temporary file, copy the mode, move over the original", FM)], ["file system after cmake-format -i"])

prop("C19", "Dumped configurations load back to the same configuration",
     "A configuration written by --dump-config as yaml, json or python and read back is the same configuration, with or without help text, and with --no-default as well. A file, a dictionary and the equivalent command line switches give the same effective configuration.",
     ["configurations"],
     "all values of all options, including unicode, quotes, backslashes, nested command specifications and None",
     "The tests dump the defaults and a few values.",
     [CU, CF, FM], [("as_odict / dump / legacy_consume", CU), ("dump_config", FM)], ["--dump-config output", "Configuration.as_dict"])

prop("C20", "The effective configuration follows discovery, include and precedence rules",
     "Without --config-files the nearest ancestor directory of the listfile that holds a configuration file supplies it, in the documented name order; with --config-files exactly the listed files and then the files they include, and then those these include, are merged in this order, later files winning per option, relative includes resolved against the including file; command line switches, boolean ones in any of their spellings, win over files. Python files may compute their values: names are looked up in the enclosing sections first. Each input file gets its own configuration.",
     ["configurations", "histories"],
     "directory trees with configuration files of all names and formats at any levels, include graphs, several config files, command line overrides, several listfiles per run",
     "Tests hold two include cases and no discovery tree.",
     [FM, CU], [("find_config_file", FM), ("get_configdict / map_merge", FM), ("legacy_consume", CU)], ["effective Configuration", "formatted output"])

prop("C21", "Results depend only on the input and its configuration",
     "Formatting or linting a file gives the same result whatever was processed before in the same process, in whatever order, and whatever the hash seed or locale. Processing never modifies the configuration or the command database in a way a later file can see.",
     ["histories", "configurations"],
     "sequences of format and lint calls over different files and configurations (custom commands, overrides, auto line endings) in one process versus each alone in a fresh process",
     "Every test constructs a fresh configuration and looks at one call.",
     [FM, CF, FUNS + "__init__.py", LU], [("config.clone() before set_line_ending", FM), ("get_parse_db returns a fresh dict", FUNS)],
     ["results of process_file over histories"])

prop("C22", "Encodings and byte order marks are handled faithfully",
     "A listfile in the configured input encoding is decoded, formatted and written in the configured output encoding with every character preserved. A byte order mark in the input is accepted, changes nothing else in the result, and the output begins with one exactly when emit_byteorder_mark is set.",
     ["inputs", "configurations"],
     "listfiles with text from all unicode planes in comments, strings and arguments times encodings times BOM settings times protected regions and first-comment options",
     "Tests feed one or two non-ASCII inputs.",
     [FM, LX, FF], [("io.open with the configured encoding", FM), ("BYTEORDER_MARK token", LX)], ["output bytes"])

prop("C23", "Disabling formatting makes cmake-format a no-op",
     "With the disable option set for a file, cmake-format emits exactly the content it was given on standard output or -o, leaves the file alone with -i, and passes --check, whatever the file contains.",
     ["inputs", "configurations"],
     "arbitrary file content (also not valid CMake) times invocation modes times ways of setting the option",
     "One test checks one mode.",
     [FM], [("onefile_main early return", FM)], ["stdout, output file and exit status"])

prop("C24", "Custom command specifications group arguments as declared",
     "A command declared in additional_commands is parsed with the declared number of positional arguments, flags and keyword arguments: each declared keyword collects exactly the arguments that follow it up to the next declared keyword or flag, flags stand alone, and the arguments in front of the first keyword are positional, for invocations that give every keyword its declared number of arguments. Keywords, which are declared in upper case, are recognised in any letter case, and the declaration affects no other command. All ways of writing a specification (scalars, lists, dictionaries, values given by override_spec) mean the same, and max_pargs_hwrap, max_subgroups_hwrap and sortable of a specification act, for that command, like the options of the configuration.",
     ["configurations", "inputs"],
     "generated specifications (positional counts, ranges, flags, keywords with every kind of count, nested keyword specs) times generated invocations",
     "The tests declare a handful of commands.",
     [AN, PU, FUNS + "__init__.py"], [("StandardParser2 / KeywordParser driven by CommandSpec", AN + ", " + PU)], ["parse tree of the statement", "wrapped output"])

prop("C25", "Statements are formatted independently of their surroundings",
     "The formatted form of a statement or comment depends only on its own text, its nesting depth and the configuration: two listfiles put together with a blank line between them are formatted to their two results with one blank line between, and a block that is nested deeper, with a line wider by the added indentation, is formatted to the same text, indented.",
     ["inputs", "configurations"],
     "all pairs of accepted listfiles, and all nestings of them in control flow blocks, times configurations",
     "A test has one expected text per input; that the result for one statement is not affected by its neighbours or depth is a relation between runs.",
     [FF, BN, SN], [("layout is decided statement by statement", FF), ("create_box_tree / clone of the layout passes", FF)])

prop("C26", "The result does not depend on the white space of the input",
     "Two listfiles with the same commands, arguments and comments that differ only in spaces, tabs and line breaks between arguments, in indentation, and in the number of blank lines where there is at least one, are formatted to the same text. Line breaks matter only where they separate a comment from what is before it.",
     ["inputs", "configurations"],
     "all accepted listfiles times all re-renderings of the white space between their tokens times configurations",
     "Tests compare one spelling of the input with one output; that all other spellings give the same is not sampled.",
     [FF, BN, SN, AN], [("white space tokens are dropped by the argument parsers", AN), ("WhitespaceNode keeps at most one blank line", FF)])

prop("C27", "The dump modes show the listfile as it is read and laid out",
     "cmake-format --dump shows, for every valid listfile and configuration, what the tool sees: lex lists the tokens, whose contents joined are the text, with their line and column; parse and layout draw a well-formed tree, of which the parse tree holds every token but white space once, in order, each node at the location of its first token, and statements at the depth of their blocks; the positions in the layout are those at which the names, parentheses and arguments are in the formatted text, and the root is marked ok exactly if the layout is valid; markup lists every comment at its location; parsedb lists all known commands and the declared ones with their keywords. Dumps go where the formatted text would go, cannot be written in-place, and change no file.",
     ["inputs", "configurations"],
     "all accepted listfiles times configurations and command specifications times dump modes",
     "No test looks at the dumps; the layout positions of a handful of statements are tested by tree comparisons.",
     [FM, FF, LX, "cmakelang/parse/printer.py"], [("process_file dump", FM), ("dump_tree", FF + ", cmakelang/parse/printer.py"), ("LayoutNode.position, written by CursorFile.write_at", FF)],
     ["--dump output", "formatted text"])

prop("C28", "Arguments of builtin commands are grouped as in their signatures",
     "For every invocation of a builtin command that follows its documented signature, each keyword groups exactly the arguments which belong to it, flags stand for themselves, positional arguments stay outside of the groups, and nested keywords stay inside of the group of their outer keyword, in any letter case, with comments at any place, with optional groups left out, repeated or in any order the signature allows. Conditions are grouped by AND and OR and by their parentheses. In a vertical layout each group of a statement starts on a line of its own.",
     ["inputs"],
     "all invocations that follow the signatures of the builtin commands known to the tool, and all conditions",
     "The tests compare the trees of a few invocations of some of the commands; most signatures are never parsed by a test, and a group that takes one argument too few or too many only shows in the layout.",
     [FUNS, AN, AD, BN, "cmakelang/parse/util.py"],
     [("StandardParser / per-command parsers", FUNS), ("KeywordGroupNode.parse", AN), ("PositionalParser, pargs_are_full", AN)],
     ["layout of the statements", "parse tree"])

prop("C30", "Text lints match their definition",
     "cmake-lint reports line length, trailing whitespace, line ending, missing final newline and statement spacing problems at exactly the lines where they occur, as defined by the configuration, and nowhere else. Findings carry the right line numbers in the file.",
     ["inputs", "configurations"],
     "all listfiles with defects of these classes planted at any place times widths, line endings and spacing settings",
     "Tests hold one literal example per code.",
     [LB, LU, LD], [("check_basics, check_flow_control spacing", LB)], ["lint records"])

prop("C31", "Naming and structure lints match their definition",
     "For each function, macro, argument, loop variable, assigned variable and command invocation, cmake-lint reports a naming violation (C0103) exactly when the configured pattern for that kind of name does not match at the beginning of the name. It reports too many arguments, branches, returns and statements, missing or empty docstrings, repeated or invalid argument names, repeated keywords, missing or surplus required arguments, custom argument parsers, break and continue outside of loops, unreachable code, and references to or assignments of names that differ from a built-in variable only in case, exactly when the configured limit or definition says so, at the offending line.",
     ["inputs", "configurations"],
     "programs made of nested functions, macros, loops, conditions, assignments, references and custom commands times lint limits and patterns",
     "Tests hold one literal example per code.",
     [LB, LD], [("LintChecker.check_*", LB)], ["lint records"])

prop("C32", "Lint suppression removes exactly what it names",
     "disabled_codes and '# cmake-lint: disable=' pragmas remove exactly the findings with the named codes in their scope (from a pragma on a line of its own to the end of its block or file; of a pragma in or after a statement, its own line), and every other finding is still reported unchanged. An unknown code or option in a pragma is reported itself.",
     ["inputs", "configurations"],
     "listfiles with findings of many codes times sets of codes times pragma positions and scopes",
     "Two literal tests.",
     [LB, LU], [("suppressions stack", LU), ("record_lint", LU)], ["lint records"])

prop("C33", "Lint exit status and summary are truthful",
     "cmake-lint exits 0 exactly when nothing is found in any given file and every file could be read and parsed. Every finding is printed once under its own file, the summary counts per category equal the findings printed, and a file that can't be read or parsed does not affect the report of the others. The same holds when the report goes to a file or the text comes from standard input. Linting never changes a file.",
     ["inputs", "histories"],
     "sets of listfiles (clean, with findings, unparsable, unreadable, repeated) in any order times output options",
     "Tests look at the result of one file.",
     [LM, LU], [("GlobalContext.write_summary", LU), ("inner_main return code", LM)], ["stdout and exit status of cmake-lint"])

prop("C34", "Formatted files are clean for format lints",
     "A listfile formatted with a valid layout and linted with the same configuration has no finding about trailing whitespace, line length, tabs, line endings, final newline, several statements on a line or statement spacing, except inside of multi-line literals and protected regions.",
     ["inputs", "configurations"],
     "all accepted listfiles times configurations shared by both tools",
     "No test runs both tools on one input.",
     [FF, LB], [("shared Configuration", CF)], ["lint records of formatted text"])

prop("C40", "Annotated HTML shows exactly the source",
     "cmake-annotate produces well-formed markup whose text content is exactly the listfile, with every command name, comment, string and argument inside an element of the matching class, the keywords and flags of declared commands too, for page, iframe and fragment output.",
     ["inputs"],
     "all accepted listfiles including HTML special characters",
     "One test renders one file without special characters.",
     ["cmakelang/annotate.py", "cmakelang/render.py"], [("dump_html", "cmakelang/render.py")], ["cmake-annotate output"])

prop("C41", "Generated parser specifications describe the defined commands",
     "cmake-genparsers lists exactly the functions and macros defined in the listfiles, except those whose names begin with an underscore, with the number of positional arguments, and the flags, one-value and multi-value keywords their cmake_parse_arguments call declares, in each of its forms, with the lists written as literals or set before in the same body; the first such call counts, and variables of other definitions are not seen. The result is a readable json, yaml or python document in the chosen place, and used as additional_commands it groups invocations accordingly. A file that cannot be read is reported by the exit status and does not change the result for the others.",
     ["inputs", "programs"],
     "listfiles with function and macro definitions with every combination of declared arguments",
     "One literal example is tested.",
     ["cmakelang/genparsers.py", PU], [("process_defn", "cmakelang/genparsers.py")], ["cmake-genparsers output"])

prop("C42", "ctest-to keeps every test",
     "ctest-to converts a tree of CTestTestfile.cmake files into a JSON or XML document that holds every test with its name, command line, directory and properties, following subdirs, and nothing else: arguments have the values CMake gives them, labels are a list, private properties are left out, tests are sorted by name, tests of the same name in different directories are all kept, and files are not changed.",
     ["inputs"],
     "trees of generated CTestTestfile.cmake files",
     "No test exercises the tool.",
     ["cmakelang/ctest_to.py"], [("parse_file", "cmakelang/ctest_to.py")], ["ctest-to output"])

if __name__ == "__main__":
  path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
  with open(path, "w") as out:
    for p in P:
      out.write(json.dumps(p, ensure_ascii=False) + "\n")
  print(len(P))
