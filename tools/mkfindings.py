#!/usr/bin/env python3-vt
"""Writes known_findings.txt and the regression cases of the repaired defects
(findings/*.json) from the table below. Run by hand, never by a check."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def T(text, **cfg):
  return {"text": text, "cfg": cfg}


def P(**item):
  return {"body": [item], "lint": {}}


def F(name, args, want):
  return {"stmts": [{"name": name, "args": args, "want": want, "case": 0, "gap": 0, "seps": [" "] * len(args), "comment": False}]}


def A(text, **kw):
  return dict({"text": text, "format": "stub", "mode": "stdout", "crlf": False, "bom": False, "config": "none", "default": True}, **kw)


# (property, commit, what failed, sub, case)
FIXED = [
    ("C14", "5997fa6", "words and variable references with [ \\ ] ^ ` were split or misread (character range A-z)", None, None),
    ("C01", "51d7269", "a command with fewer arguments than its exact positional count was rejected (try_compile())", "any", T("try_compile()\n")),
    ("C01", "9c2fd8d", "set() and foreach(x) without values, add_library(name) at end of file were rejected", "any", T("set()\nforeach(x)\nendforeach()\nadd_library(foo)")),
    ("C06", "10edfff", "blank lines at the start of a file were kept by one run and dropped by the next", None, None),
    ("C02", "b4dee19", "a bracket comment next to a line comment was dropped", "any", T("set(a) #[[x]] # y\nset(b)\n")),
    ("C01", "dba3b97", "trailing whitespace inside of multi-line arguments was stripped", "any", T("set(a \"x \n y\" [[ z \n]])\n")),
    ("C04", "9705321", "off regions: an unterminated off, a second off and a byte order mark lost or shifted text", None, None),
    ("C05", "bd669f0", "the carriage return of off and on tags was lost; first comment after a byte order mark", None, None),
    ("C08", "3f7ec72", "use_tabchars replaced spaces inside of multi-line arguments", None, None),
    ("C01", "f0965a1", "ctest_memcheck(APPEND) and an argument after a keyword with zero arguments were rejected", "any", T("ctest_memcheck(APPEND)\n")),
    ("C02", "457062a", "a number at the start of a line within an enumeration was lost", "markup", T("# 1. the dog\n#    42 foxes\n")),
    ("C13", "57f27ac", "alignment of enumerations of 1, 10 and 100 items", None, None),
    ("C02", "2ed0108", "comments between the members of a tuple moved behind the tuple", "any", T("set_target_properties(a PROPERTIES b # first\n c # second\n d e)\n")),
    ("C25", "3a3d634", "the layout of a statement depended on the statements after it", None, None),
    ("C04", "5d7a9bc", "off and on tags in add_library and add_executable were taken for arguments", None, None),
    ("C11", "9b26aaf", "the sort tag was ignored in add_executable", None, None),
    ("C04", "08d25e7", "format regions which begin and end at different depths of a statement", None, None),
    ("C24", "068d136", "the declared nargs of a positional specification was ignored", None, None),
    ("C24", "934c6cb", "flags of a command with an exact positional count were not recognised after them", None, None),
    ("C24", "100a41d", "flags declared for a keyword without positional arguments ended the keyword", None, None),
    ("C16", "f84f25b", "an error left partial output or a temporary file behind", None, None),
    ("C17", "5041393", "an error in one file kept the other files from being formatted", None, None),
    ("C17", "5247400", "command line switches applied only to the first of several files", None, None),
    ("C23", "626c756", "disabled formatting emitted nothing on stdout or to the output file", None, None),
    ("C17", "3e8aa39", "an unreadable file or internal error kept the other files from being formatted", None, None),
    ("C16", "76824da", "infinite loop on a keyword next to a parenthesis or comment: if((A)AND(B))", None, None),
    ("C16", "6431d6d", "layout time grew exponentially with the depth of nested parentheses", None, None),
    ("C17", "f7031a0", "text that can't be encoded kept the other files from being formatted", None, None),
    ("C24", "b5f9550", "no arguments for one of several positional specifications was an internal error", "group",
     {"name": "foo", "spec": {"pargs": [{"nargs": "+"}, {"nargs": "*", "flags": ["AA"]}, {"nargs": "*", "flags": ["BB"]}]},
      "groups": [["pos", [["arg", "a"], ["arg", "b"], ["flag", "BB"], ["arg", "c"]]]], "text": "foo(a b BB c)\n"}),
    ("C25", "416fdde", "always_wrap had no effect inside of blocks", None, None),
    ("C32", "2dedb71", "lint pragmas had no effect on the last line of a scope and inside of other suppressions", None, None),
    ("C30", "d3dbc3a", "lint counted carriage returns as text and wanted one after the last line", None, None),
    ("C30", "f4f4f20", "cmake-lint crashed if line_ending is auto", None, None),
    ("C31", "58d9f76", "cmake-lint crashed on set() and list() without arguments", None, None),
    ("C31", "ad43b25", "W0105 was reported for names which only begin like a built-in variable", "program",
     P(t="msg", gap=0, arg='"${apple_pie}"')),
    ("C31", "805f452", "W0106 named the wrong end of a variable reference, escaped references were reported", "program",
     P(t="msg", gap=0, arg='"${PROJECT_NAME"')),
    ("C33", "b396596", "cmake-lint crashed when reading from standard input", "run",
     {"files": [{"kind": "dirty", "name": "a.cmake", "text": "set(foo bar)"}], "order": [0], "opts": {}, "plain": False, "out": False,
      "stdin": True, "how": "config"}),
    ("C33", "8a6f62b", "cmake-lint exited with status 0 for bad arguments", None, None),
    ("C33", "d579b07", "a file which can't be parsed kept the other files from being linted", "run",
     {"files": [{"kind": "bad", "name": "a.cmake", "text": "foo("}, {"kind": "dirty", "name": "b.cmake", "text": "set(foo bar)"}],
      "order": [0, 1], "opts": {}, "plain": False, "out": False, "stdin": False, "how": "config"}),
    ("C33", "0e11a61", "lint of a file which is named twice was reported three times", "run",
     {"files": [{"kind": "dirty", "name": "a.cmake", "text": "set(foo bar)"}], "order": [0, 0], "opts": {}, "plain": False,
      "out": False, "stdin": False, "how": "config"}),
    ("C31", "fb2344b", "lint crashed on an unexpected argument of add_custom_target", None, None),
    ("C31", "5a5abbc", "lint crashed on build_command, its keywords were not recognised", "forms",
     F("build_command", ["v", "make"], ["W0104"])),
    ("C09", "b6b3589", "the PARSE_ARGV keyword was not recognised", None, None),
    ("C31", "2b4ebfc", "lint crashed on if(arg) in a loop over ARGN", None, None),
    ("C31", "41900d3", "references inside of composite arguments were not checked by W0105", "program",
     P(t="msg", gap=0, arg="${${apple}}")),
    ("C32", "a9cf121", "lint pragmas inside of some statements were ignored", "pragmas",
     {"body": [{"t": "ctl", "gap": 0, "what": "break"}], "lint": {}, "defects": [], "disabled": [],
      "pragmas": [{"items": [["disable", ["E0103", "X0000"]]], "where": "args", "at": 0, "depth": 0, "spaces": 1}]}),
    ("C34", "4115be5", "lint counted the byte order mark as a part of the first line", "any",
     T("set(aaaaaaaaa bbbbbbbbb ccccccccc ddddddddd)\n", format={"line_width": 44}, encode={"emit_byteorder_mark": True})),
    ("C40", "e95a7d3", "cmake-annotate did not escape the text of the listfile", "run", A("message(a<b) # &amp; x\n")),
    ("C40", "50657c7", "cmake-annotate crashed if a configuration file was given", "run", A("my_cmd(ONE a)\n", config="option")),
    ("C40", "3df4685", "cmake-annotate ignored the parse options of the configuration", None, None),
    ("C24", "13857fe", "an override for the positional group after the last one was an internal error", None, None),
    ("C31", "ada76ba", "cmake-lint crashed if the set command is declared by the user", None, None),
    ("C09", "f4d2751", "comparison operators such as IN_LIST, SYSTEM and EXPR were not taken for keywords", None, None),
    ("C24", "ee3af03", "the command foo of the default additional_commands stayed declared in every configuration", None, None),
    ("C19", "aae86c0", "--dump-config left out overrides for commands with a canonical spelling", None, None),
    ("C19", "d938652", "a python configuration file without extension was taken for yaml and ignored", None, None),
    ("C20", "13e0475", "endless loop if a configuration file includes itself", "bad",
     {"files": {"x/.cmake-format.py": "include = ['.cmake-format.py']\n"}, "conf": None, "mode": "stdout", "kind": "self_include", "any": False}),
    ("C20", "5f8409a", "a malformed yaml configuration file was not reported as such", "bad",
     {"files": {"x/.cmake-format.yaml": "a: [1\n"}, "conf": None, "mode": "stdout", "kind": "syntax", "any": False}),
    ("C20", "ca58b55", "options without a section in one file won over those of later files", None, None),
    ("C20", "8996f97", "cmake-lint skipped the remaining files if the configuration of one can't be loaded", "bad_lint",
     {"files": {"x/.cmake-format.py": "x = = 1\n"}, "conf": None, "mode": "stdout", "kind": "syntax", "any": False}),
    ("C20", "bef9eed", "cmake-lint ignored all but the last of several -c options", None, None),
    ("C10", "78e413e", "always_wrap was case-sensitive for command names", None, None),
    ("C10", "12c066a", "a column was reserved for the closing parenthesis after every argument of the last group", None, None),
    ("C11", "de044ba", "enable_sort had no effect", None, None),
    ("C11", "2f83402", "sort tags were ignored in the positional arguments of most commands", None, None),
    ("C11", "a8790b3", "add_library ignored a sort tag after EXCLUDE_FROM_ALL", None, None),
    ("C12", "b5ca867", "literal comments lost all but one of their leading hash characters", None, None),
    ("C03", "1fdabd2", "the items of an enumeration of ten or more were merged by the next run", "comments",
     T("".join("# %d. aa\n" % k for k in range(1, 13)))),
    ("C01", "779e0c4", "a bracket argument was not recognised before a comment or parenthesis", "any", T("t([[(]]#\n)\n")),
    ("C02", "e503af9", "text after an off or on tag was dropped", "any",
     T("# cmake-format: off because\nfoo(  a)\n# cmake-format: on again\n")),
    ("C13", "31a7775", "the ruler pattern of the configuration was ignored within paragraphs", None, None),
    ("C13", "a5b0c9b", "assertion failure for deeply nested lists in narrow comments", "items",
     json.loads('{"cfg": {"format": {"line_width": 12}, "markup": {}}, "items": [{"t": "bullet", "col": 1, "items": [["a"]], "parts": [], "mark": "-", "heads": [" -"], "src": [[["", "a"]]]}, {"t": "blank", "n": 1}, {"t": "bullet", "col": 3, "items": [["a"]], "parts": [], "mark": "-", "heads": ["   -"], "src": [[["", "a"]]]}, {"t": "blank", "n": 1}, {"t": "bullet", "col": 5, "items": [["a"]], "parts": [], "mark": "-", "heads": ["     -"], "src": [[["", "a"]]]}, {"t": "blank", "n": 1}, {"t": "bullet", "col": 7, "items": [["a"]], "parts": [], "mark": "-", "heads": ["       -"], "src": [[["", "a"]]]}, {"t": "blank", "n": 1}, {"t": "bullet", "col": 9, "items": [["a"]], "parts": [], "mark": "-", "heads": ["         -"], "src": [[["", "a"]]]}, {"t": "blank", "n": 1}, {"t": "bullet", "col": 11, "items": [["a"]], "parts": [], "mark": "-", "heads": ["           -"], "src": [[["", "a"]]]}], "depth": 0, "trail": "", "pad": "", "after": ""}')),
    ("C41", "74aa7e0", "cmake-genparsers mixed the names of the input files with its output", None, None),
    ("C41", "a080023", "cmake-genparsers crashed or used stale content for unreadable files", None, None),
    ("C41", "21876fc", "cmake-genparsers took the keywords of nested definitions for those of the outer one", None, None),
    ("C41", "9a0a809", "cmake-genparsers misread the PARSE_ARGV form of cmake_parse_arguments", None, None),
    ("C41", "b3d2ac7", "cmake-genparsers did not remove quotes from names or brackets from keywords", None, None),
    ("C41", "83b0898", "cmake-genparsers did not process statements in the order of the file", None, None),
    ("C42", "8886297", "ctest-to could not parse any file, and merged tests of the same name", None, None),
    ("C13", "88b3818", "assertion failure for long comments with many double spaces", None, None),
    ("C01", "2e20f3e", "add_library and add_executable with parenthetical groups were rejected", "any", T("add_library(a (b c) d)\n")),
    ("C01", "09c714d", "parenthetical groups among properties were rejected", "any", T("set_target_properties(a PROPERTIES (b) c d)\n")),
    ("C17", "4ddd9a0", "too deeply nested text kept the other files from being formatted or linted", None, None),
    ("C06", "efe597f", "space before the closing parenthesis after an empty group of arguments", "any", {"text": "file(APPEND a)\n", "cfg": {}, "vertical": False}),
    ("C12", "7ff24fc", "fences of a configured fence_pattern were replaced by others, or the pattern failed (no such group)", None, None),
    ("C03", "7ff24fc", "fences of a configured fence_pattern were replaced by others, which aren't fences the next time", "comments",
     T("# :::\n#  - x\n#      a b\n# :::\n", markup={"fence_pattern": "^ *:::"})),
    ("C09", "da33b33", "some keywords of documented signatures were not recognized as keywords", None, None),
    ("C28", "d6965a7", "the directories of install(TARGETS ... INCLUDES DESTINATION) were torn apart", "group",
     {"name": "install", "tree": [["kw", "TARGETS", [["arg", "a"]]], ["kw", "INCLUDES", [["flag", "DESTINATION"], ["arg", "b"], ["arg", "c"]]]],
      "text": "install(TARGETS a INCLUDES DESTINATION b c)\n"}),
    ("C28", "613f926", "find_library and find_path did not know the flag NO_CMAKE_SYSTEM_PATH", "group",
     {"name": "find_library", "tree": [["arg", "a"], ["kw", "PATHS", [["arg", "b"]]], ["flag", "NO_CMAKE_SYSTEM_PATH"]], "text": "find_library(a PATHS b NO_CMAKE_SYSTEM_PATH)\n"}),
    ("C28", "4aa6b80", "list(TRANSFORM) did not know the keyword OUTPUT_VARIABLE", "group",
     {"name": "list", "tree": [["flag", "TRANSFORM"], ["arg", "a"], ["kw", "TOLOWER", []], ["kw", "OUTPUT_VARIABLE", [["arg", "b"]]]], "text": "list(TRANSFORM a TOLOWER OUTPUT_VARIABLE b)\n"}),
    ("C28", "3e04e78", "CACHE was taken for an argument of get_filename_component", "group",
     {"name": "get_filename_component", "tree": [["arg", "a"], ["arg", "b"], ["flag", "PATH"], ["flag", "CACHE"]], "text": "get_filename_component(a b PATH CACHE)\n"}),
    ("C28", "a768889", "TREE was taken for the name of a group of source_group", "group",
     {"name": "source_group", "tree": [["flag", "TREE"], ["arg", "a"], ["kw", "PREFIX", [["arg", "b"]]]], "text": "source_group(TREE a PREFIX b)\n"}),
    ("C28", "e3a0512", "OPTIONAL was taken for a language of enable_language", "group",
     {"name": "enable_language", "tree": [["arg", "a"], ["flag", "OPTIONAL"]], "text": "enable_language(a OPTIONAL)\n"}),
    ("C41", "246880b", "set(PARENT_SCOPE) was taken for an assignment of the variable in the definition", None, None),
]

KNOWN = [
    ("C04", "C04-reflow-makes-tag.json", "a reflowed comment can begin a line with text that reads as a format off tag"),
    ("C10", "C10-dangle-align-off.json", "dangle_align off is an accepted choice but every statement is rejected with a ValueError"),
    ("C13", "C13-enumeration-width.json", "lines of an enumeration can exceed the line width by the width of their numbers (pinned by a test)"),
]

if __name__ == "__main__":
  lines = ["# known: property=<id> case=<file under findings/> <what fails>",
           "# fixed: property=<id> <commit> [case=<file under findings/>] <what failed>"]
  for pid, name, text in KNOWN:
    assert os.path.exists(os.path.join(ROOT, "findings", name)), name
    lines.append("known: property=%s case=%s %s" % (pid, name, text))
  for pid, commit, text, sub, case in FIXED:
    full = commit
    item = "fixed: property=%s %s" % (pid, full)
    if sub:
      name = "%s-fixed-%s.json" % (pid, commit)
      with open(os.path.join(ROOT, "findings", name), "w") as f:
        json.dump({"property": pid, "sub": sub, "case": case, "message": text}, f, indent=1, ensure_ascii=False)
        f.write("\n")
      item += " case=" + name
    lines.append(item + " " + text)
  with open(os.path.join(ROOT, "known_findings.txt"), "w") as f:
    f.write("\n".join(lines) + "\n")
  print(len(lines) - 2)
