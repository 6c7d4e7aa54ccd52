"""Writes DESIGN.md from the text below, properties.jsonl and the metadata of
the check modules."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

# per property: what exactly is decided and what a defect needs to be seen by it
MORE = {
"C01": """`any`: command names, arguments (kind and value), nesting, order and comments of input and output are read by `vf/cmref.py`, a
reader of the language written from CMake's own lexer, which shares no code with cmakelang; argument values are compared exactly,
names without letter case, lists in sortable places as multisets if sorting is on. `exec`: a generated program (scopes, loops,
lists, strings, generator text, functions, macros, quoted and bracket arguments) is run by the real `cmake -P` before and after
formatting; output and exit status must agree. `exec` does not depend on our reader at all.""",
"C02": """Every comment of the input has words of its own; the sequence of (words, place) of the output must be that of the input, where
a place is the statement and the number of arguments before. `markup` uses comment texts with lists, fences and rulers.""",
"C03": """Formatting twice must equal formatting once. Placements in the section "Known limits" below are not generated.""",
"C04": """Regions are cut out of input and output by an independent scanner and must agree byte for byte, in order; badly spaced marker
statements around them prove that formatting is off only between the tags. `argument`: tags among arguments; `decoy`: comments that
look nearly like tags, which must have no effect.""",
"C05": """One text in LF, CRLF and mixed rendering, formatted with line_ending unix, windows and auto: one kind of line ending in
each output, the wanted one (for auto: the majority), and the same text otherwise.""",
"C06": """Line invariants (no white space at line ends, one final newline, no blank line at the begin, gaps of blank lines clamped by
max/min of the input), and spacing between the tokens of a line. `vertical`: the blank lines of the output are computed from those
of the input.""",
"C07": """`width`: every line is measured; a line over the limit without reported invalid layout is a violation unless nothing can be
done about it (a single word). `oneline`: a statement which fits on one line and has no reason to be broken is on one line.
`require`: with require_valid_layout the tool fails exactly if the library reports an invalid layout, and writes nothing.""",
"C08": """Column of each statement and own-line comment is computed from the block nesting as read by the reference reader; `tabs`: the
output with tab characters is that with spaces, its indentation replaced under each fractional_tab_policy.""",
"C09": """Case of each command name and keyword is computed from the options (global and per command); separate_ctrl_name_with_space
and separate_fn_name_with_space likewise; all other tokens must be untouched.""",
"C10": """A declared command (`additional_commands`) is invoked with a random number of short and long arguments; the lines on which
arguments come out must respect max_subgroups_hwrap, max_pargs_hwrap, max_rows_cmdline, max_lines_hwrap, min/max_prefix_chars,
always_wrap, dangle_parens and dangle_align as documented, in both directions (wrapped when it has to be and not otherwise).""",
"C11": """The expected list is computed (stable case-insensitive sort of exactly the marked list); everything else must be as without
the option.""",
"C12": """The exact output of a literal block is constructed from the case for each mechanism (fences, literal_comment_pattern,
first_comment_is_literal, enable_markup off, explicit_trailing_pattern, off tags).""",
"C13": """An independent renderer predicts the formatted comment from the list of markup items exactly.""",
"C14": """Joined spellings are the input, begin and end of each token are recomputed from the text, kinds and spellings agree with the
reference reader on valid texts.""",
"C15": """Invariants over the parse tree: leaves in order are the tokens, each once; statements, bodies and nesting agree with the
reference reader; locations ordered. `each` goes through every command of the parser database.""",
"C16": """Any text is either rejected with one of the documented errors or formatted without losing a character; no crash, no hang (a CPU
limit), no partial output or temporary files.""",
"C17": """stdout, -o, -i, --check, stdin: the same text; several files at once are treated as each alone, whatever is wrong with one of
them.""",
"C18": """At each file operation (audit events), each line executed in the in-place path, and each byte written, an error or a kill is
injected; afterwards the file has either its old or the whole new content, with its mode, and after an error no temporary file is
left.""",
"C19": """Values of all options (by documented type) are dumped as yaml, json and python and loaded back; `switch`: the same values given
by switches, dictionary and file.""",
"C20": """A model of discovery (upwards from the listfile, names in order), of includes and of precedence predicts the effective
configuration, which is observed by --dump-config and by the formatted text.""",
"C21": """A history of operations in one process; each result must be that of the same operation in a pristine process. `environment`:
whole runs under other hash seeds, locales, directories.""",
"C22": """The bytes written are the text formatted by the library encoded in the output encoding; byte order marks as documented.""",
"C23": """The bytes of the input come out in every mode, whatever they are.""",
"C24": """A specification is generated, then an invocation group by group; the parse tree has these groups, keywords and flags get the
case of keywords, other commands are not affected. `fields`: every field of a specification, written as a dictionary, a list, in place
or by overrides, gives one result, and limits given there act like those of the configuration; sortable groups are sorted.""",
"C25": """Formatting is compositional over statements: no reference layout is needed.""",
"C26": """Two renderings of one token sequence with different white space are formatted alike.""",
"C27": """Dumps are read back: drawing of the trees, tokens against the independent scanner, and each position of the layout against
the place of the same token in the formatted text. `cli`: the modes as a user runs them.""",
"C28": """Invocations are built group by group from a table of documented signatures (~390) and conditions from a grammar, so that the intended
grouping is known; compared with the parse tree, and keywords at the top level must start a line in the vertical layout.""",
"C30": """Findings (code, line, arguments) are compared one by one with a line based reference.""",
"C31": """Findings computed from the tree of the generated program. `forms`: every documented signature of the builtin commands gives no
finding of unexpected or missing arguments; E1120 and E1121 when one is dropped or added.""",
"C32": """Findings with pragmas = findings with neutral comments less those in scope.""",
"C33": """Sections, summary, exit status and untouched files of cmake-lint runs; `usage`: bad arguments of both tools.""",
"C34": """The two tools must agree: formatted text is lint clean.""",
"C40": """The HTML is parsed strictly; its text is the source; classes of the spans are computed independently.""",
"C41": """Output read back, compared with the generated definitions, and used to group generated invocations.""",
"C42": """Output read back and compared with the model.""",
}

SEEDED = sys.argv[1] if len(sys.argv) > 1 else os.path.join(ROOT, "seeded")
HEAD = open(os.path.join(ROOT, "tools", "design_head.md")).read()
TAIL = open(os.path.join(ROOT, "tools", "design_tail.md")).read()


def main():
  props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
  out = [HEAD, "## Properties and their checks\n"]
  out.append("Numbers of cases: quick / thorough. Costs are seconds of a quick run with 8 workers on the idle sandbox.\n")
  cost = json.load(open(os.path.join(ROOT, "tools", "cost.json")))
  for p in props:
    m = importlib.import_module("vf.checks." + p["id"].lower())
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("*Decided by:* %s.\n" % m.TECHNIQUE.rstrip("."))
    out.append("*Oracle:* " + MORE[p["id"]].strip() + "\n")
    out.append("*Non-trivial cases:* %s\n" % m.RULE)
    out.append("*Bounds:* %s\n" % m.LEVEL_NOTE)
    if m.ASSUMPTIONS:
      out.append("*Assumptions:* %s\n" % " ".join(m.ASSUMPTIONS))
    out.append("*Why the tests can not settle it:* %s\n" % p["why_tests_cant"])
    out.append("*Cost:* %s; %s s.\n" % (", ".join("`%s` %d / %d" % (s.name, s.quick, s.thorough) for s in m.SUBS), cost.get(p["id"], "?")))
  table = "| bug | property | needs |\n| --- | --- | --- |\n"
  for f in sorted(glob.glob(os.path.join(SEEDED, "*", "meta.json"))):
    j = json.load(open(f))
    table += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), j["property"], j["needs"].replace("|", "/").replace("\n", " "))
  out.append(TAIL.replace("@SEEDED@", table))
  with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))


main()
