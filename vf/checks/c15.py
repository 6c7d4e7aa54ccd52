"""C15 the parse tree holds every token exactly once, in order"""
from vf import cmref, gen, large, sut
from vf.checks.common import ref_parse_input
from vf.engine import Sub, Violation

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles, custom command specifications and invocations; invariants of the parse tree "
             "against the token list and against the structure seen by an independent reader")
LEVEL_NOTE = "Random exploration over the parser database, custom specifications and argument lists."
RULE = ("A case is a generated listfile (with custom command specifications); non-trivial when the tree holds a statement with at "
        "least three arguments and some group below the statement.")
ASSUMPTIONS = []


def parsed(text, cfgdict):
  from cmakelang import lex, parse
  from cmakelang.parse import funs
  cfg = sut.mkconfig(cfgdict)
  toks = lex.tokenize(text)
  db = funs.get_parse_db()
  db.update(funs.get_funtree(cfg.parse.fn_spec))
  try:
    tree = parse.parse(list(toks), parse.ParseContext(db, config=cfg))
  except Exception as ex:  # pylint: disable=broad-except
    import os
    import traceback
    tb = traceback.extract_tb(ex.__traceback__)[-1]
    raise Violation("parsing a valid listfile raised %s: %s (%s:%s)" % (
        type(ex).__name__, str(getattr(ex, "msg", None) or ex)[:300], os.path.basename(tb.filename), tb.name))
  return toks, tree


def leaves(node, out, seen):
  from cmakelang.lex import Token
  if id(node) in seen:
    raise Violation("a node occurs twice in the tree: %r" % node)
  seen.add(id(node))
  for c in node.children:
    if isinstance(c, Token):
      out.append(c)
    else:
      leaves(c, out, seen)
  return out


WS = ("WHITESPACE", "NEWLINE")


def oracle(case, rec):
  from cmakelang.lex import Token
  from cmakelang.parse.common import NodeType
  text = case["text"]
  pin = ref_parse_input(text)
  toks, tree = parsed(text, case["cfg"])
  got = leaves(tree, [], set())
  allow = [t for t in toks if t.type.name not in WS + ("BYTEORDER_MARK",)]
  have = [t for t in got if t.type.name not in WS]
  if [id(t) for t in allow] != [id(t) for t in have]:
    for a, b in zip(allow, have):
      if a is not b:
        raise Violation("the tree holds %r where the file has %r" % (b, a))
    raise Violation("the tree holds %d tokens, the file %d; first missing %r" % (
        len(have), len(allow), (allow + [None])[len(have)] if len(have) < len(allow) else have[len(allow)]))
  # white space: in order, none twice
  order = {id(t): n for n, t in enumerate(toks)}
  nums = [order[id(t)] for t in got]
  if nums != sorted(set(nums)):
    raise Violation("white space tokens out of order or duplicated")
  # block structure
  stmts = []

  def walk(node, depth):
    for c in node.children:
      if isinstance(c, Token):
        if node.node_type is NodeType.BODY:
          raise Violation("token %r directly below a body" % c)
        continue
      nt = c.node_type
      if nt is NodeType.STATEMENT:
        if node.node_type not in (NodeType.BODY, NodeType.FLOW_CONTROL):
          raise Violation("a statement below a %s" % node.node_type)
        stmts.append((c, depth))
      elif nt is NodeType.FLOW_CONTROL:
        if node.node_type is not NodeType.BODY:
          raise Violation("flow control below a %s" % node.node_type)
        kinds = [x.node_type for x in c.children]
        want = [NodeType.STATEMENT, NodeType.BODY] * (len(kinds) // 2) + [NodeType.STATEMENT]
        if kinds != want or len(kinds) < 3:
          raise Violation("flow control node with children %s" % kinds)
        for b, blk in enumerate(c.blocks):
          if [id(x) for x in blk] != [id(x) for x in c.children[2 * b:2 * b + 3]]:
            raise Violation("block %d of a flow control node" % b)
        if len(c.blocks) != len(kinds) // 2:
          raise Violation("%d blocks for %d bodies" % (len(c.blocks), len(kinds) // 2))
        walk(c, depth)
      elif nt is NodeType.BODY:
        walk(c, depth + 1)
  walk(tree, 0)
  want = []
  depth = 0
  for e in pin:
    if e.kind != "cmd":
      continue
    low = e.name.lower()
    if low in cmref.CLOSE:
      depth -= 1
    want.append((e, depth - (1 if low in cmref.MID else 0)))
    if low in cmref.OPEN:
      depth += 1
  if len(want) != len(stmts):
    raise Violation("%d statements in the tree, %d in the file" % (len(stmts), len(want)))
  big = False
  for (node, d), (cmd, wd) in zip(stmts, want):
    if d != wd:
      raise Violation("%s is at depth %d of the tree, at %d in the file" % (cmd.name, d, wd))
    if node.get_funname() != cmd.name.lower():
      raise Violation("statement %s is named %s" % (cmd.name, node.get_funname()))
    sem = [t for t in leaves(node, [], set()) if t.type.name not in WS + ("COMMENT", "BRACKET_COMMENT", "FORMAT_OFF", "FORMAT_ON")]
    exp = [cmd.name, "("] + [a for _, a in cmd.args] + [")"]
    if [t.spelling for t in sem] != exp:
      raise Violation("statement node holds %s instead of %s" % ([t.spelling for t in sem], exp))
    for kind, tok in ((NodeType.LPAREN, sem[1]), (NodeType.RPAREN, sem[-1])):
      nodes = [c for c in node.children if not isinstance(c, Token) and c.node_type is kind]
      if len(nodes) != 1 or nodes[0].children != [tok]:
        raise Violation("%s node of %s" % (kind, cmd.name))
    if tuple(node.get_location()[:2]) != (cmd.tok.line, cmd.tok.col):
      raise Violation("location of %s: %s" % (cmd.name, node.get_location()))
    if len(cmd.args) > 2 and any(not isinstance(c, Token) and c.children and c.node_type is not NodeType.ARGUMENT
                                 for c in (node.argtree.children if node.argtree else [])):
      big = True
  rec.nontrivial(big)
  for name in set(c.name.lower() for c, _ in want):
    rec.label("cmd:" + name if name in gen.VOCAB else "cmd:<unknown>")


def gen_any(s):
  g = gen.Gen(s, gen.Prof(stmts=(1, 4), max_depth=3, argcomments=15, onoff=4))
  return {"text": g.listfile(), "cfg": {}}


def gen_each(s):
  """one command of the data base at a time, all with the same chance"""
  p = gen.Prof(stmts=(1, 2), max_depth=0, comments=10, argcomments=10, commands=[s.pick(gen.COMMANDS)], blocks=0, nested_parens=0)
  return {"text": gen.Gen(s, p).listfile(), "cfg": {}}


SUBS = [Sub("large", large.gen_large, oracle, 240, 6000, 40),
        Sub("any", gen_any, oracle, 2400, 60000, 300),
        Sub("each", gen_each, oracle, 2400, 60000, 300)]
