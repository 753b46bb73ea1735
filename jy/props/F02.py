import glue, ref, mc, alphabet, objects, alpdiff, dllmodel, serframes
from glue import norm
import sys, os, re

RULE = "one case per input (every letter and pairs of ALP commands, sequences of up to 3 serial frames, DLL frames, files of every implemented type) in 6 spellings; non-trivial: distinct inputs"
ASSUMPTIONS = ["the texts of the decoded objects are those of the parsers (A02, C02, D01, B06 decide that these are right); the summary line that follows is left open except that it comes last"]

REPO = os.environ.get("VERIF_REPO", "/repo")
TOOL = os.path.join(REPO, "tools", "parse_hexstring.py")
CODE = {}
TABLES = {}
def setup(ctx, tier): TABLES.update(objects.structures("quick"))

class Out(object):
  def __init__(self): self.parts = []
  def write(self, s): self.parts.append(s)
  def flush(self): pass

def tool(args):
  """(exit code, stdout)"""
  if not CODE:
    with open(TOOL) as f: CODE["c"] = compile(f.read(), TOOL, "exec")
  argv, out, err = sys.argv, sys.stdout, sys.stderr
  sys.argv, sys.stdout, sys.stderr = [TOOL] + args, Out(), Out()
  try:
    code = 0
    try: eval(CODE["c"], {"__name__": "__main__", "__file__": TOOL})
    except SystemExit as e: code = e.code if e.code is not None else 0
    return code, "".join(sys.stdout.parts)
  finally: sys.argv, sys.stdout, sys.stderr = argv, out, err

def spellings(bs):
  h = "".join("%02x" % b for b in bs)
  yield h
  yield h.upper()
  yield " ".join("%02X" % b for b in bs)
  yield "  ".join("%02x" % b for b in bs) + " "
  yield " " + "".join(("%02x" if i % 2 else "%02X") % b for i, b in enumerate(bs))
  yield " ".join(h[i:i + 8] for i in range(0, len(h), 8))

def clean(t): return re.sub(r"0x[0-9a-f]+>", "0x>", t.replace("'counters not equal'\n", ""))

def check(typ, bs, texts, summary, ctx, more=[], few=False):
  want = "".join(t + "\n" for t in texts)
  for k, s in enumerate(spellings(bs)):
    if few and k not in (0, 2): continue
    what = "%s %r" % (typ, s)
    for args in (["-t", typ] + more + [s], more + [s, "--type", typ]):
      if s[:1] == "-": continue
      try: code, out = tool(args)
      except Exception as e: ctx.fail("%s: raised %s: %s" % (what, e.__class__.__name__, e))
      ctx.step()
      ctx.check(code in (0, None), lambda: "%s: exit code %s" % (what, code))
      out = clean(out)
      w = clean(want)
      if summary: ctx.check(out.startswith(w) and out[len(w):].count("\n") == 1, lambda: "%s: printed %r, expected %r and a summary" % (what, out, w))
      else: ctx.eq(out.rstrip("\n"), w.rstrip("\n"), "output for %s" % what)
  ctx.nontrivial.add((typ, tuple(bs)))
  ctx.trace(typ, tuple(bs))

def cases(tier):
  t = tier == "thorough"
  for a in alphabet.letters(): yield ["alp", [a], False]
  few = alphabet.few_letters()
  for a in few:
    for b in few: yield ["alp", [a, b], True]
  if t:
    for a in alphabet.parseable("quick"): yield ["alp", [a], True]
  n = len(serframes.letters(False))
  for i in range(n):
    yield ["serial", [i]]
    for j in range(n):
      if t or (i + j) % 2 == 0: yield ["serial", [i, j]]
      if t or (i + j) % 11 == 0: yield ["serial", [i, j, (i + 5) % n]]
  for tail in ([0xC0], [0xC0, 0, 3], [1, 2]): yield ["serialtail", tail]
  for i, v in enumerate(dllmodel.fg_values("quick", True)):
    if i % (5 if t else 67) == 0: yield ["fg", v]
  for i, v in enumerate(dllmodel.bg_values("quick")):
    if i % (3 if t else 31) == 0: yield ["bg", v]
  for n in sorted(glue.FILES):
    for i in range(1000): yield ["file", n, i]

IDS = {}
def run(case, ctx):
  kind = case[0]
  if kind == "alp":
    acts = [glue.tup(a) for a in case[1]]
    bs = alpdiff.enc(acts)
    if alpdiff.expect(bs)[0] != "ok": return
    check("alp", bs, [str(glue.parse_alp(bs)[0])], False, ctx, few=case[2])
  elif kind in ("serial", "serialtail"):
    msgs = [serframes.letters(False)[i] for i in case[1]] if kind == "serial" else [(4, [0x41])]
    bs = serframes.stream(msgs) + (case[1] if kind != "serial" else [])
    types, cmds, info = serframes.Parser().parse(bytearray(bs))
    assert len(cmds) == len(msgs)
    check("serial", bs, [str(c) for c in cmds], True, ctx, few=len(msgs) > 1)
  elif kind in ("fg", "bg"):
    m = dllmodel.untup(case[1])
    if kind == "fg": m = dllmodel.fg(**m)
    check(kind, dllmodel.enc(m), [str(dllmodel.decode(m, ctx))], True, ctx, few=True)
  else:
    n, i = case[1:]
    build, read, enc, parse, vals = TABLES["file " + n]
    if i >= len(vals): return
    v = norm(vals[i])
    bs = enc(v)
    names = [x for x in glue.SystemFileIds if x.name == n or n == "ACCESS_PROFILE" and x.name.startswith(n)]
    assert names
    for x in names[:1] if i else names:
      check("systemfile", bs, [str(parse(glue.stream(bs)))], False, ctx, more=["-f", str(x.value)], few=i > 0)
