import glue, ref, mc, alphabet, objects, alpdiff, dllmodel
from glue import norm
from d7a.support.schema import Validatable
from enum import Enum

RULE = "one case per command (every letter built with and without tag request and decoded, pairs and triples), per tag response (all tags and flags), per structure value (built and decoded), per DLL frame and per action; non-trivial: distinct texts"
ASSUMPTIONS = ["not implemented system files have no dictionary form", "fields: the public attributes of an object, and the fields of its layout"]

TABLES = {}
def setup(ctx, tier): TABLES.update(objects.structures(tier))

def cases(tier):
  for how, acts in objects.command_cases(tier): yield ["cmd", how, acts]
  for tag in range(256): yield ["tag", tag]
  for n, i, how in objects.objects(tier): yield ["obj", n, i, how]
  for i, a in enumerate(alphabet.parseable("quick")):
    if tier == "thorough" or i % 7 == 0: yield ["act", a]
  for i, v in enumerate(dllmodel.fg_values("quick", True)):
    if i % (29 if tier == "quick" else 3) == 0: yield ["dll", v]
  for i, v in enumerate(dllmodel.bg_values("quick")):
    if i % 17 == 0: yield ["dll", v]
  yield ["files"]

def same(d, v, ctx, what):
  """d: the dictionary form of the value v"""
  if isinstance(v, Validatable): dictionary(v, d, ctx, what)
  elif isinstance(v, list):
    ctx.check(isinstance(d, list) and len(d) == len(v), "%s: %s for %s" % (what, mc.short(d), mc.short(v)))
    for i, (a, b) in enumerate(zip(d, v)): same(a, b, ctx, "%s[%d]" % (what, i))
  else: ctx.check(d is v or d == v, lambda: "%s: %s for %s" % (what, mc.short(d), mc.short(v)))

def dictionary(o, d, ctx, what):
  ctx.check(isinstance(d, dict), "%s is %s" % (what, mc.short(d)))
  ctx.eq(d.get("__CLASS__"), o.__class__.__name__, "class in %s" % what)
  for k, v in vars(o).items():
    if k.startswith("_") or isinstance(v, type): continue
    ctx.check(k in d, lambda: "%s is missing in %s" % (k, what))
    same(d[k], v, ctx, "%s.%s" % (what, k))

def forms(o, ctx, what, bytes_too=True):
  before = glue.by(o) if bytes_too else None
  for i in (1, 2):
    t = ctx.guard(lambda: str(o), "text of %s" % what)
    ctx.check(isinstance(t, str), "text of %s is %r" % (what, t))
    d = ctx.guard(lambda: o.as_dict(), "dictionary of %s" % what)
    dictionary(o, d, ctx, "dictionary of %s" % what)
    ctx.step(2)
  if bytes_too: ctx.eq(mc.hexs(glue.by(o)), mc.hexs(before), "bytes of %s after printing" % what)
  ctx.nontrivial.add(t)
  return t

def command(c, ctx, what):
  content = norm(glue.model_of(c))
  forms(c, ctx, what)
  ctx.eq(norm(glue.model_of(c)), content, "content of %s after printing" % what)
  d = ctx.guard(lambda: c.describe_actions(), "description of %s" % what)
  pos = 0
  for i, a in enumerate(c.actions):
    t = ctx.guard(lambda: str(a), "text of action %d of %s" % (i, what)).strip(", ")
    at = d.find(t, pos)
    ctx.check(at >= 0, lambda: "action %d (%s) of %s is not at its place in the description %s" % (i, t, what, d))
    pos = at + len(t)
  ctx.eq(norm(glue.model_of(c)), content, "content of %s after describing" % what)
  ctx.eq(ctx.guard(lambda: c.as_dict(), "dictionary").get("tag_id", "missing"), c.tag_id, "tag in the dictionary of %s" % what)
  ctx.trace(what)

def run(case, ctx):
  kind = case[0]
  if kind == "cmd":
    acts = [glue.tup(a) for a in case[2]]
    c = objects.command(case[1], acts)
    if c is None: return
    command(c, ctx, "%s command %s" % (case[1], mc.short(acts)))
    if c.interface_status is not None: forms(c.interface_status, ctx, "interface status")
  elif kind == "act":
    a = glue.action(glue.tup(case[1]))
    what = "action %s" % mc.short(case[1])
    forms(a, ctx, what)
    forms(a.operation, ctx, "operation of " + what)
    if hasattr(a.operand, "as_dict"): forms(a.operand, ctx, "operand of " + what)
    ctx.trace(what)
  elif kind == "tag":
    for f in (False, True):
      command(glue.Command(tag_id=case[1], send_tag_response_when_completed=f), ctx, "tag %d %s" % (case[1], f))
      for e in (False, True):
        for more in ([], [("return", False, False, 0x40, 0, [case[1]])]):
          command(glue.parse_alp(alpdiff.enc([("tagresp", f, e, case[1])] + more))[0], ctx, "response tag %d %s %s" % (case[1], f, e))
  elif kind == "dll":
    m = dllmodel.untup(case[1])
    if "payload" not in m: m = dllmodel.fg(**m)
    f = dllmodel.decode(m, ctx)
    forms(f, ctx, dllmodel.shown(m))
    ctx.eq(norm(dllmodel.read(f, m)), norm(dllmodel.want(m)), "content after printing " + dllmodel.shown(m))
    ctx.trace(dllmodel.shown(m))
  elif kind == "files":
    s = glue.SystemFiles()
    for i in s.get_all_system_files():
      f = s.files[i]
      t = ctx.guard(lambda: str(f), "text of %s" % i)
      ctx.check(isinstance(t, str), "text of %s is %r" % (i, t))
      if hasattr(f, "as_dict"): dictionary(f, ctx.guard(lambda: f.as_dict(), "dictionary of %s" % i), ctx, "dictionary of %s" % i)
    ctx.trace("files")
  else:
    n, i, how = case[1:]
    o = objects.make(TABLES, n, i, how)
    what = "%s %s %d" % (how, n, i)
    forms(o, ctx, what)
    ctx.eq(norm(TABLES[n][1](o)), norm(TABLES[n][1](objects.make(TABLES, n, i, how))), "fields of %s after printing" % what)
    ctx.trace(what)
