import glue, ref, mc, dllmodel
from glue import norm

RULE = "one case per frame, as D01; non-trivial: distinct frames"
ASSUMPTIONS = ["supported features as in D01; frames carrying an ALP tag or interface status are excluded (A06)"]

def cases(tier):
  for kind, vals in (("fg", dllmodel.fg_values(tier, False)), ("bg", dllmodel.bg_values(tier))):
    for v in vals: yield [kind, v]

def run(case, ctx):
  m = dllmodel.untup(case[1])
  if case[0] == "fg": m = dllmodel.fg(**m)
  f = dllmodel.decode(m, ctx)
  clean = dict(m, rfu=False) if case[0] == "fg" else m
  for i in (1, 2):
    got = ctx.guard(lambda: glue.by(f), "serializing decoded " + dllmodel.shown(m))
    ctx.step()
    ctx.eq(mc.hexs(got), mc.hexs(dllmodel.enc(clean)), "bytes of decoded " + dllmodel.shown(m))
  ctx.nontrivial.add(tuple(got))
  ctx.trace(tuple(got))
