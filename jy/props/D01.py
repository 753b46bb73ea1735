import glue, ref, mc, dllmodel
from glue import norm

RULE = "one case per frame: all target ids x origin ids x control flags, all values of every one byte field over three backgrounds, dense 16 bit fields, address bytes, all ALP letters and pairs, every frame length; non-trivial: distinct frames"
ASSUMPTIONS = ["supported: no hopping, no network layer security, no ack templates, agc levels up to 31, Tc present exactly if an ack is requested at the start of a dialog",
               "the length byte agrees with the content", "reference: dllmodel.enc, ref.enc_action"]

def cases(tier):
  seen = set()
  for kind, vals in (("fg", dllmodel.fg_values(tier, True)), ("bg", dllmodel.bg_values(tier))):
    for v in vals: yield [kind, v]

def run(case, ctx):
  m = dllmodel.untup(case[1])
  if case[0] == "fg": m = dllmodel.fg(**m)
  f = dllmodel.decode(m, ctx)
  got = ctx.guard(lambda: dllmodel.read(f, m), "content of " + dllmodel.shown(m))
  ctx.eq(norm(got), norm(dllmodel.want(m)), "decoding of " + dllmodel.shown(m))
  ctx.nontrivial.add(tuple(dllmodel.enc(m)))
  ctx.trace(tuple(dllmodel.enc(m)))
