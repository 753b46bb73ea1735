import glue, ref, mc
from glue import CT, by, stream

RULE = "one case per encoded byte (constructed, decoded, serialized, as integer), per block of 512 consecutive durations and per neighbourhood of a representable duration, both roundings; non-trivial: durations"
ASSUMPTIONS = ["the smallest exponent which fits is the one with duration <= 31 * 4^exponent", "durations are integers"]

def cases(tier):
  for b in range(256): yield ["byte", b]
  step = 512
  for base in range(0, 507905, step):
    if tier == "thorough" or base < 10240: yield ["durations", base, min(base + step, 507905), 1]
    else: yield ["durations", base, min(base + step, 507905), 37]
  for e in range(8):
    for m in range(32): yield ["durations", max(0, m * 4 ** e - 3), min(m * 4 ** e + 4, 507905), 1]
  yield ["durations", 507800, 507905, 1]

def run(case, ctx):
  if case[0] == "byte":
    b = case[1]
    e, m = b >> 5, b & 31
    want = (4 ** e) * m
    for tail in ([], [0xFF], [0]):
      s = stream([b] + tail)
      c = CT.parse(s)
      ctx.step()
      ctx.eq((c.exp, c.mant, s.pos), (e, m, 8), "decoding %02x" % b)
    for c in (c, CT(e, m), CT(exp=e, mant=m)):
      ctx.eq((by(c), c.compressed_value(), int(c), c.decompress()), ([b], b, want, want), "compressed time %02x" % b)
    ctx.raises(lambda: CT.parse(stream([])), "no bytes")
    # every representable duration compresses to itself
    for ceil in (True, False):
      ctx.eq(int(CT.compress(want, ceil)), want, "compressing %d" % want)
    ctx.trace(b)
    return
  _, lo, hi, step = case
  for v in range(lo, hi, step):
    e = 0
    while v > 31 * 4 ** e: e += 1
    if e > 7: continue
    q, r = divmod(v, 4 ** e)
    for ceil, m in ((True, q + (1 if r else 0)), (False, q), (None, q + (1 if r else 0))):
      c = CT.compress(v) if ceil is None else CT.compress(v, ceil)
      ctx.step()
      ctx.eq((c.exp, c.mant), (e, m), "compressing %d, ceil=%s" % (v, ceil))
    ctx.trace(v)
  ctx.tick()
