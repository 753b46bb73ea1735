import glue, ref, mc
from glue import Length, Offset, stream, by

RULE = "one case per block of 64 consecutive values (each value: encode, decode all its forms of 1..4 bytes at 3 alignments of following bytes, every truncation), plus one per boundary value; non-trivial: distinct encodings"
ASSUMPTIONS = ["reference: ref.length_bytes / ref.dec_length"]

def cases(tier):
  yield ["values", [0, 1, 63, 64, 16383, 16384, 0x3FFFFF, 0x400000, 0x3FFFFFFF]]
  for base in range(0, 0x4800 if tier == "quick" else 0x400000, 64): yield ["block", base]
  edges = mc.uniq([v for v in mc.dense_uints(30, "thorough") if v >= 0x4800])
  for i in range(0, len(edges), 64): yield ["values", edges[i:i + 64]]
  for base in (0x3FFFC0, 0x400000, 0x3FFFFFC0, 0x1000000, 0xFFFFC0): yield ["block", base]
  yield ["domain"]
  for f in range(256): yield ["offset", f]

def run(case, ctx):
  if case[0] == "domain":
    for v in [-1, -2, -0x3FFFFFFF, 0x40000000, 0x40000001, 0x7FFFFFFF, 0xFFFFFFFF, 1 << 32, 1 << 40, None, "1", 1.5, [1]]:
      ctx.step()
      ctx.raises(lambda: Length(v), "length %r" % (v,), ValueError)
      ctx.trace("rejected", repr(v))
    return
  if case[0] == "offset":
    f = case[1]
    for v in (0, 5, 63, 64, 16383, 16384, 0x3FFFFF, 0x400000, 0x3FFFFFFF):
      b = [f] + ref.length_bytes(v)
      ctx.eq(by(Offset(id=f, offset=Length(v))), b, "offset %d of file %d" % (v, f))
      s = stream(b + [0xFF])
      o = Offset.parse(s)
      ctx.step(2)
      ctx.eq((o.id, o.offset.value, s.pos), (f, v, 8 * len(b)), "decoded offset")
      ctx.trace("offset", f, v)
    return
  values = range(case[1], case[1] + 64) if case[0] == "block" else case[1]
  tick = 0
  for v in values:
    want = ref.length_bytes(v)
    got = by(Length(v))
    ctx.step()
    ctx.eq(got, want, "encoding of length %d" % v)
    ctx.eq(by(Length(value=v)), want, "encoding of length %d again" % v)
    ctx.nontrivial.add(v)
    for size in range(len(want), 5):
      b = ref.length_bytes(v, size)
      # the value is taken from exactly its own bytes: followed by nothing, zeros or ones; sizes alternate
      for tail in ([], [0, 0, 0, 0], [255, 255, 255, 255]) if size == len(want) or v < 300 else ([0x5A],):
        s = stream(b + tail)
        l = Length.parse(s)
        ctx.step()
        ctx.eq((l.value, s.pos), (v, 8 * size), "decoding %s" % mc.hexs(b))
        if size == len(want): ctx.eq(by(l), want, "re-encoding %s" % mc.hexs(b))
      if v < 300 or case[0] == "values":
        for cut in range(len(b)):
          ctx.step()
          ctx.raises(lambda: Length.parse(stream(b[:cut])), "truncated length %s" % mc.hexs(b[:cut]))
    ctx.trace("len", v)
