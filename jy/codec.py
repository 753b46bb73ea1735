"""Encoding and decoding of one structure of the implementation against the reference."""
import ref, mc, glue
from glue import norm, by, stream

TAILS = ([], [0x00, 0xFF, 0xC0], [0xFF] * 9)

class Codec(object):
  def __init__(self, name, enc, dec, build, read, parse, consume=True, view=lambda v: v):
    """view: what read() returns for the values v"""
    self.name, self.enc, self.dec, self.build, self.read, self.parse, self.consume, self.view = \
      name, enc, dec, build, read, parse, consume, view

  def expect(self, b):
    try:
      v, used = self.dec(b, 0)
      return ("ok", v, used)
    except ref.Short: return ("reject", "truncated")
    except ref.Bad as e: return ("reject", str(e))
    except ref.Unspecified: return ("unspecified",)

  def values(self, v, ctx, tail=0):
    """v: serialized exactly, decoded exactly"""
    want = self.enc(v)
    o = ctx.guard(lambda: self.build(v), "constructing %s %s" % (self.name, mc.short(v)))
    got = ctx.guard(lambda: by(o), "serializing %s %s" % (self.name, mc.short(v)))
    ctx.step(2)
    ctx.eq(mc.hexs(got), mc.hexs(want), "bytes of %s %s" % (self.name, mc.short(v)))
    ctx.eq(norm(self.read(o)), norm(self.view(v)), "fields of %s" % self.name)
    self.octets(want, ctx, tail)

  def octets(self, b, ctx, tail=0):
    """any bytes: decoded as the reference does, or rejected"""
    e = self.expect(b)
    if e[0] == "unspecified": return
    ctx.step()
    if e[0] == "reject":
      try: o = self.parse(stream(b))
      except Exception:
        ctx.trace(self.name, tuple(b), "rejected")
        return
      ctx.fail("%s: [%s] (%s) was decoded as %s" % (self.name, mc.hexs(b), e[1], mc.short(norm(self.read(o)))))
    s = stream(b + TAILS[tail % 3])
    o = ctx.guard(lambda: self.parse(s), "decoding %s [%s]" % (self.name, mc.hexs(b)))
    ctx.eq(norm(ctx.guard(lambda: self.read(o), "fields of %s [%s]" % (self.name, mc.hexs(b)))), norm(self.view(e[1])), "%s decoded from [%s]" % (self.name, mc.hexs(b)))
    if self.consume: ctx.eq(s.pos, 8 * e[2], "bits consumed by %s [%s]" % (self.name, mc.hexs(b)))
    again = ctx.guard(lambda: by(o), "serializing decoded %s [%s]" % (self.name, mc.hexs(b)))
    ctx.eq(mc.hexs(again), mc.hexs(self.enc(e[1])), "re-serialized %s [%s]" % (self.name, mc.hexs(b)))
    ctx.trace(self.name, tuple(b))
    ctx.nontrivial.add((self.name, tuple(b)))

  def cuts(self, b, ctx):
    for n in range(len(b)): self.octets(b[:n], ctx)

def sweeps(bases, step=1):
  """every byte of every base replaced by all values, and all pairs of bits flipped"""
  for b in bases:
    for i in range(len(b)):
      for x in range(0, 256, step): yield b[:i] + [x] + b[i + 1:]

def bit_pairs(b):
  n = 8 * len(b)
  for i in range(n):
    for j in range(i):
      c = list(b)
      c[i // 8] ^= 0x80 >> (i % 8)
      c[j // 8] ^= 0x80 >> (j % 8)
      yield c

def chunks(xs, n):
  group = []
  for x in xs:
    group.append(x)
    if len(group) == n:
      yield group
      group = []
  if group: yield group

def run_cases(codecs, case, ctx):
  """cases: ["v", codec, [values]], ["b", codec, [bytes]], ["cut", codec, [bytes]]"""
  c = codecs[case[1]]
  for i, x in enumerate(case[2]):
    ctx.tick()
    if case[0] == "v": c.values(norm(x), ctx, i)
    elif case[0] == "b": c.octets([int(y) for y in x], ctx, i)
    else: c.cuts([int(y) for y in x], ctx)

def cases_for(name, codec, values, bases, tier, extra=(), pairs=True):
  """the usual exploration of one structure"""
  for g in chunks(values, 16): yield ["v", name, g]
  for g in chunks(sweeps(bases), 64): yield ["b", name, g]
  for b in bases: yield ["cut", name, [b]]
  if pairs:
    for b in bases if tier == "thorough" else bases[-1:]:
      if len(b) <= 20 or tier == "thorough":
        for g in chunks(bit_pairs(b), 64): yield ["b", name, g]
  for g in chunks(extra, 32): yield ["b", name, g]
