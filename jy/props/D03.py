import glue, ref, mc, dllmodel
from glue import norm
import itertools

RULE = "one case per stream (up to 3 frames of one type) and position of the first cut: all 1 and 2 cut splits (thorough: 3), byte-wise, with empty reads in between; all 2^(n-1) splits of the short streams; non-trivial: distinct splits"
ASSUMPTIONS = ["one call decodes at most one frame (see D03)", "supported features as in D01"]

def pool():
  F = dllmodel.fg
  fgs = [F(), F(start=True, ack=True, tc=(1, 1), tl=(2, 2), agc=9, id_type="VID", target=[1, 2], alp=[("return", False, False, 0x40, 0, [7, 9])]),
         F(no_origin=False, origin_type="VID", origin=[0x80, 0xFF], te=(7, 31), alp=[]), F(alp=[("tagreq", True, 9), ("read", True, False, 1, 2, 3)], crc=0)]
  bgs = [{"subnet": 5, "id_type": "NOID", "tag": 1, "payload": 0x0102, "crc": 0xFFFE}, {"subnet": 0, "id_type": "UID", "tag": 0, "payload": 0, "crc": 0},
         {"subnet": 255, "id_type": "VID", "tag": 63, "payload": 0xFFFF, "crc": 0xFFFF}]
  return fgs, bgs

def streams():
  fgs, bgs = pool()
  out = [[m] for m in fgs + bgs]
  out += [[a, b] for a in fgs for b in fgs] + [[a, b] for a in bgs for b in bgs]
  out += [[fgs[0], fgs[1], fgs[2]], [fgs[2], fgs[2], fgs[3]], [fgs[1], fgs[0], fgs[1]], [bgs[0], bgs[1], bgs[2]], [bgs[2], bgs[0], bgs[0]]]
  return out

def cases(tier):
  t = tier == "thorough"
  for i, ms in enumerate(streams()):
    n = sum(len(dllmodel.enc(m)) for m in ms)
    yield ["bytes", i]
    for c in range(1, n):
      for k in (1, 2) if not t else (1, 2, 3): yield ["cut", i, k, c]
    if n <= 14 or t and n <= 18:
      for hi in range(16): yield ["all", i, hi]

def play(ms, parts, ctx):
  p = dllmodel.parser(ms[0])
  todo = [(dllmodel.enc(m), norm(dllmodel.want(m)), m) for m in ms]
  buf = []
  for part in list(parts) + [[]] * (len(ms) + 1):
    buf = buf + part
    chunk = list(part)
    frames, info = ctx.guard(lambda: p.parse(chunk), "parsing %s" % [mc.hexs(x) for x in parts])
    ctx.step()
    what = "after %s with [%s] buffered" % (" | ".join(mc.hexs(x) for x in parts), mc.hexs(buf))
    ctx.eq(chunk, list(part), "the caller's bytes")
    got = [f for f in frames if f is not None]
    used = 0
    if todo and len(buf) >= len(todo[0][0]):
      bs, want, m = todo.pop(0)
      ctx.eq(len(got), 1, "number of frames " + what)
      ctx.eq(norm(dllmodel.read(got[0], m)), want, "frame " + what)
      used = len(bs)
      buf = buf[used:]
    else: ctx.eq(got, [], "frames " + what)
    ctx.eq((info["parsed"], info["buffer"], len(info["errors"])), (8 * used, 8 * len(buf), 0), "consumed bits, buffered bits and errors " + what)
  assert not todo and not buf
  ctx.nontrivial.add(repr(parts))
  ctx.trace(tuple(map(tuple, parts)))

def split(s, at):
  at = [0] + list(at) + [len(s)]
  return [s[a:b] for a, b in zip(at, at[1:])]

def run(case, ctx):
  ms = streams()[case[1]]
  s = [b for m in ms for b in dllmodel.enc(m)]
  if case[0] == "bytes":
    play(ms, [s], ctx)
    play(ms, split(s, range(1, len(s))), ctx)
    play(ms, [x for b in s for x in ([], [b], [])], ctx)
    for k in (2, 3, 5, 7): play(ms, split(s, range(k, len(s), k)), ctx)
  elif case[0] == "cut":
    k, c = case[2:]
    for rest in itertools.combinations(range(c + 1, len(s)), k - 1): play(ms, split(s, (c,) + rest), ctx)
  else:
    n = len(s) - 1
    for x in range(case[2], 1 << n, 16): play(ms, split(s, [j + 1 for j in range(n) if x >> j & 1]), ctx)
