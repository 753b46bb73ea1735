import glue, ref, mc, serframes
import itertools

RULE = "one case per string of symbols of the given length, fed symbol by symbol (all strings of 4, thorough 5, symbols of 13), and per prefix of an explicit-state search that merges strings which leave the same bytes in the buffer (depth 5, thorough 6); non-trivial: distinct buffers"
ASSUMPTIONS = ["the search merges histories by the bytes left in the buffer; every new buffer is expanded by replaying its first history on a new parser",
               "reference for the messages: ref.scan; ping and unknown message types are left open"]

SYM = [[0xC0], [0x33, 0x41], [0x01], [0x04], [0x05], [0xFF], [0x02],
       [0xC0, 0x00], [0xC0, 0x00, 0x01, 0x01], [0xC0, 0, 7, 4, 1], ref.frame([0x33, 0x41], 3), ref.frame([0x20, 0x40, 0, 1, 0xC0], 4)[3:], ref.frame([0x20], 5)]
SMALL = [0, 1, 2, 3, 4, 5, 8, 10]

def cases(tier):
  t = tier == "thorough"
  n = 4 if t else 3
  for h in itertools.product(range(len(SYM)), repeat=n): yield ["all", list(h), 1]
  for i in range(len(SYM)):
    for j in range(len(SYM)): yield ["search", [i, j], (6 if t else 5)]
  for a in range(256): yield ["bytes", a]
  for n in range(1, 9): yield ["same", n]

def step(hist, raw, ctx, chunks=None):
  f = serframes.Feed(ctx, raw)
  for i in hist:
    f.feed(SYM[i])
    f.rest()
  f.compare()
  return f

def run(case, ctx):
  kind = case[0]
  if kind == "all":
    h, more = case[1:]
    for raw in (False, True):
      for x in itertools.product(range(len(SYM)), repeat=more):
        f = step(h + list(x), raw, ctx)
        one = serframes.Feed(ctx, raw)
        one.feed(f.rx)
        ctx.eq((one.msgs, one.skipped, one.parsed), (f.msgs, f.skipped, f.parsed), "at once: [%s]" % mc.hexs(f.rx))
        ctx.trace(raw, tuple(f.rx))
  elif kind == "search":
    pre, depth = case[1:]
    for raw in (False, True):
      seen, todo = set(), [pre]
      for d in range(len(pre), depth + 1):
        nxt = []
        for h in todo:
          f = step(h, raw, ctx)
          b = tuple(f.rest())
          ctx.trace(raw, b)
          if b in seen: continue
          seen.add(b)
          ctx.nontrivial.add(b)
          if d < depth: nxt += [h + [i] for i in (range(len(SYM)) if d < 4 else SMALL[:4] if depth < 6 else SMALL)]
          ctx.tick()
        todo = nxt
  elif kind == "bytes":
    # every pair of bytes, alone and behind the beginning of a frame
    for pre in ([], [0xC0], [0xC0, 0, 1], [0xC0, 0, 1, 1, 2, 0, 0], ref.frame([0x33, 0x41], 1)[:6], [0xC0, 0, 1, 4, 0]):
      for b in range(256):
        f = serframes.Feed(ctx, False)
        f.feed(pre)
        f.feed([case[1], b])
        f.rest()
        f.compare()
        ctx.trace(tuple(f.rx))
  else:
    for v in range(256):
      f = serframes.Feed(ctx, False)
      for k in range(40 * case[1] // 8 + 1): 
        f.feed([v] * case[1])
      f.rest()
      f.compare()
      ctx.trace(v, case[1])
