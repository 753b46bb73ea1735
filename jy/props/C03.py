import glue, ref, mc, serframes
import itertools

RULE = "one case per stream and split: all 1 and 2 cut splits (thorough: 3 cuts), the byte-wise split, the same with empty reads in between, and all 2^(n-1) splits of the short streams; non-trivial: distinct splits"
ASSUMPTIONS = ["streams with ping or unknown message types are left open", "reference: ref.scan"]
L = serframes.letters(False)

def damaged():
  f = lambda p, c=1, t=1: ref.frame(p, c, t)
  a, b = f([0x20, 0x40, 0, 2, 0xC0, 0], 1), f([0x34, 7, 1, 0x40, 0, 8], 2)
  log, boot = f([0x41, 0xC0], 3, 4), f([1], 4, 5)
  flip = lambda bs, i, v: bs[:i] + [bs[i] ^ v] + bs[i + 1:]
  out = [a + b, a + log + boot + b, [0x55, 0xC0] + a, a + [0, 1, 2] + b, flip(a, 5, 1) + b + log, flip(a, 8, 0x80) + b, a[:9] + b + log,
         [0xC0] * 5 + a + [0xC0] * 4 + b, [0xC0, 0] + a, [0xC0, 0, 1, 1] + a + b, flip(a, 4, 3) + b + boot, flip(a, 4, 9) + b + boot,
         f([0x20], 1) + a, f([], 1, 5) + a, f([0x05, 0xC0, 0], 1) + log, flip(a, 0, 1) + b, flip(a, 1, 1) + b,
         f([]) + f([], 2) + f([], 3, 4), f(ref.frame([0x33, 0x41], 9), 1, 4) + a, flip(f(ref.frame([0x33, 0x41], 9), 1, 4), 5, 1) + a,
         [0xC0, 0, 0, 1, 255, 0, 0] + a + b + [0] * 20, a[1:] + b, a + b[:-1] + a, a + b[:5]]
  return out

def short():
  return [ref.frame([], 1) + [0x11], ref.frame([0x33, 0x41], 1) + [0xC0], [0xC0] + ref.frame([], 1, 4), [0xC0, 0] + ref.frame([1], 1, 5), ref.frame([0x20], 1) + [0xC0, 0, 1],
          [0xC0, 0, 1, 4, 0, 0xFF, 0xFE] + [0xC0, 0, 1]]

def cuts(n, k):
  return itertools.combinations(range(1, n), k)

def cases(tier):
  t = tier == "thorough"
  for i, s in enumerate(damaged()):
    for raw in (False, True):
      yield ["bytes", i, raw]
      for k in (1, 2) if not t or len(s) > 45 else (1, 2, 3):
        # one case per position of the first cut
        for c in range(1, len(s)): yield ["cut", i, raw, k, c]
  for i, s in enumerate(short()):
    for raw in (False, True):
      n = len(s) - 1
      for hi in range(1 << 4): yield ["all", i, raw, hi]
  for n in (100, 255):
    for c in range(1, n + 7, 1): yield ["long", n, c]

def reference(s, raw, ctx):
  f = serframes.Feed(ctx, raw)
  f.feed(s)
  ctx.check(f.compare() is not False, "stream is unspecified")
  return f

def compare(s, parts, whole, raw, ctx):
  f = serframes.Feed(ctx, raw)
  for i, p in enumerate(parts): f.feed(p)
  what = " of %s" % " | ".join(mc.hexs(p) for p in parts)
  ctx.eq(f.msgs, whole.msgs, "messages" + what)
  ctx.eq((f.skipped, f.parsed, f.buffered), (whole.skipped, whole.parsed, whole.buffered), "skipped, consumed and buffered bytes" + what)
  f.rest()
  ctx.nontrivial.add(repr(parts))
  ctx.trace(raw, tuple(map(tuple, parts)))

def split(s, at):
  at = [0] + list(at) + [len(s)]
  return [s[a:b] for a, b in zip(at, at[1:])]

def run(case, ctx):
  kind = case[0]
  if kind == "long":
    n, c = case[1:]
    s = ref.frame([(i * 11) & 0xFF for i in range(n)], 1, 4) + ref.frame([0x33, 0x41], 2)
    whole = reference(s, False, ctx)
    compare(s, split(s, [c]), whole, False, ctx)
    compare(s, split(s, [c, c + 1]), whole, False, ctx)
    return
  i, raw = case[1:3]
  s = (short() if kind == "all" else damaged())[i]
  whole = reference(s, raw, ctx)
  if kind == "bytes":
    compare(s, split(s, range(1, len(s))), whole, raw, ctx)
    compare(s, [x for b in s for x in ([], [b], [])], whole, raw, ctx)
    for k in (2, 3, 5, 7, 8): compare(s, split(s, range(k, len(s), k)), whole, raw, ctx)
  elif kind == "cut":
    k, c = case[3:]
    for rest in itertools.combinations(range(c + 1, len(s)), k - 1):
      parts = split(s, (c,) + rest)
      compare(s, parts, whole, raw, ctx)
      if k == 1: compare(s, [[], parts[0], [], [], parts[1], []], whole, raw, ctx)
  else:
    n = len(s) - 1
    for m in range(case[3], 1 << n, 1 << 4):
      compare(s, split(s, [j + 1 for j in range(n) if m >> j & 1]), whole, raw, ctx)
