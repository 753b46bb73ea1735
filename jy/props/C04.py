import glue, ref, mc, serframes
import itertools

RULE = "one case per stream and fault (thorough: more values per position and all pairs of faults), each fed at once, byte by byte and cut at the fault, and per string of garbage between frames; non-trivial: distinct damaged streams"
ASSUMPTIONS = ["a frame whose counter or message type alone is altered is not protected by the checksum; ping and unknown types are left open",
               "reference: ref.scan, which delivers whole frames with a valid checksum and decodable content, scanning from left to right"]
FLUSH = [0] * 270

def base(i):
  f = ref.frame
  return [[f([0x20, 0x40, 0, 2, 0xC0, 7], 1), f([0x34, 7, 1, 0x40, 0, 8], 2), f([0x41, 0xC0, 0], 3, 4)],
          [f([1], 1, 5), f([0x20, 0x41, 0, 8] + [0xC0] * 7 + [5], 2), f([0x33, 0x41], 3)],
          [f([0x41, 0, 0xC0, 6], 1, 4), f([], 2), f([0x20, 0x40, 0, 2, 0xC0, 6], 3), f([9], 4, 5)],
          [f([0x33, 0x40, 0x33, 0x41], 1), f([0x20, 0x40, 0, 70 & 0x3F] + [(j * 3) & 0xFF for j in range(6)], 2), f([0x34, 0xC0, 0x23, 0xC0][:2], 3)]][i]

def flat(fs): return [b for f in fs for b in f]

def faults(s, values):
  n = len(s)
  for i in range(n):
    for v in values(s[i]):
      if v != s[i]: yield ("set", i, v)
    yield ("del", i)
    yield ("dup", i)
    for v in (0xC0, 0x00, 0x01, 0x5A, 0xFF): yield ("ins", i, v)
    for k in (2, 3, 7): yield ("cut", i, k)
    yield ("trunc", i)

def apply_fault(s, f):
  k, i = f[0], f[1]
  if k == "set": return s[:i] + [f[2]] + s[i + 1:]
  if k == "del": return s[:i] + s[i + 1:]
  if k == "dup": return s[:i] + [s[i]] + s[i:]
  if k == "ins": return s[:i] + [f[2]] + s[i:]
  if k == "cut": return s[:i] + s[i + f[2]:]
  return s[:i]

FEW = lambda b: [b ^ 1, b ^ 0x80, 0, 0xC0, 0xFF]
BITS = lambda b: mc.uniq([b ^ (1 << k) for k in range(8)] + [0, 0xC0, 0xFF, (b + 1) & 0xFF, (b - 1) & 0xFF])
ALL = lambda b: range(256)
GARBAGE = [0xC0, 0x00, 0x01, 0x05, 0xFF, 0x41]

def cases(tier):
  t = tier == "thorough"
  for i in range(4):
    n = len(flat(base(i)))
    for f in faults(flat(base(i)), ALL if t else BITS): yield ["one", i, list(f)]
  for i in range(2 if not t else 4):
    s = flat(base(i))
    for a in range(len(s)): 
      for k in range(4): yield ["two", i, a, k]
  for n in range(1, 5 if not t else 6):
    for g in itertools.product(GARBAGE, repeat=n): yield ["garbage", list(g)]
  for ln in range(256): yield ["announce", ln]

def check(s, intact, ctx, extra=(), raws=(False, True)):
  """intact: the messages which have to be delivered, in this order"""
  for raw in raws:
    want = [serframes.want_message(t, p, raw) for t, p in intact]
    for parts in ([s + FLUSH], [s, FLUSH]) + (([[b] for b in s] + [FLUSH],) if not raw else ()) + tuple([s[:c], s[c:] + FLUSH] for c in extra):
      f = serframes.Feed(ctx, raw)
      for p in parts: f.feed(p)
      if not f.compare(): 
        ctx.add("left open")
        continue
      got = list(f.msgs)
      for w in want:
        while got and got[0] != w: got.pop(0)
        ctx.check(bool(got), lambda: "intact frame with %s is not delivered from [%s], got %s" % (w, mc.hexs(s), mc.short(f.msgs)))
        got.pop(0)
  ctx.nontrivial.add(tuple(s))
  ctx.trace(tuple(s))

def intact(frames, spans):
  """the frames no fault has touched; spans: positions touched, in the undamaged stream"""
  out, pos = [], 0
  for f in frames:
    if not any(pos <= x < pos + len(f) for x in spans): out.append((f[3], f[7:]))
    pos += len(f)
  return out

def touched(f):
  k, i = f[0], f[1]
  if k == "cut": return set(range(i, i + f[2]))
  if k == "trunc": return set(range(i, 1000))
  if k in ("ins", "dup"): return set([i])   # (a superset: an insertion before the first byte leaves the frame intact)
  return set([i])

def run(case, ctx):
  kind = case[0]
  if kind == "one":
    fs = base(case[1])
    f = tuple(case[2])
    s = apply_fault(flat(fs), f)
    check(s, intact(fs, touched(f)), ctx, extra=[f[1], f[1] + 1])
  elif kind == "two":
    fs, a, k = base(case[1]), case[2], case[3]
    s0 = flat(fs)
    first = list(faults(s0, FEW))
    first = [f for f in first if f[1] == a][k::4]
    for f in first:
      if f[0] != "set": continue
      s1 = apply_fault(s0, f)
      for b in range(a + 1, len(s0)):
        for g in (("set", b, s0[b] ^ 0x40), ("set", b, 0xC0), ("del", b), ("ins", b, 0)):
          s = apply_fault(s1, g)
          ms = intact(fs, touched(f) | touched(g))
          fd = serframes.Feed(ctx, False)
          fd.feed(s + FLUSH)
          if not fd.compare(): continue
          got = list(fd.msgs)
          for w in [serframes.want_message(t, p, False) for t, p in ms]:
            while got and got[0] != w: got.pop(0)
            ctx.check(bool(got), lambda: "intact frame with %s is not delivered from [%s]" % (w, mc.hexs(s)))
            got.pop(0)
          ctx.trace(tuple(s))
  elif kind == "garbage":
    g = case[1]
    a, b = (1, [0x20, 0x40, 0, 2, 0xC0, 0]), (5, [7])
    A, B = ref.frame(a[1], 1, 1), ref.frame(b[1], 2, 5)
    check(g + A + g + B, [a, b], ctx, raws=(False,))
  else:
    # the header of a frame that announces n bytes, which never come; intact frames follow
    n = case[1]
    a, b = (1, [0x20, 0x40, 0, 2, 0xC0, 0]), (4, [0x41, 0x42])
    A, B = ref.frame(a[1], 1, 1), ref.frame(b[1], 2, 4)
    for h in ([0xC0, 0, 1, 1, n, 0x12, 0x34], [0xC0, 0, 1, 1, n], [0xC0, 0, 1, 4, n, 0, 0] + [0x55] * (n // 2)):
      check(h + A + B, [a, b], ctx, extra=[len(h)], raws=(False,))
      check(A + h + B, [a, b], ctx, extra=[len(A)], raws=(True,))
