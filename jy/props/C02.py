import glue, ref, mc, serframes, alphabet
import itertools

RULE = "one case per sequence of frames (up to 3, thorough 4) per mode (each fed at once and frame by frame), per payload length per message type, per counter history, and per run of 600 frames; non-trivial: distinct streams"
ASSUMPTIONS = ["whether the very first frame of a stream is counted as a counter error is left open",
               "ping and unknown message types are left open", "reference: ref.scan, ref.dec_action"]

DELTAS = [1, 0, 2, 255, 128]    # counter of a frame minus the counter of the previous frame

def cases(tier):
  t = tier == "thorough"
  for raw in (False, True):
    n = len(serframes.letters(raw))
    for d in range(1, 4):
      some = range(n) if d < 3 or t else [i for i in range(n) if i % 3 != 1 or i > n - 4]
      for s in itertools.product(some, repeat=d): yield ["seq", raw, list(s)]
    if t:
      for s in itertools.product(range(n), repeat=4):
        yield ["seq", raw, list(s)]
    for ln in range(256): yield ["len", raw, ln]
    for start in (0, 1, 2, 127, 128, 254, 255) if t else (0, 1, 127, 253, 255):
      for ds in itertools.product(range(len(DELTAS)), repeat=3 if not t else 5): yield ["count", raw, start, list(ds)]
    for start in range(0, 256, 8 if t else 64): yield ["run", raw, start]
  for a in (alphabet.letters() if not t else alphabet.parseable("quick")): yield ["act", a]

def check_all(chunks, msgs, raw, ctx, what, deltas=None):
  """chunks: one frame each; msgs: what they carry"""
  whole = serframes.Feed(ctx, raw)
  whole.feed([b for c in chunks for b in c])
  want = [serframes.want_message(t, p, raw) for t, p in msgs]
  ctx.eq(whole.msgs, want, "messages of " + what)
  ctx.eq((whole.errors, whole.skipped, whole.buffered, whole.parsed), (0, 0, 0, sum(len(c) for c in chunks)), "errors, skipped, buffered and consumed bytes of " + what)
  single = serframes.Feed(ctx, raw)
  for i, c in enumerate(chunks):
    new = single.feed(c)
    ctx.eq(new, want[i:i + 1], "messages of frame %d of %s" % (i, what))
    if i == 0: first = getattr(single.p, "error_counter", 0)
  ctx.eq((single.errors, single.skipped, single.buffered), (0, 0, 0), "errors, skipped and buffered bytes of " + what)
  gaps = sum(1 for d in deltas or () if d != 1)
  if chunks and hasattr(single.p, "error_counter"):
    ctx.eq(single.p.error_counter - first, gaps, "counter errors of " + what)
    ctx.check(first in (0, 1), lambda: "counter errors of the first frame: %r" % first)
    ctx.eq(whole.p.error_counter, single.p.error_counter, "counter errors of %s at once" % what)
  ctx.nontrivial.add(tuple(whole.rx))
  ctx.trace(raw, tuple(whole.rx))

def run(case, ctx):
  kind = case[0]
  if kind == "seq":
    raw, idx = case[1:]
    msgs = [serframes.letters(raw)[i] for i in idx]
    for start in ((1,) if len(idx) > 1 else (0, 1, 2, 254, 255)):
      check_all([ref.frame(p, start + i, t) for i, (t, p) in enumerate(msgs)], msgs, raw, ctx, "frames %s" % idx)
  elif kind == "len":
    raw, n = case[1:]
    for t in (1, 4, 5):
      if t == 5 and n == 0: continue
      if t == 1 and not raw:
        ps = [[0x33, 0x41] * (n // 2)] if n % 2 == 0 else []
        if n >= 5: ps.append(ref.enc_action(("return", False, False, 0x41, 1, [(i * 3 + n) & 0xFF for i in range(n - 4 if n - 4 < 64 else n - 5)])))
      else: ps = [[0] * n, [0xC0] * n, [(i * 7 + n) & 0xFF for i in range(n)]]
      for p in ps:
        msgs = [(t, p), (4, [0x41]), (t, p)]
        check_all([ref.frame(q, 9 + i, u) for i, (u, q) in enumerate(msgs)], msgs, raw, ctx, "type %d with %d bytes" % (t, n))
  elif kind == "count":
    raw, start, ds = case[1:]
    ds = [DELTAS[i] for i in ds]
    c, chunks, msgs = start, [], []
    for i, d in enumerate([None] + ds):
      if d is not None: c += d
      t, p = [(1, [0x33, 0x41]), (4, [0x41]), (5, [1])][i % 3]
      msgs.append((t, p))
      chunks.append(ref.frame(p, c, t))
    check_all(chunks, msgs, raw, ctx, "counters from %d by %s" % (start, ds), ds)
  elif kind == "run":
    raw, start = case[1:]
    msgs = [((1, [0x33, 0x41]), (4, [0x41, i & 0xFF]), (5, [i & 0xFF]))[i % 3] for i in range(600)]
    check_all([ref.frame(p, start + i, t) for i, (t, p) in enumerate(msgs)], msgs, raw, ctx, "a run of 600 frames")
  else:
    bs = ref.enc_action(glue.tup(case[1]))
    if len(bs) > 255: return
    msgs = [(1, bs), (1, [0x33, 0x41])]
    check_all([ref.frame(p, 1 + i, t) for i, (t, p) in enumerate(msgs)], msgs, False, ctx, "%s" % (case[1],))
