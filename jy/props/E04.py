import modemworld, sched, mc, ref, serframes
from modemworld import Run, command, response, untagged
import itertools

RULE = "one case per sequence of up to 3 (thorough 4) letters: 4 kinds of messages, 10 kinds of garbage and unsupported or corrupt frames, read errors with 0-2 failing reopens, a synchronous command; parsed and raw, callback and list, default schedule; selected sequences with all schedules up to 1 (thorough 2) deviations at points, and 1 at every line; non-trivial: distinct sequences"
ASSUMPTIONS = ["what the modem sends while the port is closed is lost", "the two parts of one frame do not arrive on both sides of a failure", "whether frames of ping and unknown types are delivered is left open",
               "a frame that was cut off delays messages at most until its announced length has arrived", "reference: ref.scan"]
LINES = True

MESSAGES = "UFRL"
FAULTS = {"g": [0x55, 0xAA], "z": [0xC0], "y": [0xC0, 0x00], "v": [0xC0, 0x01, 0x00, 0x01, 0x00], "m": ref.frame([], 3, 5), "h": ref.frame(untagged(0xE0), 9)[:9],
          "u": ref.frame([0x20], 4), "o": ref.frame([0x05, 0x01], 4), "n": ref.frame(untagged(0xEE), 5, 9), "q": ref.frame(untagged(0xEE), 6, 2)}
FAULTS["k"] = ref.frame(untagged(0xE1), 7)
FAULTS["k"][5] ^= 0x10
LETTERS = MESSAGES + "".join(sorted(FAULTS)) + "012s"
FLUSH = [0] * 24

def configs(): return [(raw, cb) for raw in (False, True) for cb in (True, False)]

SELECTED = ["0U", "1U", "2U", "U0U", "kU", "h0U", "00U", "u1F"]

def cases(tier):
  t = tier == "thorough"
  for n in range(1, 4):
    for first in itertools.product(LETTERS if n < 3 or t else "UFghkmnou01", repeat=n - 1): yield ["seq", "".join(first)]
  if t:
    for first in itertools.product(LETTERS, repeat=3): yield ["seq", "".join(first)]
  for seq in SELECTED:
    for cfg in configs():
      yield ["points", seq, list(cfg), 2 if t else 1]
      if cfg[1]: yield ["lines", seq, list(cfg), 1]

def body(seq, cfg, ctx):
  raw, cb = cfg
  def make(s):
    s.patient = True
    failing, n = [], 1       # the first attempt to open is that of the constructor
    for c in seq:
      if c in "012":
        failing += range(n, n + int(c))
        n += int(c) + 1
    results = []
    run = Run(s, raw=raw, cb=cb, fail_opens=failing, on_frame=lambda i, p: [(0, [modemworld.frame(response(p[1], 0xA0 + i, True), 1)])] if len(p) > 1 and p[0] == 0xB4 else [])
    w = run.world
    def main():
      m = run.start()
      m.connect(check_alive=False)
      for i, c in enumerate(seq):
        if c in "012":
          w.give(["error"])
          before = w.good_opens
          s.block(lambda: w.good_opens > before, until=s.now + 120, what="reopened")
          if w.good_opens == before: raise mc.Violation("the port was not reopened within 120 s after a read error (%s)" % seq)
        elif c == "s": results.append([run.read(x) for x in m.execute_command(command(10 + i), timeout_seconds=0.3)])
        else:
          bs = FAULTS[c] if c in FAULTS else {"U": modemworld.frame(untagged(i), i), "F": modemworld.frame(response(99, i, True), i),
                 "R": modemworld.frame([0x40 + i], i, 5), "L": modemworld.frame([0x41], i, 4)}[c]
          w.give([bs])
        sched.sleep(0.5)
      w.give([FLUSH])
      s.idle()
    def check(s):
      modemworld.check_tasks(s)
      ctx.check(w.holder is not None, "the port is closed at the end")
      ctx.check(w.closes >= sum(1 for c in seq if c in "012"), "the port was not closed")
      ctx.check(not w.queue, "not everything was read")
      def ok(t, p):
        if t not in (1, 4, 5): return True
        return serframes.decode_ok(raw)(t, p)
      msgs = [x for x in ref.scan(w.read_log, ok)[0]]
      sync = [] if raw else [[modemworld.want(p)] for t, p in msgs if t == 1 and p[0] == 0xA3 and p[-1] >= 0xA0]
      if not raw: ctx.eq(results, sync, "results of synchronous commands in %s" % seq)
      want = [modemworld.want(p, raw) for t, p in msgs if t == 1 and not (not raw and p[0] == 0xA3 and p[-1] >= 0xA0)]
      called, listed, boots, booted = run.received()
      other = modemworld.want(untagged(0xEE), raw)
      called, listed = [x for x in called if x != other], [x for x in listed if x != other]
      ctx.eq((called, listed), (want, []) if cb else ([], want), "messages delivered to callback and list after %s [%s]" % (seq, mc.hexs(w.read_log)))
      ctx.eq((boots, booted), ([p[0] for t, p in msgs if t == 5], []), "reboots delivered after %s [%s]" % (seq, mc.hexs(w.read_log)))
      # and independent of the reference: the last message always arrives
      if seq[-1] in "UF" and called + listed: ctx.eq((called + listed)[-1], modemworld.want(untagged(len(seq) - 1) if seq[-1] == "U" else response(99, len(seq) - 1, True), raw), "last message")
      ctx.trace(cfg, seq)
      ctx.nontrivial.add((tuple(cfg), seq))
    return main, check
  return make

def run(case, ctx):
  if case[0] == "schedule":
    modemworld.replay(case, body(case[1][0], case[1][1], ctx))
  elif case[0] == "seq":
    for last in LETTERS:
      seq = case[1] + last
      if "h" in seq and "s" in seq or "z" in seq and "s" in seq or "y" in seq and "s" in seq or "v" in seq and "s" in seq: continue
      for cfg in configs():
        if not cfg[1] and cfg[0]: continue
        modemworld.explore_all([seq, list(cfg)], body(seq, cfg, ctx), 0, ctx, False, 0, 1)
  else:
    mode, seq, cfg, bound = case
    modemworld.explore_all([seq, cfg], body(seq, cfg, ctx), bound, ctx, mode == "lines", 0, 1)
