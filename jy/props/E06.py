import modemworld, sched, mc, ref
from modemworld import Run, command, response, untagged

RULE = "one case per scenario (messages before and after, synchronous command, read error, callback or list, raw) and partition of its schedules: all schedules up to 3 deviations, 4 in the short scenarios (thorough 4 and 5) at points, up to 1, 2 in the short ones (thorough 2 and 3) at every line, so that stopping happens at every point of the reader; non-trivial: distinct schedules"
ASSUMPTIONS = ["not stopped from within a callback", "a waiting reopen may delay stopping until its pause is over", "reads and writes of one attribute are atomic"]
LINES = True

# U: message, < >: its halves, R: reboot, e: read error, f: read error followed by one failing reopen, s: a synchronous command runs meanwhile, X: stop, r: reading is started again
SCENARIOS = ["X", "UX", "UUX", "UXU", "<X>", "RX", "eX", "eXU", "UeX", "fX", "sX", "UXrU", "XrUX", "gX"]

def cases(tier):
  t = tier == "thorough"
  for sc in SCENARIOS:
    for raw in (False, True):
      if raw and ("s" in sc or len(sc) > 2): continue
      for cb in (True, False):
        parts = 8 if t else 2
        if not cb and not t and len(sc) > 2: continue
        for part in range(parts):
          small = len(sc) < 3 and "s" not in sc
          yield ["points", [sc, raw, cb], (5 if small else 4) if t else 4 if small else 3 if "s" not in sc else 2, part, parts]
          yield ["lines", [sc, raw, cb], (3 if small else 2) if t else 2 if small else 1, part, parts]

def body(sc, ctx):
  seq, raw, cb = sc
  def make(s):
    failing = [1] if "f" in seq else []
    run = Run(s, raw=raw, cb=cb, fail_opens=failing)
    w = run.world
    w.all_loud = "UX" in seq or ">" in seq
    stopped, delivered = [], []
    def count(m): return len(run.log) + len(m.get_unsolicited_responses_received()) + len(m.get_rebooted_received())
    def main():
      m = run.start()
      m.connect(check_alive=False)
      ts = []
      readers = lambda: [t for t in s.tasks if t.ident > 0 and t not in [x.task for x in ts]]
      for i, c in enumerate(seq):
        f = modemworld.frame(untagged(i), i) if c != "R" else modemworld.frame([0x40 + i], i, 5)
        if c in "UR": w.give([f])
        elif c == "<": w.give([f[:9]])
        elif c == ">": w.give([modemworld.frame(untagged(i - 2), i - 2)[9:]])
        elif c == "g": w.give([[0x55, 0xC0]])
        elif c in "ef": w.give(["error"])
        elif c == "s": ts.append(run.thread(lambda: m.execute_command(command(10), timeout_seconds=0.04)))
        elif c == "r":
          m.start_reading()
        elif c == "X":
          start = s.now
          m.stop_reading()
          took = s.now - start
          alive = [t.name for t in readers() if not t.done]
          ctx.eq(alive, [], "readers which still run after stopping")
          if not s.slow: ctx.check(took <= (11 if "f" in seq else 6), lambda: "stopping took %s s" % took)
          stopped.append(count(m))
      if seq[-1] == "X" or "r" not in seq: 
        sched.sleep(30)
        ctx.eq(count(m), stopped[-1], "deliveries after stopping")
      run.join(ts)
      s.idle()
      delivered.append(count(m))
    def check(s):
      modemworld.check_tasks(s)
      called, listed, boots, booted = run.received()
      got = called + listed
      want = [modemworld.want(untagged(i), raw) for i, c in enumerate(seq) if c in "U<"]
      ctx.eq([x for x in want if x in got], got, "messages delivered")
      if seq.endswith("rU"): ctx.eq(got[-1:], want[-1:], "message delivered after reading was started again")
      ctx.trace(repr(sc), repr(got), repr(boots), tuple(stopped))
    return main, check
  return make

def run(case, ctx):
  if case[0] == "schedule":
    modemworld.replay(case, body(case[1], ctx))
    return
  mode, sc, bound, part, parts = case
  n = modemworld.explore_all(sc, body(sc, ctx), bound, ctx, mode == "lines", part, parts)
  ctx.nontrivial.update((repr(sc), mode, part, k) for k in range(n))
