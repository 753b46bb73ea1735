import modemworld, sched, mc, ref
from modemworld import Run, command, request
import itertools

RULE = "one case per scenario (threads x commands each, synchronous or not, starting counter; or with the port lost and reopened meanwhile) and partition of its schedules; schedules: all with up to 2 (thorough 3) preemptions at synchronization, input/output and shared attributes, and up to 1 (thorough 2) preemptions at every line; non-trivial: distinct schedules"
ASSUMPTIONS = ["writes are split in two halves, other threads may run in between", "reads and writes of one attribute are atomic",
               "when the port is lost: one failure; a command that raises may have left a part of its frame on the lost port, and used a counter"]

# per thread: kinds of its commands: a: asynchronous, s: synchronous with an answer, t: synchronous that times out
LINES = True
SCENARIOS = [["aa", "aa"], ["a", "a", "a"], ["s", "aa"], ["t", "a", "a"], ["aaa", "s"]]

def cases(tier):
  t = tier == "thorough"
  for i in range(len(LOSSES)):
    parts = 32 if t else 8
    for part in range(parts):
      yield ["loss", i, "points", 4 if t else 3 if i == 0 else 2, part, parts]
      yield ["loss", i, "lines", 2 if t else 1, part, parts]
  for i, sc in enumerate(SCENARIOS):
    for counter in (0, 254) if i == 0 or t else (254,):
      parts = 32 if t else 8
      for part in range(parts):
        yield ["points", i, counter, 3 if t else 2 if i < 3 else 1, part, parts]
        yield ["lines", i, counter, 2 if t else 1, part, parts]

def body(i, counter, ctx):
  threads = SCENARIOS[i]
  def make(s):
    def answer(k, payload):
      tag = payload[1] if len(payload) > 1 else None
      return [(0, [modemworld.frame(modemworld.response(tag, 1, True), k)])] if tag in answered else []
    tags, answered = {}, set()
    for t, kinds in enumerate(threads):
      for c, kind in enumerate(kinds):
        tags[t, c] = 10 * (t + 1) + c
        if kind == "s": answered.add(10 * (t + 1) + c)
    run = Run(s, on_frame=answer)
    done = []
    def main():
      m = run.start()
      for p in vars(m).values():
        if hasattr(p, "up_counter"): p.up_counter = counter   # or else starts at 0
      def issue(t):
        for c, kind in enumerate(threads[t]):
          cmd = command(tags[t, c], t)
          if kind == "a": m.execute_command_async(cmd)
          else: m.execute_command(cmd, timeout_seconds=0.12)
        done.append(t)
      ts = [run.thread(lambda t=t: issue(t)) for t in range(len(threads))]
      run.join(ts)
    def check(s):
      modemworld.check_tasks(s)
      ctx.eq(sorted(done), range(len(threads)), "threads which issued their commands")
      wire, frames, pos = run.world.wire, [], 0
      while pos < len(wire):
        ctx.check(len(wire) >= pos + 7 and wire[pos:pos + 2] == [0xC0, 0] and wire[pos + 3] == 1 and len(wire) >= pos + 7 + wire[pos + 4],
                  lambda: "no whole frame at %d of [%s]" % (pos, mc.hexs(wire)))
        payload = wire[pos + 7:pos + 7 + wire[pos + 4]]
        ctx.eq(wire[pos:pos + 7 + len(payload)], ref.frame(payload, wire[pos + 2]), "frame at %d of [%s]" % (pos, mc.hexs(wire)))
        frames.append((wire[pos + 2], payload))
        pos += 7 + len(payload)
      ctx.eq([c for c, p in frames], [(frames[0][0] + k) % 256 for k in range(len(frames))], "counters of [%s]" % mc.hexs(wire))
      order = [p for c, p in frames]
      ctx.eq(sorted(order), sorted(request(tag, t) for (t, c), tag in tags.items()), "payloads in [%s]" % mc.hexs(wire))
      for t in range(len(threads)):
        mine = [request(tags[t, c], t) for c in range(len(threads[t]))]
        ctx.eq([p for p in order if p in mine], mine, "order of the commands of one thread")
      ctx.trace(tuple(map(tuple, order)))
    return main, check
  return make

# the port is lost and reopened: per thread "n": now, "l": once it is reopened
LOSSES = [["n", "l"], ["nl", "l"], ["n", "n"]]

def loss(i, ctx):
  """the port is lost while commands are issued"""
  threads = LOSSES[i]
  def make(s):
    run = Run(s)
    w = run.world
    sent, failed = [], []
    def main():
      m = run.start()
      def issue(t):
        for c, kind in enumerate(threads[t]):
          if kind == "l": s.block(lambda: w.good_opens > 1, what="reopened")
          tag = 10 * (t + 1) + c
          try:
            m.execute_command_async(command(tag, t))
            sent.append((tag, t))
          except modemworld.SerialException: failed.append((tag, t))
      w.give(["error"])
      run.join([run.thread(lambda t=t: issue(t)) for t in range(len(threads))])
      s.block(lambda: w.good_opens > 1, what="reopened")
      for tag in range(90, 99):          # the reopened port may not be in use yet
        try:
          m.execute_command_async(command(tag, 9))
          sent.append((tag, 9))
          return
        except modemworld.SerialException: failed.append((tag, 9))
        s.block(lambda: False, s.now + 1, what="wait")
      raise mc.Violation("no command can be sent after the port was reopened")
    def check(s):
      modemworld.check_tasks(s)
      frames = []
      for k, wire in enumerate(w.sessions):
        what = "port %d: [%s]" % (k, mc.hexs(wire))
        pos = 0
        while pos < len(wire):
          rest = wire[pos:]
          size = 7 + rest[4] if len(rest) > 4 else 1000
          if len(rest) < size:
            ctx.check(k < len(w.sessions) - 1 and any(rest == ref.frame(request(*f), rest[2])[:len(rest)] for f in failed),
                      "no whole frame at %d of %s" % (pos, what))
            break
          ctx.eq(rest[:size], ref.frame(rest[7:size], rest[2]), "frame at %d of %s" % (pos, what))
          frames.append((rest[2], rest[7:size]))
          pos += size
      payloads = [p for c, p in frames]
      for x in sent: ctx.eq(payloads.count(request(*x)), 1, "frames of a command that was sent, tag %d, in %s" % (x[0], payloads))
      ctx.check(all(p in [request(*x) for x in sent + failed] for p in payloads) and len(frames) <= len(sent) + len(failed), "frames %s" % payloads)
      for a, b in zip(frames, frames[1:]):
        ctx.check(1 <= (b[0] - a[0]) % 256 <= 1 + len(failed), "counters %s with %d failed commands" % ([c for c, p in frames], len(failed)))
      for t in range(len(threads)):
        ctx.eq(sorted(x for x in sent + failed if x[1] == t), [(10 * (t + 1) + c, t) for c in range(len(threads[t]))], "commands that returned")
      ctx.trace("loss", i, repr(sent), repr(failed), repr(frames))
    return main, check
  return make

def run(case, ctx):
  if case[0] == "schedule":
    modemworld.replay(case, loss(case[1][1], ctx) if case[1][0] == "loss" else body(*(case[1] + [ctx])))
    return
  if case[0] == "loss":
    i, mode, bound, part, parts = case[1:]
    n = modemworld.explore_all(["loss", i], loss(i, ctx), bound, ctx, mode == "lines", part, parts)
    ctx.nontrivial.update(("loss", i, mode, part, k) for k in range(n))
    return
  mode, i, counter, bound, part, parts = case
  n = modemworld.explore_all([i, counter], body(i, counter, ctx), bound, ctx, mode == "lines", part, parts)
  ctx.nontrivial.update((i, counter, mode, part, k) for k in range(n))
