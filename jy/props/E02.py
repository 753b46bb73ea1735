import modemworld, sched, mc, ref
from modemworld import Run, command, response, untagged
import itertools

RULE = "one case per scenario (commands, answers of the modem with their delays, callback or list) and partition of its schedules: all answer sequences up to length 3 over own partial, own final, other tag, untagged (selected ones with log messages, reboots, errors, cut and late answers, failing writes) followed by a second command; schedules: all with up to 1 deviation (thorough 2), for selected scenarios up to 2 (thorough 3), and up to 1 (thorough 2) at every line; non-trivial: distinct schedules"
ASSUMPTIONS = ["one synchronous command at a time; other threads issue asynchronous ones", "no further response with the tag of a command follows the one which completes it",
               "responses which a command took before it timed out are dropped with it", "time passes only while all threads wait, except in schedules with a slow thread",
               "reads and writes of one attribute are atomic"]
LINES = True

# a command: [kind, timeout]   kind: s synchronous, a asynchronous, w synchronous with a failing write
# an answer: [delay, kinds], where kinds are  P F E: partial, final, failed final response of this command, p f: of the command before,
#            O Q: final and partial response of another tag, U: untagged, L: log message, R: reboot, and < >: the two halves of a final response
T = 0.12
def single(seq): return [[["s", T]], [["s", T]]], {"0": [[0, seq]], "1": [[0, "F"]]}

def pool():
  out = []
  for n in range(0, 4):
    for seq in itertools.product("PFOU", repeat=n):
      seq = "".join(seq)
      if "F" in seq and ("P" in seq[seq.index("F"):] or seq.count("F") > 1): continue
      out.append([[["s", T], ["s", T]], [[[0, seq]], [[0, "F"]]], True])
  return out

SELECTED = [
  [[["s", T], ["s", T]], [[[0, "PF"]], [[0, "UF"]]], True],
  [[["s", 0.04], ["s", 0.04]], [[[0, "F"]], [[0, "F"]]], True],
  [[["s", 0.04], ["s", T]], [[[0, "PF"]], [[0, "PF"]]], False],
  [[["s", 0.04], ["s", T]], [[[0.02, "F"]], [[0, "UF"]]], True],
  [[["s", 0.04], ["s", T]], [[[0, "P"]], [[0, "fF"]]], True],
  [[["s", 0.04], ["s", T]], [[[0, "P"], [0.07, "F"]], [[0.03, "F"]]], True],
  [[["s", T], ["s", T]], [[[0, "<"], [0.06, ">"]], [[0, "<>"]]], True],
  [[["s", 0.04], ["s", T]], [[[0, "P<"], [0.07, ">"]], [[0.03, "F"]]], False],
  [[["s", T], ["s", T]], [[[0, "LRF"]], [[0, "RE"]]], True],
  [[["a", 0], ["s", T]], [[[0, "PF"]], [[0, "F"]]], True],
  [[["s", T], ["a", 0], ["s", T]], [[[0, "F"]], [[0, "F"]], [[0, "F"]]], False],
  [[["w", T], ["s", T]], [[[0, "fF"]]], True],
  [[["s", T], ["w", T], ["s", 0.04]], [[[0, "F"]], [[0, "F"]]], False],
]
# a second thread issues an asynchronous command meanwhile
THREADS = [
  [[["s", T]], [[[0, "F"]], [[0, "F"]]], True, 1],
  [[["s", 0.04], ["s", 0.04]], [[[0, "F"]], [[0, "F"]], [[0, "F"]]], True, 1],
]

SLACK = 0.1   # of the expiry of a timeout

def cases(tier):
  t = tier == "thorough"
  for sc in SELECTED:
    parts = 16 if t else 2
    for part in range(parts):
      yield ["points", sc, 3 if t else 2, part, parts]
      yield ["lines", sc, 2 if t else 1, part, parts]
  for sc in THREADS:
    parts = 32 if t else 4
    for part in range(parts):
      yield ["points", sc, 2 if t else 1, part, parts]
      yield ["lines", sc, 2 if t else 1, part, parts]
  for sc in pool(): yield ["points", sc, 2 if t else 1, 0, 1]

def body(sc, ctx):
  cmds, answers, cb = sc[:3]
  threads = sc[3] if len(sc) > 3 else 0
  def make(s):
    sent = []                 # [receipt order] (id, frame tag or None, final, payload)
    ids = [0]
    tags = [10 + i for i in range(len(cmds))]
    def message(kind, tag, before):
      """bytes of a message of the modem, and what is expected of it"""
      ids[0] += 1
      n = ids[0]
      owner = {"P": tag, "F": tag, "E": tag, "p": before, "f": before, "O": 99, "Q": 99, "<": tag}.get(kind)
      if kind == "L": return modemworld.frame([0x68, n], n, 4), None
      if kind == "R": return modemworld.frame([n], n, 5), None
      if kind == "U": p = untagged(n)
      else: p = response(owner, n, kind not in "PpQ", kind == "E")
      return modemworld.frame(p, n, 1), (n, owner, kind not in "PpQU", p)
    half = {}
    def on_frame(i, payload):
      tag = payload[1]
      plan = answers[i] if i < len(answers) else []
      out = []
      k = tags.index(tag) if tag in tags else None
      for delay, kinds in plan:
        what = []
        for kind in kinds:
          if kind == ">":
            bs, m = half.pop("rest")
          else:
            bs, m = message(kind, tag, tags[k - 1] if k else 98)
            if kind == "<":
              half["rest"] = (bs[9:], m)
              bs, m = bs[:9], None
          what.append((bs, m))
        def note(what=what):
          sent.extend(m for b, m in what if m is not None)
        out.append((delay, [b for b, m in what] + [note]))
      return out
    run = Run(s, cb=cb, on_frame=on_frame)
    results = {}
    sync = [i for i, (kind, t) in enumerate(cmds) if kind != "a"]
    run.world.fail_writes = set(i for i, (kind, t) in enumerate(cmds) if kind == "w")
    def main():
      m = run.start()
      m.connect(check_alive=False)
      def issue():
        for i, (kind, timeout) in enumerate(cmds):
          c = command(tags[i], i)
          if kind == "a":
            m.execute_command_async(c)
            continue
          slow, start = len(s.slow), s.now
          try: got = m.execute_command(c, timeout_seconds=timeout)
          except modemworld.SerialException: got = "failed"
          results[i] = (got if got == "failed" else [run.read(c) for c in got], s.now - start, len(s.slow) > slow, start, got)
      ts = [run.thread(issue)]
      for k in range(threads): ts.append(run.thread(lambda: m.execute_command_async(command(50 + k, 5))))
      run.join(ts)
      s.idle()
    def check(s):
      modemworld.check_tasks(s)
      msgs, listed, boots, booted = run.received()
      outside = msgs if cb else listed
      ctx.eq(listed if cb else msgs, [], "messages delivered by the way not configured")
      taken, droppable = [], []
      for i in sync:
        kind, timeout = cmds[i]
        what = "of command %d" % i
        got, took, slow, start, objs = results[i]
        if kind == "w":
          ctx.eq(got, "failed", "outcome " + what)
          continue
        own = [x for x in sent if x[1] == tags[i]]
        k = [n for n, x in enumerate(own) if x[2]]
        full = own[:k[0] + 1] if k else None
        # what arrived in time, when no thread is slow
        done = arrival[full[-1][0]] - start - timeout if full is not None else 1000
        if got:
          ctx.check(full is not None, lambda: "result %s without a completing response: %s" % (what, got))
          ctx.eq(got, [modemworld.want(x[3]) for x in full], "result " + what)
          taken += full
          if not slow: ctx.check(done < SLACK, lambda: "result %s arrived after its timeout" % what)
        else:
          ctx.eq(got, [], "result " + what)
          ctx.check(took >= timeout - 1e-6, lambda: "an empty result %s after %s of %s s" % (what, took, timeout))
          if not slow:
            ctx.check(done > -1e-6, lambda: "an empty result %s, although %s arrived in time" % (what, full))
            ctx.check(took < timeout + 1, lambda: "an empty result %s only after %s s" % (what, took))
          droppable += [x for x in own if not x[2]]
      rest = [x for x in sent if x not in taken]
      must = [modemworld.want(x[3]) for x in rest if x not in droppable]
      may = [modemworld.want(x[3]) for x in rest]
      seen = [x for x in outside]
      ctx.check(all(x in may for x in seen), lambda: "delivered outside of commands: %s, expected only %s" % (mc.short(seen), may))
      ctx.eq([x for x in may if x in seen], seen, "order and number of the messages delivered outside of commands")
      lost = [x for x in must if x not in seen]
      ctx.eq(lost, [], "lost messages")
      ctx.trace(repr(sc), repr([results[i][0] for i in sync]), repr(seen))
    arrival = {}
    old_give = run.world.give
    def give(actions):
      for a in actions:
        if callable(a):
          n = len(sent)
          a()
          for x in sent[n:]: arrival[x[0]] = s.now
      old_give([a for a in actions if not callable(a)])
    run.world.give = give
    return main, check
  return make

def run(case, ctx):
  if case[0] == "schedule":
    modemworld.replay(case, body(case[1], ctx))
    return
  mode, sc, bound, part, parts = case
  n = modemworld.explore_all(sc, body(sc, ctx), bound, ctx, mode == "lines", part, parts)
  ctx.nontrivial.update((repr(sc), mode, part, k) for k in range(n))
