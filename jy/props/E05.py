import modemworld, sched, mc, ref, glue
from modemworld import Run, untagged
import itertools

RULE = "one case per pair of answers to two attempts to connect: all sequences up to 2 (second attempt 1) of 11 kinds of messages x completion, with and without callback; dense UIDs and versions; modes without checking; selected ones with all schedules up to 1 (thorough 2) deviations at points, and 1 at every line; non-trivial: distinct outcomes"
ASSUMPTIONS = ["the answered files are complete and the version is ASCII", "what connecting again returns when already connected is left open", "an answer flagged as failed does not contain the files"]
LINES = True

UID = 0x0123456789ABCDEF
FW = {"d7a_protocol_version_major": 1, "d7a_protocol_version_minor": 2, "filesystem_version_major": 0, "filesystem_version_minor": 3, "application_name": "sensor", "git_sha1": "0a1b2c3"}

def data(kind, uid=UID, fw=FW):
  """files in an answer"""
  u = [0x20, 0x00, 0, 8] + [(uid >> (56 - 8 * i)) & 0xFF for i in range(8)]
  f = [0x20, 0x02, 0, 17] + ref.enc_firmware(fw)
  o = [0x20, 0x41, 0, 9] + [9] * 9
  return {"U": u, "V": f, "B": u + f, "C": f + u, "D": u + o + f, "O": o, "N": [], "I": [0x62, 0xD7, 0x0C, 0x32, 0, 1, 0x46, 0x10, 0x50, 0x20, 0x40, 0x05, 0x05, 0x10, 0x00] + u + f}[kind]

# kinds of a message: own tag, partial or completing, other tag, or untagged
MESSAGES = [("own", k) for k in "UVBCDONI"] + [("part", k) for k in "UVBN"] + [("other", "B"), ("untagged", "B"), ("fail", "N")]
SECOND = [("own", k) for k in "UVB"] + [("part", "B")]

def answers(tier):
  yield []
  for a in MESSAGES: yield [a]
  for a in MESSAGES:
    if a[0] in ("own", "fail"): continue
    for b in MESSAGES: yield [a, b]
  if tier == "thorough":
    for a in MESSAGES:
      for b in MESSAGES:
        if a[0] in ("own", "fail") or b[0] in ("own", "fail"): continue
        for c in MESSAGES: yield [a, b, c]

SELECTED = [[("own", "B")], [("part", "U"), ("own", "V")], [("untagged", "B"), ("own", "C")]]
WORDS = ["      ", "a     ", "sensor", "\x00\x01\x7f~ z", "abcdef"]

def cases(tier):
  t = tier == "thorough"
  for a in answers(tier): yield ["seq", a]
  for cb in (True, False): yield ["mode", cb]
  for u in mc.corner_uints(64): yield ["uid", str(u)]
  for n in ("d7a_protocol_version_major", "d7a_protocol_version_minor", "filesystem_version_major", "filesystem_version_minor"):
    for v in (range(0, 256) if t else (0, 1, 9, 10, 127, 128, 255)): yield ["fw", {n: v}]
  for w in WORDS:
    yield ["fw", {"application_name": w}]
    yield ["fw", {"git_sha1": w + "x"}]
  for a in SELECTED:
    for cb in (True, False):
      for part in range(2):
        yield ["points", a, cb, 2 if t else 1, part, 2]
        yield ["lines", a, cb, 1, part, 2]

def build(kind, tag, files, n):
  if kind == "own": return [0xA3, tag] + files
  if kind == "fail": return [0xE3, tag] + files
  if kind == "part": return [0x23, tag] + files
  if kind == "other": return [0xA3, (tag + 1) & 0xFF] + files
  return files

def succeeds(answer):
  """the files in the response: None when it is not complete"""
  got = ""
  for kind, files in answer:
    if kind in ("own", "part", "fail"): got += files
    if kind in ("own", "fail"): return any(c in "UBCDI" for c in got) and any(c in "VBCDI" for c in got)
  return False

def body(attempts, cb, ctx, uid=UID, fw=FW):
  def make(s):
    sent = []            # (attempt, kind, payload)
    def on_frame(i, payload):
      ctx.eq(payload[:1] + payload[2:], [0xB4, 0x01, 0x00, 0x00, 0x08, 0x01, 0x02, 0x00, 0x11], "request for the identity [%s]" % mc.hexs(payload))
      out = []
      for n, (kind, files) in enumerate(attempts[i]):
        p = build(kind, payload[1], data(files, uid, fw), n)
        sent.append((i, kind, p))
        out.append(modemworld.frame(p, n))
      return [(0, out)]
    run = Run(s, cb=cb, on_frame=on_frame)
    results, state = [], []
    def main():
      m = run.start()
      run.world.give([modemworld.frame(untagged(1), 1)])
      sched.sleep(0.01)
      connected = False
      for i, a in enumerate(attempts):
        ctx.check(not m.connected, "connected before connecting")
        t = s.now
        r = m.connect()
        results.append(r)
        ok = succeeds(a)
        if not s.slow:
          ctx.check(r is ok, lambda: "connecting returned %r after %s" % (r, attempts[:i + 1]))
          ctx.check(ok or t + 10.5 > s.now, "failed only after %s s" % (s.now - t))
        ctx.check(bool(m.connected) == bool(r), lambda: "connected is %r although connecting returned %r" % (m.connected, r))
        if r:
          ctx.eq(m.uid, "%x" % uid, "UID")
          ctx.eq(glue.r_fields(m.firmware_version, sorted(fw)), fw, "firmware version")
          break
      sched.sleep(0.01)
      run.world.give([modemworld.frame(untagged(2), 2)])
      s.idle()
    def check(s):
      modemworld.check_tasks(s)
      called, listed, boots, booted = run.received()
      one, two = modemworld.want(untagged(1)), modemworld.want(untagged(2))
      connected = results[-1]
      inside = called if cb and connected else listed
      ctx.eq((called + listed).count(one), 1, "deliveries of the message before connecting")
      ctx.eq((called + listed).count(two), 1, "deliveries of the message after connecting")
      if not connected: ctx.eq(called, [], "messages given to the callback while not connected")
      ctx.eq(listed[:1], [one], "message received before connecting")
      ctx.eq(inside[-1:], [two], "message received after connecting (connected: %s)" % connected)
      if not s.slow:
        # those for nobody; those of an own tag that were not taken are in the next attempt, or come after the completion
        want = [one]
        for i, a in enumerate(attempts[:len(results)]):
          for n, (j, kind, p) in enumerate(x for x in sent if x[0] == i):
            if kind in ("other", "untagged"): want.append(modemworld.want(p))
        ctx.eq([x for x in called + listed if x != two], want, "messages outside of the answers") if not (cb and connected) else \
          ctx.eq(sorted(map(repr, listed + called)), sorted(map(repr, want + [two])), "messages outside of the answers")
      ctx.trace(repr(attempts), cb, uid, repr(fw), repr(results))
      ctx.nontrivial.add((repr(attempts), cb, uid, repr(fw)))
    return main, check
  return make

def modes(raw, check_alive, cb, ctx):
  def make(s):
    # the answer to the request which is sent without waiting for it
    run = Run(s, raw=raw, cb=cb, on_frame=lambda i, p: [(0, [modemworld.frame(build("own", p[1], data("B"), 0), 7)])] if raw and check_alive else [])
    def main():
      m = run.start()
      ctx.check(not m.connected, "connected before connecting")
      run.world.give([modemworld.frame(untagged(1), 1)])
      sched.sleep(0.01)
      t = s.now
      r = m.connect(check_alive=check_alive) if not check_alive else m.connect()
      ctx.eq((r, m.connected), (True, True), "result and state of connecting")
      ctx.check(s.now - t < 0.5, "connecting waited")
      n = len(run.world.frames)
      ctx.check(raw and check_alive or n == 0, "%d frames were written" % n)
      m.connect()
      ctx.eq((m.connected, len(run.world.frames), s.now - t < 0.5), (True, n, True), "state after connecting again, frames written, at once")
      run.world.give([modemworld.frame(untagged(2), 2)])
      s.idle()
    def check(s):
      modemworld.check_tasks(s)
      one, two = modemworld.want(untagged(1), raw), modemworld.want(untagged(2), raw)
      answer = [modemworld.want(build("own", p[1], data("B"), 0), raw) for p in run.world.frames]
      ctx.eq(run.received()[:2], (answer + [two], [one]) if cb else ([], [one] + answer + [two]), "messages given to callback and list")
      ctx.trace(raw, check_alive, cb)
      ctx.nontrivial.add((raw, check_alive, cb))
    s.patient = True
    return main, check
  return make

def run(case, ctx):
  if case[0] == "schedule":
    attempts, cb, uid, fw = case[1]
    if attempts is None: modemworld.replay(case, modes(*(fw + [cb, ctx])))
    else: modemworld.replay(case, body(attempts, cb, ctx, int(uid), fw))
  elif case[0] == "mode":
    for raw, alive in ((False, False), (True, False), (True, True)):
      modemworld.explore_all([None, case[1], 0, [raw, alive]], modes(raw, alive, case[1], ctx), 2, ctx, False, 0, 1)
  else:
    uid, fw = UID, FW
    todo, bound, lines, part, parts = [[SELECTED[0]]], 0, False, 0, 1
    if case[0] == "seq": todo = [[case[1], b] for b in [[], [("own", "B")]] + [[x] for x in SECOND]] if not succeeds(case[1]) else [[case[1]]]
    elif case[0] == "uid": uid = int(case[1])
    elif case[0] == "fw": fw = dict(FW, **dict((str(k), v) for k, v in case[1].items()))
    else:
      todo, bound, lines, part, parts = [[case[1]]], case[3], case[0] == "lines", case[4], case[5]
    for attempts in todo:
      for cb in [case[2]] if bound else (True, False) if case[0] == "seq" else (True,):
        modemworld.explore_all([attempts, cb, str(uid), fw], body(attempts, cb, ctx, uid, fw), bound, ctx, lines, part, parts)
