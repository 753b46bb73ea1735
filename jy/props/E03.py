import modemworld, sched, mc, ref
from modemworld import Run, command, response, untagged
import itertools

RULE = "one case per sequence of up to 3 (thorough 4) letters: 10 kinds of messages, connecting, clearing the lists; each in all configurations (callback, reboot callback, raw, connected, synchronous command active), with the schedules without preemption; selected sequences with all schedules up to 1 (thorough 2) deviations, at points and at every line; non-trivial: distinct outcomes"
ASSUMPTIONS = ["callbacks return normally", "no ping responses", "a list is not cleared while a message is being delivered"]
LINES = True

# P F E: partial, final, failed response with tag 10, O Q: final, partial of another tag, T: a request with another tag, U: untagged, S: with interface status,
# N: empty, L: log, R: reboot, c: connect, x: clear the lists
KINDS = "PFOQTUSNLR"
LETTERS = KINDS + "cx"
TAG = 10
STATUS = ("dstatus", False, False, {"channel_band": "BAND_868", "channel_class": "HI_RATE", "channel_coding": "PN9", "channel_index": 1, "rx_level": 70, "link_budget": 80,
          "target_rx_level": 80, "nls": False, "missed": False, "retry": False, "fifo_token": 2, "seq_nr": 3, "response_to": [0, 1], "addressee": {"id_type": "NOID", "nls_method": "NONE", "access_class": 1, "id": None}})

def payload(kind, n):
  if kind in "PFE": return response(TAG, n, kind != "P", kind == "E")
  if kind in "OQ": return response(99, n, kind == "O")
  if kind == "T": return [0xB4, 98, 0x01, 0x40, n, 8]
  if kind == "U": return untagged(n)
  if kind == "M": return [0x40]
  if kind == "S": return [0x62, 0xD7, 0x0C, 0x32, 0, n, 0x46, 0x10, 0x50, 0x20, 0x40, 0x05, 0x05, 0x10, 0x00] + untagged(n)
  return []

def configs():
  for raw in (False, True):
    for cb in (True, False):
      for connected in (False, True):
        for boot in (True, False):
          if boot != cb or not raw: # the reboot callback is independent of the rest
            for active in (False, True):
              if not (raw and active): yield raw, cb, boot, connected, active

# messages which become decodable at the same moment, with equal payloads; l: a log message with the bytes of U, M: a raw message with the bytes of R
BURST = "PFOUNLRlM"

SELECTED = ["U", "PF", "UR", "RU", "cU", "UcU", "OU", "FU", "LU", "US", "NU"]

def cases(tier):
  t = tier == "thorough"
  for n in range(0, 4):
    for first in (itertools.product(LETTERS if n < 3 or t else "PFOUNLRc", repeat=n - 1) if n else [()]):
      yield ["seq", "".join(first), n]
  if t:
    for first in itertools.product(LETTERS, repeat=3): yield ["seq", "".join(first), 4]
  for n in range(1, 5 if t else 4):
    for first in itertools.product(BURST, repeat=n - 1): yield ["burst", "".join(first)]
  for seq in SELECTED:
    for cfg in configs():
      yield ["points", seq, list(cfg), 2 if t else 1]
      if len(seq) == 1 or t: yield ["lines", seq, list(cfg), 1]

def burst(seq):
  """a header with a wrong CRC that announces as many bytes as all the frames have: only then they are decoded"""
  bs = []
  for i, kind in enumerate(seq):
    t = {"L": 4, "l": 4, "R": 5}.get(kind, 1)
    bs += modemworld.frame(payload(kind, 0) if t == 1 else payload("U", 0) if kind == "l" else [0x40], i, t)
  crc = ref.crc16(bs)
  return [0xC0, 0, 0, 1, len(bs), (crc >> 8) ^ 0xFF, crc & 0xFF] + bs

def late(seq):
  """whether a response follows the final one"""
  done = False
  for k in seq:
    if done and k in "PFE": return True
    if k in "FE": done = True
  return False

def body(seq, cfg, ctx, gap=0.11):
  raw, cb, boot, connected, active = cfg
  def make(s):
    s.patient = True   # a delivery which overtakes connecting or clearing is not a violation
    run = Run(s, raw=raw, cb=cb, boot=boot)
    result, kept = [], []
    def main():
      m = run.start()
      if connected: m.connect(check_alive=False)
      ts = []
      if active:
        ts = [run.thread(lambda: result.append([run.read(c) for c in m.execute_command(command(TAG), timeout_seconds=0.5)]))]
        sched.sleep(0.01)
      if gap is None: run.world.give([burst(seq)])
      for i, kind in enumerate(seq if gap is not None else ""):
        if kind == "c": m.connect(check_alive=False)
        elif kind == "x":
          held = m.get_unsolicited_responses_received(), m.get_rebooted_received()
          were = map(list, held)
          m.clear_unsolicited_responses_received()
          m.clear_rebooted_received()
          ctx.eq((list(m.get_unsolicited_responses_received()), list(m.get_rebooted_received())), ([], []), "cleared lists")
          kept.append((held, were))
        else:
          t = {"L": 4, "R": 5}.get(kind, 1)
          p = payload(kind, i) if t == 1 else [0x40 + i]
          run.world.give([modemworld.frame(p, i, t)])
        if gap: sched.sleep(gap)
      run.join(ts)
      s.idle()
    def check(s):
      modemworld.check_tasks(s)
      # the model
      is_connected, waiting = connected, active
      taken, called, listed, boots, booted = [], [], [], [], []
      for i, kind in enumerate(seq):
        if kind == "c": is_connected = True
        elif kind == "x": listed, booted = [], []
        elif kind in "Ll": pass
        elif kind == "R": (boots if boot else booted).append(0x40 + (i if gap is not None else 0))
        elif kind == "M" and not raw: pass   # not decodable
        else:
          m = modemworld.want(payload(kind, i if gap is not None else 0), raw)
          if waiting and kind in "PFE":
            taken.append(m)
            if kind != "P": waiting = False
          elif cb and is_connected: called.append(m)
          else: listed.append(m)
      if active: ctx.eq(result, [[] if waiting else taken], "result of the synchronous command")
      ctx.eq(run.received(), (called, listed, boots, booted), "delivered to callback and list, reboots to callback and list")
      for held, were in kept:
        for h, w in zip(held, were): ctx.eq(len(list(h)[:len(w)]), len(w), "messages left in a list that was handed out before clearing")
      ctx.trace(cfg, seq, gap, repr((called, listed, boots, booted, result)))
      ctx.nontrivial.add((tuple(cfg), seq))
    return main, check
  return make

def run(case, ctx):
  if case[0] == "schedule":
    seq, cfg, gap = case[1]
    modemworld.replay(case, body(seq, cfg, ctx, gap))
  elif case[0] == "seq":
    for last in LETTERS if case[2] else [""]:
      seq = case[1] + last
      for cfg in configs():
        if not cfg[1] and "c" in seq: continue   # connecting makes a difference only with a callback
        modemworld.explore_all([seq, list(cfg), 0.11], body(seq, cfg, ctx), 0, ctx, False, 0, 1)
  elif case[0] == "burst":
    for last in BURST:
      seq = case[1] + last
      for cfg in configs():
        raw, cb, boot, connected, active = cfg
        if (boot == cb) == raw or active and late(seq): continue
        modemworld.explore_all([seq, list(cfg), None], body(seq, cfg, ctx, None), 0, ctx, False, 0, 1)
  else:
    mode, seq, cfg, bound = case
    gap = 0.11
    modemworld.explore_all([seq, cfg, gap], body(seq, cfg, ctx, gap), bound, ctx, mode == "lines", 0, 1)
