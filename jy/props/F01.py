import modemworld, sched, mc, ref, alphabet, glue, serframes
from modemworld import Run
import sys, os, types, logging, itertools

RULE = "one case per block of payloads (all lengths, all byte values at several positions, all ALP actions of the alphabet, undecodable ones), per sequence of up to 3 (thorough 4) letters: messages, empty, undecodable, log, reboot, corrupt, garbage, read error, failing publication; per cut position; per command line; selected ones with all schedules up to 2 deviations at points, and 1 at every line; non-trivial: distinct streams"
ASSUMPTIONS = ["the broker accepts the connection", "messages of the modem before the bridge has started are left open", "the MQTT client and the serial port are modelled"]
LINES = True

class Client(object):
  made = []
  def __init__(self, *a, **kw):
    self.on_connect = self.on_message = self.on_publish = None
    self.published, self.calls, self.address, self.fail = [], 0, None, set()
    Client.made.append(self)
  def connect(self, host, port=1883, keepalive=60, *a, **kw): self.address = (host, port)
  connect_async = connect
  def loop_start(self):
    if self.on_connect: self.on_connect(self, None, {}, 0)
  def loop_stop(self, *a): pass
  def disconnect(self, *a): pass
  def subscribe(self, *a, **kw): return (0, 1)
  def username_pw_set(self, *a, **kw): pass
  def publish(self, topic, payload=None, qos=0, retain=False):
    sched.cur().point("publish")
    self.calls += 1
    if self.calls - 1 in self.fail: raise ValueError("Publish failed.")
    self.published.append((topic, None if payload is None else list(bytearray(payload))))
    return (0, self.calls)

paho, pm, pc = types.ModuleType("paho"), types.ModuleType("paho.mqtt"), types.ModuleType("paho.mqtt.client")
pc.__dict__.update(Client=Client, MQTTv31=3, MQTTv311=4, MQTT_ERR_SUCCESS=0)
paho.mqtt, pm.client = pm, pc
sys.modules.update({"paho": paho, "paho.mqtt": pm, "paho.mqtt.client": pc})

REPO = os.environ.get("VERIF_REPO", "/repo")
_code = compile(open(REPO + "/tools/modem2mqtt.py").read(), "tools/modem2mqtt.py", "exec")
TOOL = {"__name__": "modem2mqtt"}
eval(_code, TOOL)

PAYLOADS = [[0x33, 0x41], [], [0x20], [0xC0, 0, 1, 1, 0], [0, 0, 0xFF, 0x0D, 0x0A, 0x80]]
LETTERS = "mnioLRkgepq"
# m n i o: message, empty one, undecodable one, one that looks like a frame, L: log, R: reboot, k: corrupt frame, g: garbage, e: read error, p q: messages whose publication fails
SELECTED = ["m", "mi", "em", "pm", "Lm"]

def cases(tier):
  t = tier == "thorough"
  for n in range(256): yield ["len", n]
  for b in range(0, 256, 16): yield ["byte", b]
  letters = list(alphabet.letters())
  for k in range(0, len(letters), 40): yield ["alp", k]
  for n in range(1, 4):
    for first in itertools.product(LETTERS, repeat=n - 1): yield ["seq", "".join(first)]
  if t:
    for first in itertools.product(LETTERS, repeat=3): yield ["seq", "".join(first)]
  for a in range(len(PAYLOADS)):
    for b in range(len(PAYLOADS)): yield ["cut", a, b]
  for k in range(len(COMMANDS)): yield ["args", k]
  for sc in SELECTED:
    yield ["points", sc, 2 if not t else 3]
    yield ["lines", sc, 1 if not t else 2]

COMMANDS = [["-di", "gw1"], ["-di", "0", "-t", "x/{}/y"], ["-d", "/dev/other", "-di", "a/b", "-r", "9600"], ["-di", "z", "-v"], ["--device-id", "q", "--topic", "fixed", "--broker", "host", "--rate", "1"]]

def topic(args):
  t, d = "/gw/{}", None
  for k, v in zip(args, args[1:]):
    if k in ("-t", "--topic"): t = v
    if k in ("-di", "--device-id"): d = v
  return t.replace("{}", d)

def body(segments, want, ctx, args=COMMANDS[0], fail=(), what=""):
  """segments: actions of the modem, given one after the other; want: payloads to be published"""
  def make(s):
    s.patient = True
    run = Run(s, raw=True)
    state = {}
    def main():
      del Client.made[:]
      sys.argv = ["modem2mqtt.py"] + list(args)
      root = logging.getLogger()
      handlers, level = list(root.handlers), root.level
      bridge = TOOL["Modem2Mqtt"]()
      root.handlers[:] = handlers
      root.setLevel(level)
      state["bridge"] = bridge
      sched.sleep(0.01)
      client = Client.made[-1]
      state["client"] = client
      before = len(client.published)
      client.fail = set(client.calls + k for k in fail)
      state["before"] = before
      for seg in segments:
        run.world.give(seg)
        sched.sleep(20)
      s.idle()
    def check(s):
      modemworld.check_tasks(s)
      ctx.eq(len(Client.made), 1, "number of MQTT clients")
      got = state["client"].published[state["before"]:]
      ctx.eq([p for t, p in got], want, "published payloads " + what)
      ctx.eq(set(t for t, p in got) - set([topic(args)]), set(), "other topics than %s" % topic(args))
      if args != COMMANDS[0]:
        port = run.world.holder
        opts = dict(zip(args[::1], args[1:]))
        ctx.eq((port.port, port.baudrate), (opts.get("-d", "/dev/ttyACM0"), int(opts.get("-r", opts.get("--rate", 115200)))), "serial port")
        ctx.eq(state["client"].address[0], opts.get("--broker", "localhost"), "broker")
      ctx.trace(repr(segments), tuple(args))
      ctx.nontrivial.add(repr(segments))
    return main, check
  return make

def frames(ps): return [modemworld.frame(p, 2 + i) for i, p in enumerate(ps)]

def sequence(seq):
  segs, want, fail, n = [], [], [], 0
  for i, c in enumerate(seq):
    p = {"m": [0x33, 0x41 + i], "n": [], "i": [0x20, i], "o": [0xC0, 0, i, 1, 0], "p": [0x33, 0x51 + i], "q": [0x20]}.get(c)
    if p is not None:
      segs.append([modemworld.frame(p, i)])
      if c in "pq": fail.append(n)
      else: want.append(p)
      n += 1
    elif c == "L": segs.append([modemworld.frame([0x41], i, 4)])
    elif c == "R": segs.append([modemworld.frame([1], i, 5)])
    elif c == "k":
      f = list(modemworld.frame([0x33, 0x61], i))
      f[5] ^= 1
      segs.append([f])
    elif c == "g": segs.append([[0x55, 0xC1]])
    elif c == "e": segs.append(["error"])
  return segs, want, fail

def one(case, make, ctx, bound=0, lines=False):
  modemworld.explore_all(case, make, bound, ctx, lines, 0, 1)

def jobs(case, ctx):
  kind = case[0]
  if kind == "len":
    n = case[1]
    ps = [[0] * n, [0xC0] * n, [(i * 7 + n) & 0xFF for i in range(n)], [0xFF - (i & 0xFF) for i in range(n)]]
    yield body([frames(ps)], ps, ctx, what="of length %d" % n)
  elif kind == "byte":
    ps = [x for b in range(case[1], case[1] + 16) for x in ([b], [b, 0x41], [0x41, b], [0x20, b, 0xC0])]
    yield body([frames(ps)], ps, ctx, what="with bytes from %d" % case[1])
  elif kind == "alp":
    ps = [ref.enc_action(glue.tup(a)) for a in list(alphabet.letters())[case[1]:case[1] + 40]]
    ps = [p for p in ps if len(p) < 256]
    yield body([frames(ps)], ps, ctx, what="of ALP actions")
  elif kind == "seq":
    for last in LETTERS:
      segs, want, fail = sequence(case[1] + last)
      yield body(segs, want, ctx, fail=fail, what="after %s" % (case[1] + last))
  elif kind == "cut":
    ps = [PAYLOADS[case[1]], PAYLOADS[case[2]]]
    bs = [b for f in frames(ps) for b in f]
    for k in range(1, len(bs)): yield body([[bs[:k]], [bs[k:]]], ps, ctx, what="cut at %d" % k)
  elif kind == "args":
    ps = PAYLOADS
    yield body([frames(ps)], ps, ctx, args=COMMANDS[case[1]], what="with arguments %s" % COMMANDS[case[1]])
  else:
    segs, want, fail = sequence(case[1])
    yield body(segs, want, ctx, fail=fail, what="after %s" % case[1])

def run(case, ctx):
  if case[0] == "schedule":
    orig, k = case[1]
    modemworld.replay(case, list(jobs(orig, ctx))[k])
    return
  for k, make in enumerate(jobs(case, ctx)):
    bound = case[2] if case[0] in ("points", "lines") else 0
    one([case, k], make, ctx, bound, case[0] == "lines")
