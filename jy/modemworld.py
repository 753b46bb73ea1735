"""The real modem driver under the controlled scheduler, with a modelled serial port and modem.

Import this before anything that imports modem.modem."""
import sched, sys, types, random
sched.install()
import glue, ref, mc, serframes, fastcerb
fastcerb.install()

class SerialException(IOError): pass

WORLD = [None]

class World(object):
  """the serial port and the modem behind it"""
  def __init__(self, s, on_frame=None, timed=(), fail_opens=()):
    self.s = s
    self.wire, self.frames = [], []       # bytes written, and the whole frames in them
    self.sessions = []                    # bytes written, per opened port
    self.on_frame = on_frame              # on_frame(i, payload) -> [(delay, actions)]
    self.queue = []                       # received, not yet read: byte, ("loud", byte), "error"
    self.timed = []
    self.holder = None                    # the open port
    self.opens, self.closes = 0, 0
    self.fail_opens = list(fail_opens)    # numbers of the attempts to open which fail
    self.on_open = {}                     # number of the successful open -> actions
    self.fail_writes = set()              # numbers of the writes that fail
    self.writes = 0
    self.good_opens = 0
    self.read_log = []                    # everything the reader got
    self.write_times = []
    self.all_loud = False                 # threads are switched at every byte
    for t, what in timed: self.at(t, what)
    WORLD[0] = self

  def at(self, t, what):
    self.timed.append((t, len(self.timed), what))
    self.timed.sort()
    self.s.events.append(t)

  def due(self):
    while self.timed and self.timed[0][0] <= self.s.now:
      self.give(self.timed.pop(0)[2])

  def give(self, actions):
    for a in actions:
      if isinstance(a, list):             # a message: its last byte is where threads are switched
        if self.holder is None: continue  # lost
        for i, b in enumerate(a): self.queue.append(b if i < len(a) - 1 and not self.all_loud else ("loud", b))
      else: self.queue.append(a)

  def written(self, data):
    self.wire += list(bytearray(data))
    while True:
      rest = self.wire[sum(7 + len(f) for f in self.frames):]
      if len(rest) < 7 or len(rest) < 7 + rest[4]: break
      payload = rest[7:7 + rest[4]]
      self.frames.append(payload)
      self.write_times.append(self.s.now)
      if self.on_frame is not None:
        for delay, what in self.on_frame(len(self.frames) - 1, payload):
          if delay: self.at(self.s.now + delay, what)
          else: self.give(what)

class Serial(object):
  def __init__(self, port=None, baudrate=9600, bytesize=8, parity="N", stopbits=1, timeout=None, xonxoff=False, rtscts=False,
               write_timeout=None, dsrdtr=False, inter_byte_timeout=None, exclusive=None, **kw):
    self.world = WORLD[0]
    self.is_open, self.cancelled = False, False
    self.port, self.baudrate, self.timeout, self.exclusive = port, baudrate, timeout, exclusive
    if port is not None: self.open()
  def open(self):
    w = self.world
    w.opens += 1
    w.s.point("open")
    if self.is_open: raise SerialException("Port is already open.")
    if w.holder is not None: raise SerialException("Could not exclusively lock port")
    if w.opens - 1 in w.fail_opens: raise SerialException("could not open port")
    self.is_open, self.cancelled = True, False
    w.holder = self
    self.session = []
    w.sessions.append(self.session)
    w.due()
    w.queue[:] = []
    w.give(w.on_open.get(w.good_opens, []))
    w.good_opens += 1
  def close(self):
    w = self.world
    w.s.point("close")
    if self.is_open:
      self.is_open = False
      w.holder = None
      w.closes += 1
      w.queue[:] = []
  def isOpen(self): return self.is_open
  def _check(self):
    if not self.is_open:
      self.world.s.point("closed")
      raise SerialException("Attempting to use a port that is not open")
  @property
  def in_waiting(self):
    self._check()
    self.world.due()
    n = 0
    for x in self.world.queue:
      if x == "error": break
      n += 1
    return n
  def inWaiting(self): return self.in_waiting
  def read(self, size=1):
    w, s = self.world, self.world.s
    t = s.task()
    t.quiet = False
    self._check()
    out, loud = bytearray(), False
    until = None if self.timeout is None else s.now + self.timeout
    while len(out) < size:
      w.due()
      if self.cancelled:
        self.cancelled = False
        break
      if w.queue and w.queue[0] == "error":
        if out: break
        s.point("read error")
        if w.queue and w.queue[0] == "error": w.queue.pop(0)
        raise SerialException("device reports readiness to read but returned no data")
      if w.queue:
        if isinstance(w.queue[0], tuple):
          loud = True
          s.point("read")
          if not w.queue or self.cancelled or not self.is_open: continue
        x = w.queue.pop(0)
        out.append(x[1] if isinstance(x, tuple) else x)
        continue
      if until is not None and s.now >= until: break
      def ready():
        w.due()
        return bool(w.queue) or self.cancelled or not self.is_open
      s.block(ready, until, what="read")
      if not self.is_open: raise SerialException("read failed: port was closed")
    w.read_log += list(out)
    if out and not loud: t.quiet = True
    return bytes(out)
  def write(self, data):
    w, s = self.world, self.world.s
    data = bytearray(data)
    self._check()
    s.point("write")
    w.writes += 1
    if w.writes - 1 in w.fail_writes: raise SerialException("write failed")
    w.written(data[:len(data) // 2])
    self.session += list(data[:len(data) // 2])
    s.point("writing")
    self._check()
    w.written(data[len(data) // 2:])
    self.session += list(data[len(data) // 2:])
    return len(data)
  def flush(self):
    self._check()
  def cancel_read(self):
    self.world.s.point("cancel")
    if self.is_open: self.cancelled = True
  def cancel_write(self): pass
  def reset_input_buffer(self):
    self._check()
    self.world.due()
    self.world.queue[:] = []
  flushInput = reset_input_buffer
  def reset_output_buffer(self): self._check()
  flushOutput = reset_output_buffer

fake = types.ModuleType("serial")
fake.__dict__.update(Serial=Serial, SerialException=SerialException, SerialTimeoutException=SerialException, PARITY_NONE="N", PARITY_EVEN="E", PARITY_ODD="O",
                     STOPBITS_ONE=1, STOPBITS_TWO=2, EIGHTBITS=8, SEVENBITS=7)
util = types.ModuleType("serial.serialutil")
util.SerialException = SerialException
fake.serialutil = util
sys.modules["serial"], sys.modules["serial.serialutil"] = fake, util

import modem.modem as mm
from d7a.alp.command import Command
from d7a.alp.parser import Parser as AlpParser
from bitstring import ConstBitStream

if hasattr(mm, "Parser"): mm.Parser = sched.hooked(mm.Parser, "Parser")
HModem = sched.hooked(mm.Modem, "Modem")

def lines(filename, function):
  return filename.endswith("modem.py") and function != "__init__" or function == "build_serial_frame"

class Run(object):
  """one execution"""
  def __init__(self, s, raw=False, cb=True, boot=True, on_frame=None, timed=(), fail_opens=()):
    self.s, self.raw = s, raw
    self.world = World(s, on_frame, timed, fail_opens)
    self.cb = self.callback if cb else None
    self.boot = self.rebooted if boot else None
    self.log = []                # what the callbacks got, in order
    self.during = {}             # number of the entry -> whether connected
    self.ended = None
    random.seed(1)

  def callback(self, cmd):
    self.s.point("callback")
    self.log.append(("cb", cmd))
  def rebooted(self, reason):
    self.s.point("reboot callback")
    self.log.append(("boot", reason))

  def start(self):
    m = HModem("/dev/modem", 115200, self.cb, self.boot, self.raw)
    for p in list(vars(m).values()):
      if isinstance(p, getattr(mm, "Parser", ())): p.__dict__["_constructed"] = True
    m.__dict__["_constructed"] = True
    self.modem = m
    return m

  def thread(self, f):
    t = sched.SThread(target=f, name="command")
    t.start()
    return t

  def join(self, ts):
    self.s.block(lambda: all(t.task.done for t in ts), what="join all")

  def read(self, cmd):
    """a delivered message as the model has it"""
    try: return serframes.got_message(1, cmd, self.raw)
    except Exception as e: return ["strange", repr(cmd)[:100]]

  def received(self):
    """everything delivered outside of synchronous commands: (messages, reboots) in order"""
    m = self.modem
    msgs = [self.read(c) for k, c in self.log if k == "cb"] if self.cb else []
    boots = [c for k, c in self.log if k == "boot"]
    return msgs, [self.read(c) for c in m.get_unsolicited_responses_received()], boots, list(m.get_rebooted_received())

def errors(s): return [t for t in s.tasks if t.error is not None and not isinstance(t.error, sched.Abort)]

def check_tasks(s):
  if s.failure is not None: raise mc.Violation("%s" % s.failure)
  for t in errors(s):
    if isinstance(t.error, mc.Violation): raise t.error
    raise mc.Violation("%s ended with %s: %s | %s" % (t.name, t.error.__class__.__name__, t.error, t.where))

_commands = {}
_frames = {}
def frame(payload, counter=0, mtype=1):
  k = (tuple(payload), counter, mtype)
  if k not in _frames: _frames[k] = ref.frame(payload, counter, mtype)
  return _frames[k]

def command(tag, n=0):
  """a command with this tag: its payload is recognizable"""
  if (tag, n) not in _commands: _commands[tag, n] = Command(actions=[glue.action(("read", False, False, 0x40, n, 8))], tag_id=tag)
  proto = _commands[tag, n]
  c = Command.__new__(Command)
  c.__dict__.update(proto.__dict__)
  c.actions = list(proto.actions)
  return c

def request(tag, n=0): return [0xB4, tag, 0x01, 0x40, n, 0x08]

# ------------------------------------------------------------------ messages of the modem
def response(tag, n, eop, err=False): return [0x23 | (0x80 if eop else 0) | (0x40 if err else 0), tag, 0x20, 0x40, 0, 1, n]
def untagged(n): return [0x20, 0x40, 0, 1, n]

def want(payload, raw=False): return serframes.want_message(1, payload, raw)

def explore_all(scenario, body, bound, ctx, line_mode, part, parts):
  try: n = sched.explore(body, bound, ctx, lines if line_mode else (), part, parts)
  except sched.Found as f:
    e = f.error
    v = e if isinstance(e, mc.Violation) else mc.Violation("unexpected %s: %s" % (e.__class__.__name__, e))
    v.case = ["schedule", scenario, bool(line_mode), f.choices, f.points]
    raise v
  ctx.add("schedules", n)
  return n

def replay(case, body):
  return sched.replay(body, case[3], case[4], lines=lines if case[2] else ())
