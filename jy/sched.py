"""Stateless exploration of thread schedules of real code (Jython threads).

Threads of the code under test run one at a time.  They can be switched at points: operations on locks, events,
conditions and threads, sleeps, device input and output, accesses of shared attributes (hooked classes), and, in
line mode, every line of the traced files.  explore() enumerates all schedules with at most `bound` deviations: a
deviation is switching away from a thread that could continue, or letting virtual time pass although some thread
could continue.  Which of several threads continues when the running one blocks or ends is not a deviation, and is
enumerated completely.  Virtual time otherwise passes only when no thread can continue.
"""
import sys, threading, traceback, types, zlib
from java.util.concurrent import Semaphore as JSem, Executors, ThreadFactory
from java.lang import Thread as JThread

try: import LineTrace
except ImportError: LineTrace = None     # see check.py: only the checks which use it have it

class Abort(BaseException): pass
class Deadlock(Exception): pass
class Nondeterminism(BaseException): pass

class _Factory(ThreadFactory):
  def newThread(self, r):
    t = JThread(None, r, "controlled", 4 << 20)
    t.setDaemon(True)
    return t
POOL = Executors.newCachedThreadPool(_Factory())

CUR = [None]     # the scheduler of the running execution
BASE = 1500000000.0

class Task(object):
  def __init__(self, s, ident, fn, name):
    self.s, self.ident, self.fn, self.name = s, ident, fn, name
    self.sem = JSem(0)
    self.wait = None      # None: can continue; else a function that tells whether it can
    self.until = None     # virtual time at which it can continue in any case
    self.idle = False     # can continue only when nothing else can happen any more
    self.done = False
    self.error = None
    self.quiet = False
    self.aborts = 0

  def enabled(self):
    if self.done or self.idle: return False
    if self.until is not None and self.until <= self.s.now: return True
    if self.wait is not None: return bool(self.wait())
    return self.until is None

class Sched(object):
  MAX_POINTS = 60000
  def __init__(self, prefix, bound, lines=()):
    self.prefix, self.bound = prefix, bound
    self.patient = False   # time passes only when no thread can continue
    self.tasks, self.now = [], 0.0
    self.trace = []        # decisions: (chosen, costs, signature)
    self.used = 0
    self.points = 0
    self.aborting = False
    self.running = None
    self.failure = None
    self.finished = JSem(0)
    self.events = []       # virtual times at which something happens outside
    self.slow = []         # times to which time was allowed to pass although a thread could continue
    if lines: self.tracer = LineTrace(self._line, lines)
    self.lines = lines
    self.log = []

  # ---------------------------------------------------------------- tasks
  def spawn(self, fn, name):
    t = Task(self, len(self.tasks), fn, name)
    self.tasks.append(t)
    POOL.execute(lambda: self._body(t))
    return t

  def _body(self, t):
    t.sem.acquire()
    try:
      if not self.aborting:
        if self.lines: LineTrace.on(self.tracer)
        try: t.fn()
        finally:
          if self.lines: LineTrace.off()
    except Abort: pass
    except BaseException as e:
      t.error = e
      t.where = " / ".join(l.strip() for l in traceback.format_exc().splitlines()[-5:])
      if isinstance(e, Nondeterminism): self.failure = e
    t.done = True
    if self.aborting or self.failure is not None or t.ident == 0:
      self.finished.release()
      return
    try: self._switch(t)
    except Abort: pass

  def task(self): return self.running

  # ---------------------------------------------------------------- points
  def _abort(self):
    # code that swallows every exception is parked for good
    t = self.running
    t.aborts += 1
    if t.aborts > 30:
      t.done = True
      self.finished.release()
      JSem(0).acquire()
    raise Abort()

  def point(self, what=None):
    t = self.running
    if self.aborting: self._abort()
    if t.quiet: return
    self.points += 1
    if self.points > self.MAX_POINTS:
      self._fail(Deadlock("no end after %d steps: %s" % (self.points, self.describe())))
    self._switch(t, what)

  def block(self, wait=None, until=None, what=None, idle=False):
    """continue when wait() holds or the time has come"""
    t = self.running
    if self.aborting: self._abort()
    self.points += 1
    t.wait, t.until, t.idle = wait, until, idle
    if wait is None and until is None and not idle: raise AssertionError("nothing to wait for")
    try: self._switch(t, what)
    finally: t.wait, t.until, t.idle = None, None, False

  def _fail(self, e):
    self.failure = e
    self.finished.release()
    self.running.sem.acquire()
    raise Abort()

  def describe(self):
    return ", ".join("%s %s" % (t.name, "ended" if t.done else "can continue" if t.enabled() else "is blocked") for t in self.tasks)

  def _timed(self):
    ts = [t.until for t in self.tasks if not t.done and t.until is not None and t.until > self.now] + [e for e in self.events if e > self.now]
    return min(ts) if ts else None

  def _switch(self, t, what=None):
    while True:
      ready = [x for x in self.tasks if x.enabled()]
      later = self._timed()
      if ready: break
      if later is not None:
        self.now = later
        continue
      idle = [x for x in self.tasks if x.idle and not x.done]
      if idle:
        ready = idle[:1]
        break
      if t.done and t.ident == 0: return
      self._fail(Deadlock("no thread can continue: " + self.describe()))
    if t in ready: options, costs = [t] + [x for x in ready if x is not t], [0] + [1] * (len(ready) - 1)
    else: options, costs = list(ready), [0] * len(ready)
    if later is not None and not self.patient and not ready[0].idle:
      options.append(None)
      costs.append(1)
    if len(options) == 1: nxt = options[0]
    else:
      i = len(self.trace)
      sig = (t.ident, tuple(x.ident if x is not None else -1 for x in options), what)
      k = 0
      if i < len(self.prefix):
        k, want = self.prefix[i]
        if want is not None and want != sig:
          self._fail(Nondeterminism("decision %d was %r and is %r" % (i, want, sig)))
      self.trace.append((k, costs, sig))
      self.used += costs[k]
      nxt = options[k]
    if nxt is None:       # let time pass
      self.slow.append(later)
      self.now = later
      return self._switch2(t, what)
    self._go(t, nxt)

  def _switch2(self, t, what):
    # after time has passed, the threads woken by that come first
    ready = [x for x in self.tasks if x.enabled()]
    woken = [x for x in ready if x is not t and x.until is not None and x.until <= self.now] or [x for x in ready if x is not t] or ready
    if len(woken) > 1:
      i = len(self.trace)
      sig = (t.ident, tuple(x.ident for x in woken), "woken")
      k = self.prefix[i][0] if i < len(self.prefix) else 0
      self.trace.append((k, [0] * len(woken), sig))
      nxt = woken[k]
    else: nxt = woken[0] if woken else t
    self._go(t, nxt)

  def _go(self, t, nxt):
    if nxt is t:
      return
    self.running = nxt
    nxt.sem.release()
    if not t.done:
      t.sem.acquire()
      if self.aborting: raise Abort()

  # ---------------------------------------------------------------- one execution
  def run(self, main):
    CUR[0] = self
    t = self.spawn(main, "main")
    self.running = t
    t.sem.release()
    self.finished.acquire()
    self.aborting = True
    for x in list(self.tasks):
      if not x.done:
        self.running = x
        x.sem.release()
        self.finished.acquire()
    CUR[0] = None
    if isinstance(self.failure, Nondeterminism): raise self.failure

  def idle(self):
    """continue once nothing else can happen"""
    self.block(idle=True)

  def _line(self, number):
    if CUR[0] is self and not self.aborting: self.point(("line", number))

def cur(): return CUR[0]

# -------------------------------------------------------------------- the replaced primitives
class SLock(object):
  def __init__(self): self.owner = None
  def acquire(self, blocking=True, timeout=-1):
    s = cur()
    s.point("acquire")
    if self.owner is not None:
      if not blocking: return False
      s.block(lambda: self.owner is None, what="acquire")
    self.owner = s.task()
    return True
  def release(self):
    if self.owner is None: raise RuntimeError("release unlocked lock")
    self.owner = None     # every visible operation has its point before it, so none is needed after this one
  def locked(self): return self.owner is not None
  def __enter__(self):
    self.acquire()
    return self
  def __exit__(self, *a): self.release()

class SRLock(SLock):
  def __init__(self): self.owner, self.n = None, 0
  def acquire(self, blocking=True, timeout=-1):
    s = cur()
    if self.owner is not None and self.owner is s.task():
      self.n += 1
      return True
    if not SLock.acquire(self, blocking): return False
    self.n = 1
    return True
  def release(self):
    s = cur()
    if s is not None and not s.aborting and self.owner is not s.task(): raise RuntimeError("cannot release un-acquired lock")
    self.n -= 1
    if self.n == 0: SLock.release(self)
  def _save(self):
    n, self.n, self.owner = self.n, 0, None
    return n
  def _restore(self, n): self.owner, self.n = cur().task(), n

class SCondition(object):
  def __init__(self, lock=None):
    self.lock = lock if lock is not None else SRLock()
    self.acquire, self.release = self.lock.acquire, self.lock.release
    self.waiting = []
  def __enter__(self): return self.lock.__enter__()
  def __exit__(self, *a): return self.lock.__exit__(*a)
  def wait(self, timeout=None):
    s = cur()
    if self.lock.owner is not s.task(): raise RuntimeError("cannot wait on un-acquired lock")
    me = [False]
    self.waiting.append(me)
    if isinstance(self.lock, SRLock): n = self.lock._save()
    else: self.lock.owner = None
    s.block(lambda: me[0], None if timeout is None else s.now + max(timeout, 0), what="wait")
    if self.lock.owner is not None: s.block(lambda: self.lock.owner is None, what="reacquire")
    if isinstance(self.lock, SRLock): self.lock._restore(n)
    else: self.lock.owner = s.task()
    if me in self.waiting: self.waiting.remove(me)
    return me[0]
  def notify(self, n=1):
    if self.lock.owner is not cur().task(): raise RuntimeError("cannot notify on un-acquired lock")
    for me in self.waiting[:n]: me[0] = True
    self.waiting = self.waiting[n:]
  def notify_all(self): self.notify(len(self.waiting))
  notifyAll = notify_all

class SEvent(object):
  def __init__(self): self.flag = False
  def is_set(self):
    cur().point("is_set")
    return self.flag
  isSet = is_set
  def set(self):
    cur().point("set")
    self.flag = True
  def clear(self):
    cur().point("clear")
    self.flag = False
  def wait(self, timeout=None):
    s = cur()
    s.point("wait")
    if not self.flag: s.block(lambda: self.flag, None if timeout is None else s.now + max(timeout, 0), what="event")
    return self.flag

class SSemaphore(object):
  def __init__(self, value=1): self.value = value
  def acquire(self, blocking=True, timeout=None):
    s = cur()
    s.point("acquire")
    if self.value == 0:
      if not blocking: return False
      s.block(lambda: self.value > 0, None if timeout is None else s.now + timeout, what="semaphore")
      if self.value == 0: return False
    self.value -= 1
    return True
  def release(self):
    self.value += 1
  def __enter__(self): return self.acquire()
  def __exit__(self, *a): self.release()

class SThread(object):
  def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, verbose=None, daemon=None):
    self.target, self.args, self.kwargs = target, args, kwargs or {}
    self.name = name or "thread"
    self.daemon = bool(daemon)
    self.task = None
  def run(self):
    if self.target is not None: self.target(*self.args, **self.kwargs)
  def start(self):
    if self.task is not None: raise RuntimeError("threads can only be started once")
    s = cur()
    self.task = s.spawn(lambda: self.run(), self.name + str(len(s.tasks)))
    self.task.thread = self
  def join(self, timeout=None):
    s = cur()
    if self.task is None: raise RuntimeError("cannot join thread before it is started")
    if self.task is s.task(): raise RuntimeError("cannot join current thread")
    s.point("join")
    if not self.task.done:
      s.block(lambda: self.task.done, None if timeout is None else s.now + max(timeout, 0), what="join")
  def is_alive(self):
    cur().point("alive")
    return self.task is not None and not self.task.done
  isAlive = is_alive
  def setDaemon(self, v): self.daemon = v
  def isDaemon(self): return self.daemon
  def getName(self): return self.name
  def setName(self, v): self.name = v
  @property
  def ident(self): return None if self.task is None else self.task.ident

class STimer(SThread):
  def __init__(self, interval, function, args=(), kwargs=None):
    SThread.__init__(self, target=function, args=args, kwargs=kwargs, name="timer")
    self.interval, self.cancelled = interval, False
  def cancel(self): self.cancelled = True
  def run(self):
    s = cur()
    s.block(lambda: self.cancelled, s.now + self.interval, what="timer")
    if not self.cancelled: SThread.run(self)

_main_thread = SThread(name="MainThread")
def current_thread():
  s = cur()
  return getattr(s.task(), "thread", _main_thread) if s is not None and s.task() is not None else _main_thread

def sleep(seconds):
  s = cur()
  s.block(None, s.now + seconds, what="sleep")

def now(): return cur().now if cur() is not None else 0.0

def public(module):
  out = {}
  for k in dir(module):
    try:
      if not k.startswith("__"): out[k] = getattr(module, k)
    except AttributeError: pass   # of the Java class
  return out

def install():
  """before the code under test is imported"""
  import time as real_time, datetime as real_datetime
  ident = lambda: current_thread().ident or 0
  th = types.ModuleType("threading")
  th.__dict__.update((k, v) for k, v in vars(threading).items() if not k.startswith("__"))
  th.__dict__.update(Lock=SLock, RLock=SRLock, Condition=SCondition, Event=SEvent, Semaphore=SSemaphore, BoundedSemaphore=SSemaphore, Thread=SThread, Timer=STimer,
                     _Timer=STimer, currentThread=current_thread, current_thread=current_thread)
  sys.modules["threading"] = th
  tm = types.ModuleType("time")
  tm.__dict__.update(public(real_time))
  tm.__dict__.update(sleep=sleep, time=lambda: BASE + now(), clock=now)
  sys.modules["time"] = tm
  class datetime(real_datetime.datetime):
    @classmethod
    def now(cls, tz=None): return real_datetime.datetime(2020, 1, 1) + real_datetime.timedelta(seconds=now())
    @classmethod
    def utcnow(cls): return cls.now()
    @classmethod
    def today(cls): return cls.now()
  dt = types.ModuleType("datetime")
  dt.__dict__.update(public(real_datetime))
  dt.datetime = datetime
  sys.modules["datetime"] = dt
  th_low = types.ModuleType("thread")
  import thread
  th_low.__dict__.update(public(thread))
  th_low.__dict__.update(allocate_lock=SLock, get_ident=ident)
  sys.modules["thread"] = th_low
  if "Queue" in sys.modules: del sys.modules["Queue"]

# -------------------------------------------------------------------- shared attributes
class Shared(object):
  """which attributes are accessed by several threads and changed after construction"""
  def __init__(self):
    self.access, self.written, self.points, self.grown = {}, set(), set(), False
  def note(self, key, write):
    s = cur()
    if s is None or s.aborting or s.running is None: return
    who = self.access.setdefault(key, set())
    who.add(s.running.ident)
    if write: self.written.add(key)
    if len(who) > 1 and key in self.written and key not in self.points:
      self.points.add(key)
      self.grown = True
    if key in self.points: s.point(("write " if write else "read ") + key[1])

SHARED = [Shared()]

def hooked(cls, label):
  """a subclass of cls whose instance attributes are points, once several threads use them"""
  class Hooked(cls, object):
    def __getattribute__(self, name):
      d = object.__getattribute__(self, "__dict__")
      if name in d and "_constructed" in d: SHARED[0].note((label, name), False)
      return object.__getattribute__(self, name)
    def __setattr__(self, name, value):
      d = object.__getattribute__(self, "__dict__")
      if "_constructed" in d: SHARED[0].note((label, name), True)
      object.__setattr__(self, name, value)
  Hooked.__name__ = cls.__name__
  return Hooked

# -------------------------------------------------------------------- exploration
class Found(Exception):
  def __init__(self, error, choices):
    self.error, self.choices, self.points = error, choices, sorted(SHARED[0].points)

def execute(body, choices, bound, lines):
  """body(sched) -> (main, check): check is called after the execution"""
  s = Sched(choices, bound, lines)
  main, check = body(s)
  s.run(main)
  return s, check

def replay(body, choices, points, bound=99, lines=()):
  """one schedule that was found before"""
  SHARED[0] = Shared()
  SHARED[0].points = set(map(tuple, points))
  s, check = execute(body, [(k, None) for k in choices], bound, lines)
  check(s)
  return s

def explore(body, bound, ctx, lines=(), part=0, parts=1, limit=None):
  """all schedules with at most `bound` deviations.  Returns the number of executions."""
  SHARED[0] = Shared()
  for attempt in range(8):
    SHARED[0].grown = False
    n = _explore(body, bound, ctx, lines, part, parts, limit)
    if n is not None: return n
  raise AssertionError("the set of shared attributes keeps growing")

def _explore(body, bound, ctx, lines, part, parts, limit):
  # the work is divided by the first two choices that differ from the default
  mine = lambda key: zlib.crc32(repr(key)) % parts == part
  prefix, n, counted = [], 0, 0
  for k in range(3):      # find the shared attributes first
    SHARED[0].grown = False
    s, check = execute(body, [], bound, lines)
    if not SHARED[0].grown: break
  while True:
    s, check = execute(body, prefix, bound, lines)
    ctx.tick()
    if SHARED[0].grown: return None
    n += 1
    trace = s.trace
    dev = [i for i, (k, costs, sig) in enumerate(trace) if k]
    if len(dev) > 1 or mine(dev and (dev[0], trace[dev[0]][0])):
      ctx.step(s.points)
      counted += 1
      try: check(s)
      except Exception as e:
        raise Found(e, [k for k, costs, sig in trace])
    # the next schedule in depth first order
    spent = [0]
    for k, costs, sig in trace: spent.append(spent[-1] + costs[k])
    i = len(trace) - 1
    while i >= 0:
      k, costs, sig = trace[i]
      before = [j for j in dev if j < i]
      alt = [a for a in range(k + 1, len(costs)) if spent[i] + costs[a] <= bound and
             (len(before) != 1 or mine((before[0], trace[before[0]][0], i, a)))]
      if alt: break
      i -= 1
    if i < 0: return counted
    prefix = [(trace[j][0], trace[j][2]) for j in range(i)] + [(alt[0], trace[i][2])]
    if limit is not None and n >= limit: raise AssertionError("more than %d schedules" % limit)
