"""The common part of all explorations: bookkeeping, checking, value enumeration.  (Python 2.7 / Jython)"""
import hashlib, json, time

class Violation(Exception):
  def __init__(self, msg, sig=None):
    Exception.__init__(self, msg)
    self.msg, self.sig = msg, sig

class Ctx(object):
  def __init__(self, known=()):
    self.known = set(known)      # signatures of the listed known findings of this property
    self.known_seen = {}
    self.transitions = 0         # operations executed on the real code
    self.compared = 0            # traces of which the real outcome was compared with the model's
    self.cases = 0
    self.nontrivial = set()
    self.states = set()
    self.samples = []
    self.extra = {}
    self.last_tick = time.time()
    self.current = None

  def tick(self): self.last_tick = time.time()

  def step(self, n=1): self.transitions += n

  def state(self, *what):
    self.states.add(hashlib.md5(repr(what)).digest()[:8])

  def trace(self, *outcome):
    """one complete trace was compared; outcome describes the final state reached"""
    self.compared += 1
    if outcome: self.state(*outcome)

  def add(self, key, n=1): self.extra[key] = self.extra.get(key, 0) + n

  def fail(self, msg, sig=None):
    if sig is not None and sig in self.known:
      self.known_seen[sig] = self.known_seen.get(sig, 0) + 1
      return
    raise Violation(msg, sig)

  def check(self, cond, msg, sig=None):
    if not cond: self.fail(msg() if callable(msg) else msg, sig)

  def eq(self, got, want, what, sig=None):
    if got != want:
      self.fail("%s: got %s, expected %s" % (what, short(got), short(want)), sig)

  def raises(self, f, what, kinds=Exception):
    """f has to be rejected with an exception (of the given kinds)"""
    try:
      v = f()
    except kinds:
      return
    except Exception as e:
      raise Violation("%s: expected %s, got %s: %s" % (what, kinds, e.__class__.__name__, e))
    raise Violation("%s: accepted as %s" % (what, short(v)))

  def guard(self, f, what):
    """f has to succeed"""
    try:
      return f()
    except Violation: raise
    except Exception as e:
      raise Violation("%s: raised %s: %s" % (what, e.__class__.__name__, short(str(e))))

def short(x, n=400):
  try:
    r = repr(x)
  except Exception as e:
    r = "<%s, repr failed: %s>" % (x.__class__.__name__, e)
  return r if len(r) <= n else r[:n] + "..."

def hexs(bs): return " ".join("%02x" % b for b in bs)

# ------------------------------------------------------------- enumeration of values

def uniq(xs):
  seen, out = set(), []
  for x in xs:
    k = (type(x) is bool, x)
    if k not in seen:
      seen.add(k)
      out.append(x)
  return out

def corner_uints(bits, lo=0, hi=None):
  """boundaries of every power of two and of decimal lengths, walking bits, distinct bytes"""
  top = (1 << bits) - 1
  hi = top if hi is None else hi
  vs = [lo, hi, lo + 1, hi - 1, 1, 2]
  for k in range(bits):
    vs += [(1 << k) - 1, 1 << k, (1 << k) + 1, top ^ (1 << k), top >> k]
  d = 10
  while d <= top:
    vs += [d - 1, d]
    d *= 10
  n = (bits + 7) // 8
  pat = lambda f: sum((f(i) & 0xFF) << (8 * i) for i in range(n)) & top
  vs += [pat(lambda i: i + 1), pat(lambda i: 0x81 + i), pat(lambda i: 0xAA if i % 2 else 0x55),
         pat(lambda i: 0xF0 - i), pat(lambda i: 0x7F if i % 2 else 0x80)]
  return [v for v in uniq(vs) if lo <= v <= hi]

def byte_sweep_uints(bits, lo=0, hi=None, step=1):
  """every value of every byte, over two backgrounds"""
  top = (1 << bits) - 1
  hi = top if hi is None else hi
  out = []
  for i in range((bits + 7) // 8):
    for bg in (0x5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A5A & top, 0xC3C3C3C3C3C3C3C3C3C3C3C3C3C3C3C3 & top):
      for b in range(0, 256, step):
        out.append(((bg & ~(0xFF << (8 * i))) | (b << (8 * i))) & top)
  return [v for v in uniq(out) if lo <= v <= hi]

def dense_uints(bits, tier, lo=0, hi=None):
  top = (1 << bits) - 1
  h = top if hi is None else hi
  if bits <= 8 or h - lo < 300: return list(range(lo, h + 1))
  if tier == "thorough" and bits <= 16: return list(range(lo, h + 1))
  vs = corner_uints(bits, lo, h)
  if tier == "thorough" or bits <= 32: vs = vs + byte_sweep_uints(bits, lo, h, 1 if tier == "thorough" or bits <= 16 else 5)
  else: vs = vs + byte_sweep_uints(bits, lo, h, 15)
  return uniq(vs)

def field_values(f, tier, few=False):
  """the valid values of a field of a ref.Layout"""
  name, kind, bits = f[:3]
  if kind == "bool": return [False, True]
  if kind == "enum":
    return [f[3][k] for k in sorted(f[3])]
  if kind == "u":
    lo, hi = f[3] if len(f) > 3 else (0, (1 << bits) - 1)
    if few: return uniq([lo, hi, (lo + hi) // 2, min(hi, lo + 1), min(hi, 0x5B if bits < 16 else 0x0A5B % (hi + 1))])
    return dense_uints(bits, tier, lo, hi)
  if kind == "s":
    lo, hi = f[3] if len(f) > 3 else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
    if few: return uniq([lo, hi, -1, 0, 1])
    return list(range(lo, hi + 1))
  if kind == "le":
    if few: return [0, (1 << bits) - 1, 1, 0x0102030405060708090A0B0C0D0E0F10 & ((1 << bits) - 1)]
    return dense_uints(bits, tier)
  if kind == "bytes":
    n = bits // 8
    pats = [[0x20] * n, [0x7F] * n, [0] * n, [0x41 + i for i in range(n)], [0x30 + i for i in range(n)]]
    if few: return pats
    for i in range(n):
      for b in range(128): pats.append([0x61] * i + [b] + [0x7A] * (n - 1 - i))
    return pats
  raise AssertionError(kind)

def backgrounds(layout):
  """three valid value sets: smallest, largest and one with all fields different"""
  out = []
  for pick in (lambda vs, i: min(vs) if not isinstance(vs[0], (str, list)) else vs[0],
               lambda vs, i: max(vs) if not isinstance(vs[0], (str, list)) else vs[-1],
               lambda vs, i: vs[(i * 7 + 3) % len(vs)]):
    d = {}
    for i, f in enumerate(layout.fields):
      if f[1] == "rfu": continue
      d[f[0]] = pick(field_values(f, "quick", few=not (f[1] == "u" and f[2] <= 8)), i)
    out.append(d)
  return out

def layout_values(layout, tier, pairs=True, dense=True):
  """value sets of a layout: every field densely over the backgrounds, every pair of fields over its corners"""
  bgs = backgrounds(layout)
  fields = [f for f in layout.fields if f[1] != "rfu"]
  for b in bgs: yield dict(b)
  if dense:
    for n, b in enumerate(bgs):
      for f in fields:
        vs = field_values(f, tier)
        if n > 0 and len(vs) > 300 and tier == "quick": vs = field_values(f, tier, few=True)
        for v in vs:
          d = dict(b)
          d[f[0]] = v
          yield d
  if pairs:
    for n, b in enumerate(bgs):
      if n == 1 and tier == "quick" and len(fields) > 8: continue
      for i in range(len(fields)):
        for j in range(i):
          for v in field_values(fields[i], tier, few=True):
            for w in field_values(fields[j], tier, few=True):
              d = dict(b)
              d[fields[i][0]], d[fields[j][0]] = v, w
              yield d

def covering(*lists):
  """all combinations of the few values of several independent parts"""
  if not lists:
    yield ()
    return
  for head in lists[0]:
    for tail in covering(*lists[1:]): yield (head,) + tail
