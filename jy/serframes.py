"""The serial interface parser of the implementation against the reference scanner."""
import glue, ref, mc, alpdiff
from glue import norm
from d7a.serial_modem_interface.parser import Parser

KINDS = {1: "alp", 4: "log", 5: "reboot"}

class Unspecified(Exception): pass

_cache = {}
def alp(payload):
  k = tuple(payload)
  if k not in _cache: _cache[k] = alpdiff.expect(list(payload))
  return _cache[k]

def decode_ok(raw):
  def ok(t, payload):
    if t == 1:
      if raw: return True
      e = alp(payload)
      if e[0] == "unspecified": raise Unspecified()
      return e[0] == "ok"
    if t == 4: return True
    if t == 5: return len(payload) > 0
    raise Unspecified()     # ping and unknown message types
  return ok

def scan(stream, raw):
  return ref.scan(stream, decode_ok(raw))

def want_message(t, payload, raw):
  if t == 1 and not raw:
    m = alp(payload)[1]
    return [1, norm(dict((k, m[k]) for k in ("tag", "status", "actions", "completed")))]
  if t == 5: return [5, payload[0]]
  return [t, list(payload)]

def got_message(t, cmd, raw):
  t = int(t)
  if t == 1 and not raw: return [1, norm(glue.model_of(cmd))]
  if t == 5: return [5, cmd]
  return [t, list(bytearray(cmd))]

class Feed(object):
  """one parser, fed chunk by chunk; checks what every call reports"""
  def __init__(self, ctx, raw=False):
    self.ctx, self.raw = ctx, raw
    self.p = Parser(skip_alp_parsing=raw) if raw else Parser()
    self.rx, self.msgs, self.parsed, self.skipped, self.buffered, self.errors = [], [], 0, 0, 0, 0
  def feed(self, chunk):
    ctx = self.ctx
    arg = bytearray(chunk)
    types, cmds, info = ctx.guard(lambda: self.p.parse(arg), "parsing [%s] after [%s]" % (mc.hexs(chunk), mc.hexs(self.rx)))
    ctx.step()
    self.rx += chunk
    what = "of the call with [%s]" % mc.hexs(self.rx)
    ctx.eq(len(types), len(cmds), "number of message types " + what)
    new = [got_message(t, c, self.raw) for t, c in zip(types, cmds)]
    self.msgs += new
    ctx.eq(info["parsed"] % 8, 0, "consumed bits " + what)
    self.parsed += info["parsed"] // 8
    self.skipped += sum(e["skipped"] for e in info["errors"])
    self.errors += len(info["errors"])
    ctx.eq(info["buffer"] % 8, 0, "buffered bits " + what)
    self.buffered = info["buffer"] // 8
    ctx.eq(self.parsed + self.skipped + self.buffered, len(self.rx),
           "bytes delivered (%d), skipped (%d) and buffered (%d) in total after [%s]" % (self.parsed, self.skipped, self.buffered, mc.hexs(self.rx)))
    return new
  def rest(self):
    """the buffered bytes have to be able to begin a frame"""
    b = self.rx[len(self.rx) - self.buffered:]
    ok = not b or (b[0] == 0xC0 and b[1:2] in ([], [0]) and (len(b) < 7 or len(b) < 7 + b[4]))
    self.ctx.check(ok, lambda: "[%s] is kept after [%s]" % (mc.hexs(b), mc.hexs(self.rx)))
    return b
  def compare(self):
    """everything so far against the reference; False when that leaves it unspecified"""
    ctx = self.ctx
    self.rest()
    try: msgs, pos, skipped = scan(self.rx, self.raw)
    except Unspecified: return False
    what = " after %s[%s]" % ("raw " if self.raw else "", mc.hexs(self.rx))
    ctx.eq(self.msgs, [want_message(t, p, self.raw) for t, p in msgs], "messages" + what)
    ctx.eq(self.skipped, skipped, "skipped bytes" + what)
    ctx.check((self.errors > 0) == (skipped > 0), lambda: "%d errors reported for %d skipped bytes%s" % (self.errors, skipped, what))
    ctx.eq(self.parsed, sum(7 + len(p) for t, p in msgs), "consumed bytes" + what)
    ctx.eq(self.buffered, len(self.rx) - pos, "buffered bytes" + what)
    return True

# ------------------------------------------------------------------ alphabet of frames
READ = [0x01, 0x40, 0x00, 0x08]
ALPS = [[], [0x20, 0x40, 0, 2, 0xC0, 0], [0x34, 7] + READ, [0xB4, 0xC0, 0x04, 0x40, 0, 3, 0xC0, 0x00, 0x01], [0x23, 9],
        [0xA3, 5, 0x62, 0xD7, 0x0C, 0x32, 0, 5, 0x46, 0x10, 0x50, 0x20, 0x40, 0x05, 0x05, 0x10, 0x00, 0x20, 0x41, 0, 1, 0xC0], [0x33, 0x41], [0x33, 0xC0, 0x33, 0x00] + READ]
BAD_ALPS = [[0x20], [0x05], [0xC0], [0x01, 0x40, 0x00], [0x34, 1, 0x34, 2], [0x20, 0x40, 0, 3, 0xC0, 0]]
LOGS = [[], [0x68, 0x69], [0xC0, 0x00, 0x01, 0x01, 0x00, 0xFF], list(range(256))[-40:]]
BOOTS = [[0], [1], [0xC0], [5, 0xC0, 0], [0xFF, 1]]

def letters(raw):
  out = [(1, p) for p in ALPS]
  if raw: out += [(1, p) for p in BAD_ALPS]
  return out + [(4, p) for p in LOGS] + [(5, p) for p in BOOTS]

def stream(msgs, counter=1):
  out = []
  for i, (t, p) in enumerate(msgs): out += ref.frame(p, counter + i, t)
  return out
