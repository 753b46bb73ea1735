import glue, ref, mc, alphabet, serframes
from glue import Command
import itertools

RULE = "one case per payload length (0..300 except 1, 3 and 5, which no command has; each built from two kinds of actions, at three counter values), per history of up to 5 (thorough: 6) operations, per action of the alphabet, and per long run; non-trivial: distinct frames"
ASSUMPTIONS = ["a command that does not fit is refused by any exception"]

def filler(n):
  """actions of n bytes in total (n = 2 or n >= 4, except 5)"""
  out = []
  while n > 0:
    if n < 6:
      assert n in (2, 4), n
      for i in range(n // 2): out.append(("readheader", False, False, 0xC0 + i))
      n = 0
    else:
      k = min(n, 67)
      if n - k in (1, 3, 5): k -= 6
      d = [(i * 5 + n) & 0xFF for i in range(k - 4)]
      out.append(("write", False, False, 0x42, 3, d))
      n -= k
  return out
def enc(acts): return [b for a in acts for b in ref.enc_action(a)]
def untagged(acts): return Command(actions=[glue.action(a) for a in acts], generate_tag_request_action=False)

class Failing(Command):
  """a command that can not be serialized"""
  def __iter__(self):
    yield 0x01
    raise ValueError("can not be serialized")

OPS = ["small", "empty", "full", "over", "huge", "fail", "rx", "rxbad"]
PAYLOADS = {"small": [1, 0x40, 0, 8], "empty": [], "full": enc(filler(255)), "over": enc(filler(256)), "huge": enc(filler(700))}

def command(op):
  if op == "small": return untagged([("read", False, False, 0x40, 0, 8)])
  if op == "fail": return Failing(generate_tag_request_action=False)
  return untagged(filler(len(PAYLOADS[op])))

def build(p, cmd, payload, counter, ctx, what):
  f = ctx.guard(lambda: list(bytearray(p.build_serial_frame(cmd))), "framing %s" % what)
  ctx.step()
  ctx.eq(mc.hexs(f), mc.hexs(ref.frame(payload, counter)), "frame of %s" % what)
  ctx.nontrivial.add(tuple(f))
  ctx.trace(tuple(f))

def refuse(p, cmd, ctx, what):
  ctx.raises(lambda: p.build_serial_frame(cmd), "framing %s" % what)
  ctx.step()

def cases(tier):
  for n in range(0, 301): yield ["len", n]
  for d in range(1, 6 if tier == "quick" else 7):
    ops = OPS if d <= 4 else OPS[:1] + OPS[2:4] + OPS[5:7]
    for h in itertools.product(ops, repeat=d): yield ["hist", list(h)]
  for i in range(0, 256, 8 if tier == "quick" else 1): yield ["run", i]
  for a in (alphabet.letters() if tier == "quick" else alphabet.parseable("quick")): yield ["act", a]

def run(case, ctx):
  kind = case[0]
  if kind == "len":
    n = case[1]
    if n in (1, 3, 5): return   # no command has this length
    forms = [(untagged(filler(n)), enc(filler(n)))]
    if n >= 100:
      k = n - 5
      a = ("write", False, False, 0x42, 3, [(i * 7 + n) & 0xFF for i in range(k)])
      forms.append((untagged([a]), ref.enc_action(a)))
    if n == 2 or n == 4 or n > 7 or n == 6:
      if n - 2 not in (1, 3, 5): forms.append((Command(actions=[glue.action(a) for a in filler(n - 2)], tag_id=n & 0xFF), [0xB4, n & 0xFF] + enc(filler(n - 2))))
    for cmd, bs in forms:
      assert len(bs) == n
      for before in (0, 1, 2):
        p = serframes.Parser()
        for i in range(before): build(p, command("small"), PAYLOADS["small"], i, ctx, "a command before")
        for k in range(2):
          if n <= 255: build(p, cmd, bs, before + k, ctx, "%d bytes" % n)
          else: refuse(p, cmd, ctx, "%d bytes" % n)
        build(p, command("small"), PAYLOADS["small"], before + (2 if n <= 255 else 0), ctx, "the command after %d bytes" % n)
  elif kind == "hist":
    p, c = serframes.Parser(), 0
    for i, op in enumerate(case[1]):
      what = "operation %d of %s" % (i, case[1])
      if op in ("over", "huge", "fail"): refuse(p, command(op), ctx, what)
      elif op == "rx": p.parse(bytearray(ref.frame([0x20, 0x40, 0, 1, 7], 40)))
      elif op == "rxbad": p.parse(bytearray([0xC0, 0, 1, 1, 2, 9, 9, 7, 7, 0xC0]))
      else:
        build(p, command(op), PAYLOADS[op], c, ctx, what)
        c += 1
    build(p, command("small"), PAYLOADS["small"], c, ctx, "the command after %s" % case[1])
    ctx.trace("hist", tuple(case[1]))
  elif kind == "run":
    # 600 frames, with a refused one at position i (and around the overflow of the counter)
    p, c = serframes.Parser(), 0
    for k in range(600):
      if k in (case[1], case[1] + 1, 255, 256):
        refuse(p, command("over" if k % 2 else "fail"), ctx, "frame %d" % k)
      f = list(bytearray(p.build_serial_frame(command("empty"))))
      ctx.step()
      ctx.eq(mc.hexs(f), mc.hexs(ref.frame([], c)), "frame %d of a run" % k)
      c += 1
    ctx.trace("run", case[1])
  else:
    a = glue.tup(case[1])
    if a[0] in ("ifstatus", "tagreq", "tagresp"): return   # their serialization is the subject of A06
    bs = ref.enc_action(a)
    if len(bs) <= 255: build(serframes.Parser(), untagged([a]), bs, 0, ctx, "%s" % (a,))
    else: refuse(serframes.Parser(), untagged([a]), ctx, "%s" % (a,))
