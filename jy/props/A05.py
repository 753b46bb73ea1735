import glue, ref, mc, alphabet, alpdiff, random
from glue import tup, norm, Command, ParseError
import itertools

RULE = "one case per sequence of up to 4 (thorough: 6) actions over tag requests, tag responses, interface statuses and other actions (each constructed and decoded), per tag and flags, and per block of outcomes of the random generator; non-trivial: distinct commands"
ASSUMPTIONS = ["the random generator is enumerated by substituting random.random (4096 evenly spaced values, both ends included)"]

def alpha(n):
  st = alphabet.statuses("quick", True)
  return [("tagreq", True, 7), ("tagresp", True, True, 0), ("ifstatus", 0xD7, st[3]), ("read", False, False, 1, 2, 3),
          ("tagreq", False, 0), ("tagresp", False, False, 0xFF), ("ifstatus", 1, None), ("return", False, False, 0x40, 0, [])][:n]

def cases(tier):
  a = alpha(8)
  for n in range(0, 4): 
    for s in itertools.product(range(8), repeat=n): yield ["seq", list(s)]
  for s in itertools.product(range(6), repeat=4): yield ["seq", list(s)]
  if tier == "thorough":
    for s in itertools.product(range(8), repeat=4): yield ["seq", list(s)]
    for s in itertools.product(range(6), repeat=5): yield ["seq", list(s)]
    for s in itertools.product(range(4), repeat=6): yield ["seq", list(s)]
  for tag in range(256): yield ["tag", tag]
  for b in range(0, 4096, 64): yield ["random", b]

def valid(acts):
  return sum(a[0] in ("tagreq", "tagresp") for a in acts) <= 1 and sum(a[0] == "ifstatus" for a in acts) <= 1

def report(cmd, acts, tag, ctx, what):
  """what a valid command has to report; tag: expected if there is no tag action"""
  tags = [a for a in acts if a[0] in ("tagreq", "tagresp")]
  sts = [a for a in acts if a[0] == "ifstatus"]
  ctx.eq(cmd.tag_id, tags[0][-1] if tags else tag, "tag of " + what)
  resp = tags and tags[0][0] == "tagresp"
  ctx.eq(cmd.execution_completed, tags[0][1] if resp else False, "completed flag of " + what)
  if resp: ctx.eq(cmd.completed_with_error, tags[0][2], "error flag of " + what)
  if tags and not resp: ctx.eq(cmd.send_tag_response_when_completed, tags[0][1], "response flag of " + what)
  st = glue.r_action(cmd.interface_status) if cmd.interface_status is not None else None
  ctx.eq(norm(st), norm(sts[0]) if sts else None, "interface status of " + what)
  got = cmd.get_d7asp_interface_status()
  ctx.eq(norm(glue.r_status(got)) if got is not None else None, norm(sts[0][2]) if sts and sts[0][1] == 0xD7 else None,
         "d7asp status of " + what)
  rest = [a for a in acts if a[0] not in ("tagreq", "tagresp", "ifstatus")]
  ctx.eq(norm([glue.r_action(a) for a in cmd.actions]), norm(rest), "actions of " + what)
  ctx.state(what)

def run(case, ctx):
  kind = case[0]
  if kind == "seq":
    acts = [alpha(8)[i] for i in case[1]]
    ok = valid(acts)
    what = "%s" % ([a[:2] for a in acts],)
    tagged = [a for a in acts if a[0] in ("tagreq", "tagresp")]
    make = lambda **kw: Command(actions=[glue.action(a) for a in acts], **kw)
    bs = alpdiff.enc(acts)
    ctx.step(4)
    if not ok:
      ctx.raises(make, "constructing " + what)
      ctx.raises(lambda: make(generate_tag_request_action=False), "constructing " + what)
      ctx.raises(lambda: glue.parse_alp(bs), "decoding " + what)
      ctx.trace("rejected", tuple(case[1]))
      return
    cmd = ctx.guard(make, "constructing " + what)
    if not tagged:
      ctx.check(type(cmd.tag_id) is int and 0 <= cmd.tag_id <= 255, "generated tag %r" % (cmd.tag_id,))
      t = cmd.tag_id
      glue.by(cmd), str(cmd), cmd.describe_actions(), glue.by(cmd)
      cmd.add_action(glue.action(("read", False, False, 9, 9, 9)))
      cmd.actions.pop()
      ctx.eq((cmd.tag_id, glue.by(cmd)[:2]), (t, [0xB4, t]), "generated tag later")
    report(cmd, acts, cmd.tag_id if not tagged else None, ctx, what)
    cmd = ctx.guard(lambda: make(generate_tag_request_action=False), "constructing " + what)
    report(cmd, acts, None, ctx, what + " untagged")
    for t in (0, 200):
      if tagged: ctx.raises(lambda: make(tag_id=t), "tag %d given to %s" % (t, what))
      else:
        cmd = ctx.guard(lambda: make(tag_id=t), "constructing " + what)
        report(cmd, acts, t, ctx, what + " tag given")
        ctx.eq(glue.by(cmd)[:2], [0xB4, t], "tag on the wire")
    cmd, n = ctx.guard(lambda: glue.parse_alp(bs), "decoding " + what)
    ctx.eq(n, len(bs), "consumed")
    report(cmd, acts, None, ctx, what + " decoded")
    ctx.eq(cmd.generate_tag_request_action, False, "tag request of a decoded command is only added on demand")
    ctx.trace("ok", tuple(case[1]))
  elif kind == "tag":
    tag = case[1]
    data = ("return", False, False, 0x40, 0, [tag])
    for f in (False, True):
      for g in (False, True):
        for acts in ([("tagresp", f, g, tag), data], [data, ("tagresp", f, g, tag)], [("tagresp", f, g, tag)]):
          cmd, n = ctx.guard(lambda: glue.parse_alp(alpdiff.enc(acts)), "decoding")
          report(cmd, acts, None, ctx, "%s decoded" % (acts,))
          report(Command(actions=[glue.action(a) for a in acts]), acts, None, ctx, "%s" % (acts,))
          ctx.step(2)
          ctx.trace(tag, f, g, len(acts))
      for acts in ([("tagreq", f, tag), data], [data, ("tagreq", f, tag)], [("tagreq", f, tag)]):
        cmd, n = ctx.guard(lambda: glue.parse_alp(alpdiff.enc(acts)), "decoding")
        report(cmd, acts, None, ctx, "%s decoded" % (acts,))
        cmd = Command(actions=[glue.action(a) for a in acts])
        report(cmd, acts, None, ctx, "%s" % (acts,))
        ctx.eq(glue.by(cmd)[:2], [0xB4 if f else 0x34, tag], "tag request on the wire")
        ctx.step(2)
      cmd = Command(tag_id=tag, send_tag_response_when_completed=f)
      report(cmd, [], tag, ctx, "empty, tag %d" % tag)
      ctx.eq(glue.by(cmd), [0xB4 if f else 0x34, tag], "tag request on the wire")
      ctx.trace(tag, f)
  else:
    inst = random._inst
    orig = inst.random
    try:
      for k in range(case[1], case[1] + 64):
        x = min(k / 4095.0, 1.0 - 2.0 ** -53)
        inst.random = lambda: x
        for make in (lambda: Command(), lambda: Command.create_with_read_file_action(1, 1), lambda: Command.create_with_read_file_header(1)):
          cmd = ctx.guard(make, "random outcome %r" % x)
          t = cmd.tag_id
          ctx.step()
          ctx.check(type(t) is int and 0 <= t <= 255, "generated tag %r for random outcome %r" % (t, x))
          inst.random = lambda: (x + 0.37) % 1.0
          ctx.eq((glue.by(cmd)[:2], glue.by(cmd)[:2], cmd.tag_id), ([0xB4, t], [0xB4, t], t), "generated tag later")
          inst.random = lambda: x
          ctx.trace("random", t)
          ctx.nontrivial.add(t)
    finally:
      del inst.random
