import glue, ref, mc, alphabet, alpdiff
from glue import tup, norm
import itertools

RULE = "one case per group of densely enumerated actions, per action sequence over the alphabet (shortest and longest length forms), and per tag and flag; non-trivial: distinct encodings"
ASSUMPTIONS = ["the interface status is serialized before the other actions; tag requests only when enabled, tag responses never",
               "known finding: the interface status lacks its length byte"]

def cases(tier):
  letters = alphabet.letters()
  for a in letters:
    yield ["seq", [a]]
    for b in letters: yield ["seq", [a, b]]
  few = alphabet.few_letters()
  for s in mc.covering(few, few, few): yield ["seq", list(s)]
  if tier == "thorough":
    for s in mc.covering(letters, letters, letters): yield ["seq", list(s)]
    for s in itertools.product(few[:8], repeat=5): yield ["seq", list(s)]
  for tag in range(256): yield ["tag", tag]
  group = []
  for a in alphabet.parseable(tier):
    group.append(a)
    if len(group) == 8:
      yield ["ones", group]
      group = []
  yield ["ones", group]

def canonical(acts):
  """(bytes of the interface status, the same without its length byte, bytes of the other actions)"""
  st, rest = [], []
  for a in acts:
    if a[0] == "ifstatus": st = ref.enc_action(a)
    elif a[0] not in ("tagreq", "tagresp"): rest += ref.enc_action(a)
  return st, st[:2] + st[3:], rest

def back(acts, bs, ctx, head=()):
  cmd, n = ctx.guard(lambda: glue.parse_alp(bs), "decoding %s" % mc.hexs(bs))
  got = ctx.guard(lambda: glue.by(cmd), "serializing what %s was decoded to" % mc.hexs(bs))
  st, known, rest = canonical(acts)
  ctx.step(2)
  if st and got == known + rest:
    ctx.fail("interface status without length byte: %s" % mc.hexs(got), sig="ifstatus-without-length")
    ctx.trace("known", tuple(got[:50]))
    return
  ctx.eq(mc.hexs(got), mc.hexs(st + rest), "re-serialized %s" % mc.hexs(bs))
  ctx.eq(mc.hexs(glue.by(cmd)), mc.hexs(got), "second serialization")
  cmd2, n = ctx.guard(lambda: glue.parse_alp(got), "decoding the re-serialized %s" % mc.hexs(got))
  ctx.eq(norm([glue.r_action(a) for a in cmd2.actions]), norm([a for a in acts if a[0] not in ("tagreq", "tagresp", "ifstatus")]), "second decoding")
  ctx.eq(mc.hexs(glue.by(cmd2)), mc.hexs(got), "fixpoint")
  ctx.step(3)
  ctx.trace(tuple(got[:60]), len(got))

def alone(a, bs, ctx):
  """the action objects themselves, which is all there is to serialize for tag responses"""
  if not hasattr(glue.AlpParser, "parse_alp_action"): return
  act = ctx.guard(lambda: glue.AlpParser().parse_alp_action(glue.stream(bs)), "decoding action %s" % mc.hexs(bs))
  got = ctx.guard(lambda: glue.by(act), "serializing the action %s was decoded to" % mc.hexs(bs))
  ctx.step()
  if a[0] == "ifstatus" and got == bs[:2] + bs[3:]:
    ctx.fail("interface status without length byte: %s" % mc.hexs(got), sig="ifstatus-without-length")
    return
  ctx.eq(mc.hexs(got), mc.hexs(bs), "re-serialized action")

def run(case, ctx):
  kind = case[0]
  if kind == "seq":
    acts = [tup(a) for a in case[1]]
    e = alpdiff.expect(alpdiff.enc(acts))
    if e[0] != "ok": return
    back(acts, alpdiff.enc(acts), ctx)
    if len(acts) < 3: back(acts, alpdiff.enc(acts, 4), ctx)
  elif kind == "ones":
    for a in case[1]:
      a = tup(a)
      bs = ref.enc_action(a)
      if a[0] not in ("tagreq", "tagresp"): back([a], bs, ctx)
      alone(a, bs, ctx)
  else:
    tag = case[1]
    few = [("return", False, False, 0x40, 0, [1, tag]), ("read", True, False, tag, 3, 4)]
    for f in (False, True):
      for pos in range(3):
        acts = list(few)
        acts.insert(pos, ("tagreq", f, tag))
        cmd, n = ctx.guard(lambda: glue.parse_alp(alpdiff.enc(acts)), "decoding %s" % (acts,))
        rest = alpdiff.enc(few)
        ctx.eq(mc.hexs(glue.by(cmd)), mc.hexs(rest), "re-serialized without tag request")
        cmd.generate_tag_request_action = True
        ctx.eq(mc.hexs(glue.by(cmd)), mc.hexs(ref.enc_action(("tagreq", f, tag)) + rest), "re-serialized with tag request")
        ctx.step(2)
        ctx.trace(tag, f, pos)
        cmd = glue.Command(actions=[glue.action(a) for a in acts])
        ctx.eq(mc.hexs(glue.by(cmd)), mc.hexs(ref.enc_action(("tagreq", f, tag)) + rest), "built with tag request action")
