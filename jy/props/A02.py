import glue, ref, mc, alphabet, alpdiff
from glue import tup, norm

RULE = "one case per action with one dense field value, per action sequence over the alphabet, and per single-byte change of a letter; non-trivial: distinct encodings decoded"
ASSUMPTIONS = ["reference: ref.dec_action; an interface status whose length byte disagrees with its content is left unspecified",
               "a command that declares fewer bytes than its actions need is covered at the level of serial frames (C04)"]

def cases(tier):
  letters = alphabet.letters()
  yield ["seq", []]
  for a in letters: yield ["letter", a]
  for a in letters:
    for b in letters: yield ["seq", [a, b]]
  for i, a in enumerate(alphabet.parseable(tier)): yield ["one", i % 3, a]
  few = alphabet.few_letters()
  for seq in mc.covering(few, few, few): yield ["seq", list(seq)]
  six = [few[i] for i in (0, 1, 2, 5, 7, 9)]
  for seq in mc.covering(six, six, six, six): yield ["seq", list(seq)]
  if tier == "thorough":
    for seq in mc.covering(letters, letters, letters): yield ["seq", list(seq)]
    for seq in mc.covering(few, few, few, few): yield ["seq", list(seq)]
  for n in (255, 256, 300, 0x3FFF, 0x4000, 0x4001, 0x10010):
    for k in ("write", "return"): yield ["big", k, n]
    yield ["big", "query", n]
  for a in few:
    for b in few: yield ["change", [a, b]]

def run(case, ctx):
  kind = case[0]
  if kind == "big":
    d = [(i * 7 + 3) & 0xFF for i in range(case[2])]
    a = (case[1], True, False, 0x40, 5, d) if case[1] != "query" else ("query", False, False, True, "EQUALITY", d, 0x41, 5)
    acts = [a, ("read", False, False, 1, 2, 3)]
    alpdiff.decoded(alpdiff.enc(acts), ref.command_model(acts), ctx, alpdiff.TAILS[:2])
    ctx.trace(kind, case[1], case[2])
    return
  if kind == "one":
    a = tup(case[2])
    bs = ref.enc_action(a)
    e = alpdiff.expect(bs)
    assert e[0] == "ok" and norm(e[2]) == norm([a]), (a, e)
    alpdiff.decoded(bs, e[1], ctx, [alpdiff.TAILS[case[1]]])
    ctx.trace(tuple(bs[:40]), len(bs))
    return
  acts = [tup(a) for a in ([case[1]] if kind == "letter" else case[1])]
  forms = [alpdiff.enc(acts)]
  if kind == "letter" or len(acts) == 2:
    for l in (2, 3, 4): forms.append(alpdiff.enc(acts, l))
  if kind != "change":
    for bs in forms:
      e = alpdiff.expect(bs)
      if e[0] != "ok": continue
      assert norm(e[2]) == norm(acts), (acts, e)
      alpdiff.decoded(bs, e[1], ctx, alpdiff.TAILS if kind == "letter" else alpdiff.TAILS[len(acts) % 3:][:1])
      ctx.trace(tuple(bs))
  if kind == "letter" or kind == "change":
    base = forms[0]
    first = len(ref.enc_action(acts[0]))
    for bs in alpdiff.changes(base):
      if kind == "change" and bs[first:] == base[first:] and bs[0] == base[0]: continue # only the second action and the opcode
      e = alpdiff.expect(bs)
      if e[0] != "ok": continue
      alpdiff.decoded(bs, e[1], ctx)
      ctx.trace(tuple(bs))
