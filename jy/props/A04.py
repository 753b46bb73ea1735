import glue, ref, mc, alphabet, alpdiff
from glue import tup

RULE = "one case per letter or pair of letters: all truncations and all single-byte changes the reference rejects; one per opcode byte; one per kind of unsupported content; non-trivial: distinct rejected encodings"
ASSUMPTIONS = ["reference: ref.dec_action; an interface status whose length byte disagrees with its content is left unspecified"]

def cases(tier):
  letters = alphabet.letters()
  for a in letters: yield ["seq", [a]]
  for b in range(256): yield ["first", b]
  for b in range(256): yield ["second", b]
  for i in range(256): yield ["interface", i]
  for i in range(256): yield ["query", i]
  for i in range(256): yield ["qos", i]
  for i in range(256): yield ["channel", i]
  for i in range(256): yield ["property", i]
  for a in letters:
    for b in letters: yield ["cut", [a, b]]
  few = alphabet.few_letters()
  for a in few:
    for b in (letters if tier == "thorough" else few): yield ["seq", [a, b]]
  for seq in mc.covering(few, few, few): yield ["cut", list(seq)]

def judge(bs, ctx):
  e = alpdiff.expect(bs)
  if e[0] == "reject":
    alpdiff.rejected(bs, e[1], ctx)
    ctx.trace(tuple(bs))

def run(case, ctx):
  kind, arg = case
  if kind in ("seq", "cut"):
    acts = [tup(a) for a in arg]
    base = alpdiff.enc(acts)
    for n in range(len(base)):
      if kind == "cut" and n and len(base) - n > 12 and n % 7: continue
      judge(base[:n], ctx)
    if kind == "cut":
      judge(base, ctx)   # invalid combinations
      return
    for bs in alpdiff.changes(base): judge(bs, ctx)
    return
  pads = [[0] * 40, [0xFF] * 40, [1, 2, 3, 4, 5, 6, 7, 8] * 5, []]
  read = ref.enc_action(("read", False, False, 1, 2, 3))
  if kind == "first":
    for p in pads:
      for n in range(len(p) + 1): judge([arg] + p[:n], ctx)
  elif kind == "second":
    for p in pads:
      for n in range(0, len(p) + 1, 3): judge(read + [arg] + p[:n], ctx)
  elif kind == "interface":
    for op in (0x32, 0x72, 0xB2, 0x22, 0x62, 0xA2, 0xE2):
      for p in pads:
        for n in (0, 1, 2, 3, 4, 5, 9, 11, 19): judge([op, arg] + p[:n], ctx)
  elif kind == "query":
    for p in ([0, 1, 2, 0], [1, 0xFF, 1, 0], [2, 1, 2, 3, 4, 0]):
      for n in range(len(p) + 1): judge([9, arg] + p[:n], ctx)
  else:
    # the byte at its place in a forward action, an interface status and a file header
    st = alphabet.statuses("quick", True)[3]
    cf = alphabet.configs("quick", True)[3]
    hd = alphabet.headers("quick", True)[2]
    if kind == "qos":
      b = ref.enc_action(("forward", False, "D7ASP", cf))
      b[2] = arg
    elif kind == "channel":
      b = ref.enc_action(("ifstatus", 0xD7, st))
      b[3] = arg
    else:
      b = ref.enc_action(("returnheader", False, False, 1, hd))
      b[3] = arg
    judge(b, ctx)
    judge(read + b, ctx)
    judge(b + read, ctx)
