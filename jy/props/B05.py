import glue, ref, mc, codec
from codec import Codec
from glue import norm

RULE = "one case per group of values (every field densely over backgrounds, corner pairs), of encodings (every byte replaced by every value, all pairs of flipped bits), per truncation, and per compared pair of headers; non-trivial: distinct encodings"
ASSUMPTIONS = ["reference: ref.FILE_HEADER"]

CODECS = {
  "permissions": Codec("permissions", ref.PERM.encode, ref.PERM.decode, glue.permissions, glue.r_permissions, glue.FilePermissions.parse),
  "properties": Codec("properties", ref.PROP.encode, ref.PROP.decode, glue.properties, glue.r_properties, glue.FileProperties.parse),
  "header": Codec("file header", ref.FILE_HEADER.encode, ref.FILE_HEADER.decode, glue.file_header, glue.r_file_header, glue.FileHeader.parse),
}
LAY = {"permissions": ref.PERM, "properties": ref.PROP, "header": ref.FILE_HEADER}

def cases(tier):
  for n in ("permissions", "properties"):
    yield ["b", n, [[x] for x in range(256)]]
    yield ["cut", n, [[0]]]
    yield ["v", n, list(mc.layout_values(LAY[n], tier))]
  l = ref.FILE_HEADER
  for c in codec.cases_for("header", None, mc.layout_values(l, tier), [l.encode(v) for v in mc.backgrounds(l)], tier): yield c
  for x in range(256):
    yield ["b", "header", [[x, y, 1, 2, 0, 0, 0, 3, 0, 0, 0, 4] for y in ((0, 0x80, 0x33, 0xB0, 0xFF, 0x0C) if tier == "quick" else range(256))]]
  for k in range(3):
    for f in range(len(l.fields)): yield ["eq", k, f]

def run(case, ctx):
  if case[0] != "eq": return codec.run_cases(CODECS, case, ctx)
  _, k, f = case
  l = ref.FILE_HEADER
  v = mc.backgrounds(l)[k]
  field = l.fields[f]
  a, b = glue.file_header(v), glue.file_header(dict(v))
  c = glue.FileHeader.parse(glue.stream(l.encode(v)))
  for x, y in ((a, b), (b, a), (a, c), (c, a), (a, a)):
    ctx.check((x == y) is True and (x != y) is False, "equal file headers compare different")
    ctx.check(x.permissions == y.permissions and not x.permissions != y.permissions, "equal permissions compare different")
    ctx.check(x.properties == y.properties and not x.properties != y.properties, "equal properties compare different")
  ctx.check(not a == None and a != None and not a == 5 and not a == v, "a header equals something else")
  if field[1] == "rfu": return
  vals = mc.field_values(field, "quick")
  for x in vals[::max(1, len(vals) // 60)]:
    w = dict(v)
    w[field[0]] = x
    d = glue.file_header(w)
    same = x == v[field[0]]
    for p, q in ((a, d), (d, a)):
      ctx.step()
      ctx.check((p == q) is same and (p != q) is (not same), "headers that differ in %s (%s, %s): equal=%s, different=%s" % (field[0], v[field[0]], x, p == q, p != q))
      part = "permissions" if field[0] in ref.PERM.names() else "properties" if field[0] in ref.PROP.names() else None
      if part: ctx.check((getattr(p, part) == getattr(q, part)) is same and (getattr(p, part) != getattr(q, part)) is (not same), "%s that differ in %s" % (part, field[0]))
    ctx.trace("eq", k, field[0], repr(x))
