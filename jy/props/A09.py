import glue, ref, mc, alphabet
from glue import norm, ReturnFileData, Data, Offset, Length, SystemFiles, SystemFileIds

RULE = "one case per file id x data length (0..registered length+2) x content x offset (decoded and constructed), and per densely enumerated valid content of every implemented file; non-trivial: contents that are interpreted"
ASSUMPTIONS = ["reference: ref.FILE_CODEC; whether valid content followed by bytes within the registered length is interpreted is left unspecified, as is an engineering mode file without its reserved bytes"]

NAMES = dict((i, n) for i, n, l in ref.SYSTEM_FILES)
LENS = dict((i, l) for i, n, l in ref.SYSTEM_FILES)

def values(name, tier):
  n = "ACCESS_PROFILE" if name.startswith("ACCESS_PROFILE") else name
  import props.A07 as a07
  lay = {"UID": ref.UID_FILE, "FACTORY_SETTINGS": ref.FACTORY_SETTINGS, "ENGINEERING_MODE": ref.ENGINEERING, "VID": ref.VID_FILE,
         "DLL_CONFIG": ref.DLL_CONFIG, "DLL_STATUS": ref.DLL_STATUS, "NWL_SECURITY_KEY": ref.SECURITY_KEY,
         "ALP_ROOT_AUTHENTICATION_KEY": ref.AUTH_KEY, "ALP_USER_AUTHENTICATION_KEY": ref.AUTH_KEY}.get(n)
  if lay is not None:
    for v in mc.layout_values(lay, "quick", pairs=tier == "thorough", dense=lay.size < 30 or tier == "thorough"): yield v
  else:
    for v in a07.VALUES[n]: yield v

def bytes_of(name, v): return ref.file_codec(name)[0](v)

def contents(i, n):
  """data of n bytes"""
  yield [0] * n
  yield [255] * n
  yield [(7 * k + 1) & 0x7F for k in range(n)]
  name = NAMES.get(i)
  if name is not None and ref.file_codec(name) is not None:
    for v in list(values(name, "quick"))[:3]:
      b = bytes_of(name, v)
      yield (b + [0x41] * n)[:n]

def cases(tier):
  for i in range(256):
    top = LENS.get(i, 6)
    for n in range(top + 3): yield ["id", i, n]
  for i, name, l in ref.SYSTEM_FILES:
    if ref.file_codec(name) is None: continue
    if name.startswith("ACCESS_PROFILE") and i > 0x22 and tier == "quick": continue
    for v in values(name, tier): yield ["content", i, bytes_of(name, v)]
    # every single-byte change of a valid content
    for v in list(values(name, "quick"))[2:3]:
      b = bytes_of(name, v)
      for k in range(len(b)):
        for x in ((0, 0xFF, b[k] ^ 0x80, b[k] ^ 1) if tier == "quick" else range(256)): yield ["content", i, b[:k] + [x] + b[k + 1:]]
  for n in range(0, 14): yield ["phy", n]

def judge(i, off, data, ctx, parsed):
  a = ("return", False, True, i, off, data)
  bs = ref.enc_action(a)
  if parsed:
    cmd, n = ctx.guard(lambda: glue.parse_alp(bs), "decoding %s" % mc.hexs(bs))
    ctx.eq(n, len(bs), "bytes consumed")
    act = cmd.actions[0]
    ctx.eq(norm(glue.r_action(act)), norm(a), "decoded return file data action")
    ctx.eq(mc.hexs(glue.by(cmd)), mc.hexs(bs), "re-serialized")
    op = act.operation
  else:
    mine = list(data)
    op = ctx.guard(lambda: ReturnFileData(operand=Data(data=mine, offset=Offset(id=i, offset=Length(off)))), "constructing %s" % mc.short(a))
    ctx.eq((op.operand.offset.id, op.operand.offset.offset.value, list(op.operand.data), mine), (i, off, data, data), "content of the action")
    ctx.eq(mc.hexs(glue.by(op)), mc.hexs(bs[1:]), "serialized")
    if len(data) < 80: ctx.guard(lambda: str(glue.RegularAction(operation=op)), "printing")
  ctx.step()
  name = NAMES.get(i)
  verdict, want = "no", None
  if off == 0 and name is not None and ref.file_codec(name) is not None and len(data) <= LENS[i]:
    try:
      v, used = ref.file_codec(name)[1](data, 0)
      if used == len(data): verdict, want = "yes", v
      else: verdict = "unspecified"
    except ref.Unspecified: verdict = "unspecified"
    except (ref.Short, ref.Bad): pass
  got = op.file_data_parsed
  if verdict == "no":
    ctx.check(got is None, "file %d (%s), offset %d, %d bytes [%s] presented as %s" % (i, name, off, len(data), mc.hexs(data), mc.short(str(got))))
    ctx.eq(op.systemfile_type, None, "system file type of file %d, offset %d, [%s]" % (i, off, mc.hexs(data)))
  elif verdict == "yes":
    cls, build, read = glue.file_entry(name)
    ctx.check(isinstance(got, cls), "complete %s [%s] interpreted as %s" % (name, mc.hexs(data), mc.short(got)))
    have = ctx.guard(lambda: read(got), "interpretation of %s" % name)
    ctx.eq(norm(have), norm(want), "interpretation of %s [%s]" % (name, mc.hexs(data)))
    ctx.check(op.systemfile_type is SystemFiles.files[SystemFileIds(i)] or op.systemfile_type.id == i, "system file type of %s" % name)
    ctx.nontrivial.add((i, tuple(data)))
  ctx.trace(i, off, tuple(data), verdict)

def run(case, ctx):
  kind = case[0]
  if kind == "id":
    i, n = case[1:]
    for data in contents(i, n):
      judge(i, 0, data, ctx, n % 3 == i % 3)
      for off in (1, 0x40) if n < 20 else (1 + n,): judge(i, off, data, ctx, False)
  elif kind == "content":
    judge(case[1], 0, case[2], ctx, len(case[2]) % 4 == 0 or sum(case[2]) % 4 == 0)
  else:
    n = case[1]
    head = [0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 3, 0, 4, n]
    chan = [0x60, 5, 9]
    for k in range(max(0, n - 2), n + 3):
      for cut in (0, 1): judge(9, 0, (head + chan * k)[:15 + 3 * k - cut], ctx, True)
