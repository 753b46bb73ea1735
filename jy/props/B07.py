import glue, ref, mc, alphabet, codec
from glue import norm, Command, InterfaceType, SystemFiles, SystemFileIds
import props.A03 as a03, props.A07 as a07, props.B06 as b06

RULE = "one case per registered system file x interface, per file content written x interface, and for the registry; non-trivial: commands"
ASSUMPTIONS = ["reference: ref.SYSTEM_FILES"]

def cases(tier):
  yield ["registry"]
  ifs = list(a03.interfaces(tier))
  if tier == "thorough": ifs = ifs + [["D7ASP", c] for c in alphabet.configs("quick")[::23]]
  for i in range(256):
    for x in ifs: yield ["read", i, x]
  for n in sorted(glue.FILES):
    vs = list(b06.values(n, "quick"))
    step = max(1, len(vs) // (150 if tier == "quick" else 1500))
    for k, v in enumerate(vs[::step]):
      yield ["write", n, v, ifs[k % len(ifs)] if k % 2 else ifs[0]]
    for x in ifs: yield ["write", n, vs[0], x]

def run(case, ctx):
  kind = case[0]
  if kind == "registry":
    all_ids = SystemFiles().get_all_system_files()
    ctx.eq([(i.value, i.name) for i in all_ids], [(i, n) for i, n, l in ref.SYSTEM_FILES], "registered system files")
    for i, n, l in ref.SYSTEM_FILES:
      f = SystemFiles().files[SystemFileIds(i)]
      ctx.eq(f.id, i, "id of %s" % n)
      if n != "PHY_STATUS": ctx.eq(f.length, l, "length of %s" % n)
      e = glue.file_entry(n)
      if e is not None: ctx.check(isinstance(f, e[0]), "class of %s" % n)
      else: ctx.check(isinstance(f, glue.NotImplementedFile), "class of %s" % n)
      ctx.step()
      ctx.trace(i)
    ctx.eq(len(set(i.value for i in SystemFileIds)), len(list(SystemFileIds)), "distinct ids")
    return
  if kind == "read":
    i, x = case[1:]
    known = [e for e in ref.SYSTEM_FILES if e[0] == i]
    if not known:
      ctx.raises(lambda: SystemFiles.files[SystemFileIds(i)], "unregistered file %d" % i)
      return
    f = SystemFiles.files[SystemFileIds(i)]
    t, c = InterfaceType[x[0]], glue.iface_config(x[0], norm(x[1])) if x[1] is not None else None
    cmd = ctx.guard(lambda: Command.create_with_read_file_action_system_file(f, interface_type=t, interface_configuration=c), "reading file %d" % i)
    want = a03.head(cmd) + a03.forward_bytes(x) + ref.enc_action(("read", False, False, i, 0, known[0][2]))
    ctx.eq(mc.hexs(glue.by(cmd)), mc.hexs(want), "command reading file %d" % i)
    ctx.step()
    ctx.trace(i, repr(x))
  else:
    n, v, x = case[1], norm(case[2]), case[3]
    f = glue.FILES[n][1](v)
    t, c = InterfaceType[x[0]], glue.iface_config(x[0], norm(x[1])) if x[1] is not None else None
    cmd = ctx.guard(lambda: Command.create_with_write_file_action_system_file(f, interface_type=t, interface_configuration=c), "writing %s" % n)
    fid = 0x20 if n == "ACCESS_PROFILE" else [e[0] for e in ref.SYSTEM_FILES if e[1] == n][0]
    data = ref.FILE_CODEC[n][0](v)
    want = a03.head(cmd) + a03.forward_bytes(x) + ref.enc_action(("write", False, False, fid, 0, data))
    ctx.eq(mc.hexs(glue.by(cmd)), mc.hexs(want), "command writing %s" % n)
    ctx.step()
    ctx.trace(n, tuple(data[:60]), repr(x))
