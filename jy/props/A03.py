import glue, ref, mc, alphabet
from glue import tup, norm, Command, InterfaceType, SystemFiles, SystemFileIds, Configuration
from itertools import islice

RULE = "one case per densely enumerated action, per factory x interface x parameters, per action sequence and per inexpressible parameter; non-trivial: distinct byte strings serialized"
ASSUMPTIONS = ["reference: ref.enc_action", "without a given configuration the D7ASP interface is used with Configuration()",
               "32 bit LoRaWAN fields out of range are left out: Jython's struct.pack truncates them, CPython's refuses them",
               "the position of an interface status in a command that also has other actions is not asserted (see A06)"]

FACTORIES = ["read", "write", "return", "readheader", "writeheader", "create", "read_sys", "write_sys"]

def interfaces(tier):
  yield ["HOST", None]
  yield ["SERIAL", None]
  yield ["D7ASP", None]
  for c in alphabet.configs(tier, True): yield ["D7ASP", c]
  for c in mc.backgrounds(ref.LORAWAN_ABP): yield ["LORAWAN_ABP", c]
  for c in mc.backgrounds(ref.LORAWAN_OTAA): yield ["LORAWAN_OTAA", c]

def parameters(kind, tier, few):
  if kind == "read":
    if few: return [[0x40, 8, 0], [0, 0, 0x3F], [0xFF, 0x3FFFFFFF, 0x4000]]
    return [[f, 5, 3] for f in range(256)] + [[0x40, n, o] for n in alphabet.LENGTH_EDGES for o in alphabet.LENGTH_EDGES]
  if kind in ("write", "return"):
    if few: return [[0x40, [1, 2, 3], 0], [0, [], 0x40], [0xFF, [0xC0] * 70, 0x3FFFFFFF]]
    return [[f, [f, 0, 255 - f], 3] for f in range(256)] + [[0x40, [1], o] for o in mc.dense_uints(30, "quick")[::7]] + \
           [[0x41, d, 0] for d in alphabet.datas(list(range(0, 70)) + [255, 256, 300])] + \
           [[0x42, [v, v ^ 0x55], 0] for v in range(256)]
  if kind == "readheader": return [[f] for f in ([0, 0x40, 255] if few else range(256))]
  if kind in ("writeheader", "create"):
    h = alphabet.headers(tier, True)
    if few: return [[f, x] for f, x in zip((0, 0x40, 255), h)]
    return [[f, h[f % 3]] for f in range(256)] + [[0x40, x] for x in mc.layout_values(ref.FILE_HEADER, tier, dense=tier == "thorough")]
  if kind == "read_sys": return [[i] for i, n, l in ref.SYSTEM_FILES]
  if kind == "write_sys":
    out = []
    for n in ("UID", "VID", "DLL_CONFIG", "DLL_STATUS", "ENGINEERING_MODE", "NWL_SECURITY_KEY"):
      lay = {"UID": ref.UID_FILE, "VID": ref.VID_FILE, "DLL_CONFIG": ref.DLL_CONFIG, "DLL_STATUS": ref.DLL_STATUS,
             "ENGINEERING_MODE": ref.ENGINEERING, "NWL_SECURITY_KEY": ref.SECURITY_KEY}[n]
      for v in mc.backgrounds(lay): out.append([n, v])
    return out

def cases(tier):
  ifs = list(interfaces(tier))
  for k in FACTORIES:
    for i in ifs:
      for p in parameters(k, tier, True): yield ["factory", k, i, p]
    if k in ("read_sys", "write_sys"): continue
    for n, p in enumerate(parameters(k, tier, False)): yield ["factory", k, ifs[n % len(ifs)] if n % 3 == 0 else ifs[0], p]
  for c in alphabet.configs("quick") if tier == "quick" else alphabet.configs(tier): yield ["forward", "D7ASP", c]
  for n, l in (("LORAWAN_ABP", ref.LORAWAN_ABP), ("LORAWAN_OTAA", ref.LORAWAN_OTAA)):
    for v in mc.layout_values(l, tier): yield ["forward", n, v]
  ad = alphabet.addressees(tier, True)
  for f in range(256):
    yield ["iforward", f, False, None]
    yield ["iforward", f, False, ad[f % 6]]
    yield ["iforward", f, True, ad[f % 6]]
  for tag in range(256):
    for resp in (False, True): yield ["tag", tag, resp]
  for i in range(len(BAD)): yield ["bad", i]
  letters = alphabet.letters() + [("readheader", True, False, 7), ("writeheader", False, True, 8, mc.backgrounds(ref.FILE_HEADER)[2])]
  for a in letters:
    yield ["seq", [a]]
    for b in letters: yield ["seq", [a, b]]
  few = alphabet.few_letters()
  for s in mc.covering(few, few, few): yield ["seq", list(s)]
  if tier == "thorough":
    for s in mc.covering(letters, letters, letters): yield ["seq", list(s)]
  # single actions densely; packed, an action is much smaller than a case
  group = []
  for a in alphabet.encodable(tier):
    group.append(a)
    if len(group) == 16:
      yield ["ones", group]
      group = []
  yield ["ones", group]

def head(cmd, respond=True):
  """the tag request a new command starts with"""
  return [0x34 | (0x80 if respond else 0), cmd.tag_id]

def forward_bytes(i):
  if i[0] == "HOST": return []
  c = norm(i[1])
  if i[0] == "D7ASP" and c is None: c = glue.r_config(Configuration())
  return ref.enc_action(("forward", False, i[0], c))

def build(kind, i, p):
  t = InterfaceType[i[0]]
  c = glue.iface_config(i[0], norm(i[1])) if i[1] is not None else None
  kw = {"interface_type": t, "interface_configuration": c}
  if kind == "read":
    return Command.create_with_read_file_action(p[0], p[1], offset=p[2], **kw), ref.enc_action(("read", False, False, p[0], p[2], p[1]))
  if kind == "write":
    return Command.create_with_write_file_action(p[0], list(p[1]), offset=p[2], **kw), ref.enc_action(("write", False, False, p[0], p[2], p[1]))
  if kind == "return":
    return Command.create_with_return_file_data_action(p[0], list(p[1]), offset=p[2], **kw), ref.enc_action(("return", False, False, p[0], p[2], p[1]))
  if kind == "readheader":
    return Command.create_with_read_file_header(p[0], **kw), ref.enc_action(("readheader", False, False, p[0]))
  if kind == "writeheader":
    return (Command.create_with_write_file_header(p[0], glue.file_header(norm(p[1])), **kw),
            ref.enc_action(("writeheader", False, False, p[0], norm(p[1]))))
  if kind == "create":
    return (Command.create_with_create_new_file(p[0], glue.file_header(norm(p[1])), **kw),
            ref.enc_action(("create", False, False, p[0], norm(p[1]))))
  if kind == "read_sys":
    ent = [e for e in ref.SYSTEM_FILES if e[0] == p[0]][0]
    f = SystemFiles.files[SystemFileIds(p[0])]
    return Command.create_with_read_file_action_system_file(f, **kw), ref.enc_action(("read", False, False, ent[0], 0, ent[2]))
  if kind == "write_sys":
    v = norm(p[1])
    fid = [e for e in ref.SYSTEM_FILES if e[1] == p[0]][0][0]
    return (Command.create_with_write_file_action_system_file(glue.FILES[p[0]][1](v), **kw),
            ref.enc_action(("write", False, False, fid, 0, ref.FILE_CODEC[p[0]][0](v))))

def H(): return glue.file_header(mc.backgrounds(ref.FILE_HEADER)[2])
def C(): return Configuration()
T = InterfaceType
def _late(f): # serialization included
  return lambda: list(bytearray(f()))
BAD = [_late(f) for f in
  [lambda v=v: Command.create_with_read_file_action(v, 1) for v in (-1, 256, None, "1", 1 << 16)] +
  [lambda v=v: Command.create_with_write_file_action(v, [1]) for v in (-1, 256, None, "1", 1 << 16)] +
  [lambda v=v: Command.create_with_return_file_data_action(v, [1]) for v in (-1, 256, None, "1", 1 << 16)] +
  [lambda v=v: Command.create_with_read_file_header(v) for v in (-1, 256, None, "1", 1 << 16)] +
  [lambda v=v: Command.create_with_write_file_header(v, H()) for v in (-1, 256, None, "1", 1 << 16)] +
  [lambda v=v: Command.create_with_create_new_file(v, H()) for v in (-1, 256, None, "1", 1 << 16)] +
  [lambda v=v: Command.create_with_read_file_action(1, v) for v in (-1, 1 << 30, 1 << 32, None, "1", [1])] +
  [lambda v=v: Command.create_with_read_file_action(1, 1, offset=v) for v in (-1, 1 << 30, 1 << 32, None, "1")] +
  [lambda v=v: Command.create_with_write_file_action(1, [1], offset=v) for v in (-1, 1 << 30, 1 << 32, None, "1")] +
  [lambda v=v: Command.create_with_return_file_data_action(1, [1], offset=v) for v in (-1, 1 << 30, 1 << 32, None, "1")] +
  [lambda v=v: Command.create_with_write_file_action(1, v) for v in ([256], [-1], [1, None], ["a"], [0, 1, 300], None, 5)] +
  [lambda v=v: Command.create_with_return_file_data_action(1, v) for v in ([256], [-1], [1, None], ["a"], [0, 1, 300], None, 5)] +
  [lambda v=v: Command.create_with_write_file_header(1, v) for v in (None, 1, [0] * 12)] +
  [lambda v=v: Command.create_with_create_new_file(1, v) for v in (None, 1, [0] * 12)] +
  [lambda v=v: Command.create_with_return_file_data_action(1, [1], tag_id=v) for v in (-1, 256, "1", 1 << 16)] +
  [lambda v=v: Command(tag_id=v) for v in (-1, 256, "1", 1 << 16)] +
  [lambda t=t, c=c: Command.create_with_read_file_action(1, 1, interface_type=t, interface_configuration=c())
    for t, c in [(T.HOST, C), (None, lambda: None), (7, C), (0xD7, C), ("D7ASP", C), (T.D7ASP, lambda: 5), (T.D7ASP, lambda: "x"),
                 (T.LORAWAN_ABP, lambda: 5), (T.LORAWAN_OTAA, lambda: "x")]] +
  [lambda t=t, c=c: Command.create_with_write_file_action(1, [1], interface_type=t, interface_configuration=c())
    for t, c in [(T.HOST, C), (None, lambda: None), (7, C)]] +
  [lambda v=v: _ifw(v, False, None) for v in (-1, 256, None, "1")] +
  [lambda v=v: _ifw(v, True, None) for v in (-1, 256)] +
  [lambda v=v: _ifw(1, True, v) for v in (5, "x", [1], None)] +
  [lambda: glue.action(("iforward", True, False, 3, None)), lambda: _ifa(False), lambda: _ifa(True)] +
  [lambda v=v: _abp(v) for v in ({"app_port": 256}, {"app_port": -1}, {"data_rate": 256}, {"data_rate": -1}, {"app_port": None},
                                 {"dev_addr": None}, {"netw_id": None})]]
def _ifw(f, o, c):
  cmd = Command()
  cmd.add_indirect_forward_action(interface_file_id=f, overload=o, overload_configuration=c)
  return cmd
def _ifa(o):
  op = glue.IndirectForward(operand=glue.IndirectInterfaceOperand(interface_file_id=1,
         interface_configuration_overload=None if o else glue.addressee(alphabet.addressees("quick", True)[0])))
  return glue.IndirectForwardAction(overload=o, operation=op)
def _abp(v):
  w = dict(mc.backgrounds(ref.LORAWAN_ABP)[2])
  w.update(v)
  return Command.create_with_read_file_action(1, 1, interface_type=T.LORAWAN_ABP, interface_configuration=glue.abp(w))

def run(case, ctx):
  kind = case[0]
  def same(cmd, want, what):
    got = ctx.guard(lambda: glue.by(cmd), "serializing %s" % what)
    ctx.step()
    ctx.eq(mc.hexs(got), mc.hexs(want), what)
    ctx.trace(tuple(want[2:]))
  if kind == "factory":
    k, i, p = case[1:]
    cmd, want = ctx.guard(lambda: build(k, i, p), "building %s" % case)
    ctx.check(type(cmd.tag_id) is int and 0 <= cmd.tag_id <= 255, "tag %r" % (cmd.tag_id,))
    same(cmd, head(cmd) + forward_bytes(i) + want, "create %s on %s with %s" % (k, i[0], mc.short(p, 120)))
  elif kind == "forward":
    cmd = Command()
    c = glue.iface_config(case[1], norm(case[2]))
    ctx.guard(lambda: cmd.add_forward_action(InterfaceType[case[1]], c), "add_forward_action")
    same(cmd, head(cmd) + forward_bytes(case[1:]), "forward %s" % case)
  elif kind == "iforward":
    cmd = Command()
    f, o, a = case[1:]
    ctx.guard(lambda: cmd.add_indirect_forward_action(interface_file_id=f, overload=o,
                overload_configuration=glue.addressee(norm(a)) if a else None), "add_indirect_forward_action")
    same(cmd, head(cmd) + ref.enc_action(("iforward", o, False, f, norm(a) if o else None)), "indirect forward %s" % case)
  elif kind == "tag":
    tag, resp = case[1:]
    read = ("read", False, True, 1, 2, 3)
    for gen in (True, False):
      cmd = Command(actions=[glue.action(read)], tag_id=tag, generate_tag_request_action=gen, send_tag_response_when_completed=resp)
      same(cmd, (ref.enc_action(("tagreq", resp, tag)) if gen else []) + ref.enc_action(read), "tag %d gen %s resp %s" % (tag, gen, resp))
      ctx.eq(cmd.tag_id, tag, "tag")
    cmd = Command.create_with_return_file_data_action(5, [1], tag_id=tag)
    same(cmd, [0xB4, tag] + ref.enc_action(("return", False, False, 5, 0, [1])), "return file data with tag")
    same(Command(tag_id=tag, send_tag_response_when_completed=resp), ref.enc_action(("tagreq", resp, tag)), "empty command")
  elif kind == "bad":
    ctx.step()
    f = BAD[case[1]]
    ctx.raises(f, "inexpressible parameter %d" % case[1])
    ctx.trace("bad", case[1])
  elif kind == "ones":
    for a in case[1]:
      a = tup(a)
      got = ctx.guard(lambda: glue.by(glue.action(a)), "serializing %s" % mc.short(a))
      want = ref.enc_action(a)
      ctx.step()
      if a[0] == "ifstatus":   # its length byte is the known finding of A06
        if got == want[:2] + want[3:]: continue
      ctx.eq(mc.hexs(got), mc.hexs(want), "bytes of %s" % mc.short(a))
      ctx.trace(tuple(want[:60]), len(want))
  elif kind == "seq":
    acts = [tup(a) for a in case[1]]
    tags = [a for a in acts if a[0] in ("tagreq", "tagresp")]
    sts = [a for a in acts if a[0] == "ifstatus"]
    if len(tags) > 1 or len(sts) > 0: return
    rest = []
    for a in acts:
      if a not in tags: rest += ref.enc_action(a)
    objs = ctx.guard(lambda: [glue.action(a) for a in acts], "actions %s" % mc.short(acts))
    # every way to hand them over
    cmd = Command(actions=list(objs), generate_tag_request_action=False)
    same(cmd, rest, "command of %s" % mc.short(acts))
    cmd = Command(actions=list(objs))
    respond = tags[0][1] if tags and tags[0][0] == "tagreq" else True
    if not tags or tags[0][0] == "tagreq":
      same(cmd, [0x34 | (0x80 if respond else 0), tags[0][2] if tags else cmd.tag_id] + rest, "command with tag of %s" % mc.short(acts))
    if not tags:
      cmd = Command(tag_id=0x77)
      for o in objs: cmd.add_action(o)
      same(cmd, [0xB4, 0x77] + rest, "added %s" % mc.short(acts))
