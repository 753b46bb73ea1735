import glue, ref, mc, alphabet, alpdiff, dllmodel
from glue import tup, norm, Command, InterfaceType, RegularAction
import itertools
from d7a.serial_modem_interface.parser import Parser as SerialParser
from d7a.dll.parser import Parser as DllParser, FrameType

RULE = "one case per operation history: worlds of two commands (depth 3, thorough 4), two serial parsers and two DLL parsers (depth 4, thorough 5), two objects of one class (depth 3, thorough 4), and every ordered pair of variants of all classes; every object alive is compared after every operation; non-trivial: distinct histories"
ASSUMPTIONS = ["operations: constructing (with defaults, with shared caller lists), add_action/add_forward_action/add_indirect_forward_action, parsing, serializing, printing, as_dict; assigning to attributes of nested default objects is not an operation"]

# ---------------------------------------------------------------- world of commands
READ = ("read", False, False, 0x40, 0, 8)
RET = ("return", False, True, 0x41, 0, [1, 2])
WRITE = ("write", True, False, 0x42, 3, [9])
STAT = None
CMD_OPS = ["new", "newtag", "newlist", "newplain", "readf", "writef", "retf", "parse1", "parse2", "add", "fwd", "ifwd", "ser", "str"]
BASE = {}

def p2():
  st = alphabet.statuses("quick", True)[3]
  return alpdiff.enc([("tagresp", True, False, 0), ("ifstatus", 0xD7, st), RET])

def default_forward():
  if "fwd" not in BASE: BASE["fwd"] = norm(glue.r_config(glue.Configuration()))
  return ref.enc_action(("forward", False, "D7ASP", BASE["fwd"]))

class CmdWorld(object):
  """expected: per slot (tag request bytes or [], action bytes), or a fixed byte string for a decoded command"""
  def __init__(self, ctx):
    self.ctx, self.slots, self.want = ctx, [None, None], [None, None]
    self.list_bytes = [("read", False, False, 0x50, 1, 2), ("tagreq", False, 9), ("write", False, False, 0x51, 0, [])]
    self.shared = [glue.action(a) for a in self.list_bytes]
    self.shared_copy = list(self.shared)
    self.plain = [glue.action(READ), glue.action(WRITE)]
    self.plain_copy = list(self.plain)
    self.data = [7, 8, 9]
    self.conf = glue.config(alphabet.configs("quick", True)[3])
    self.conf_model = norm(alphabet.configs("quick", True)[3])
    self.conf_bytes = glue.by(self.conf)

  def enabled(self, op): return op[0] in CMD_OPS[:9] or self.slots[op[1]] is not None

  def do(self, op):
    k, i = op
    s, w = self.slots[i], self.want[i]
    if k in CMD_OPS[:9]:
      acts, tag, respond = [], None, True
      if k == "new": c = Command()
      elif k == "newtag": c, tag, respond = Command(tag_id=5 + i, send_tag_response_when_completed=False), 5 + i, False
      elif k == "newlist":
        c, tag, respond, acts = Command(actions=self.shared), 9, False, [self.list_bytes[0], self.list_bytes[2]]
      elif k == "newplain": c, tag, acts = Command(actions=self.plain, tag_id=20 + i), 20 + i, [READ, WRITE]
      elif k == "readf": c, acts = Command.create_with_read_file_action(0x40, 8), [READ]
      elif k == "writef":
        c = Command.create_with_write_file_action(0x43, self.data, interface_type=InterfaceType.D7ASP, interface_configuration=self.conf)
        acts = [("forward", False, "D7ASP", self.conf_model), ("write", False, False, 0x43, 0, [7, 8, 9])]
      elif k == "retf":
        c, tag = Command.create_with_return_file_data_action(0x44, self.data, tag_id=0), 0
        acts = [("return", False, False, 0x44, 0, [7, 8, 9])]
      elif k == "parse1": c, acts, tag = glue.parse_alp(alpdiff.enc([READ, WRITE]))[0], [READ, WRITE], None
      else: c, acts, tag = glue.parse_alp(p2())[0], None, 0
      self.slots[i] = c
      if k in ("parse1", "parse2"):
        if tag is not None: self.ctx.eq(c.tag_id, tag, "tag of decoded command")
        else: self.ctx.eq(c.tag_id, None, "tag of decoded command")
        fixed = glue.by(c) if acts is None else alpdiff.enc(acts)
        self.want[i] = [[], fixed, c.tag_id, norm([glue.r_action(a) for a in c.actions]), norm([RET]) if acts is None else norm(acts)]
        self.ctx.eq(self.want[i][3], self.want[i][4], "actions of the decoded command")
      else:
        if tag is None: tag = c.tag_id
        self.want[i] = [[0xB4 if respond else 0x34, tag], alpdiff.enc(acts), tag, None, None]
    elif k == "add":
      s.add_action(glue.action(WRITE))
      w[1] = w[1] + ref.enc_action(WRITE)
    elif k == "fwd":
      s.add_forward_action(InterfaceType.D7ASP)
      w[1] = w[1] + default_forward()
    elif k == "ifwd":
      s.add_indirect_forward_action(interface_file_id=3, overload=False)
      w[1] = w[1] + ref.enc_action(("iforward", False, False, 3, None))
    elif k == "ser": glue.by(s)
    elif k == "str": str(s), s.describe_actions(), s.as_dict()

  def verify(self, what):
    for i in (0, 1):
      if self.slots[i] is None: continue
      w = self.want[i]
      got = self.ctx.guard(lambda: glue.by(self.slots[i]), "serializing command %d after %s" % (i, what))
      self.ctx.eq(mc.hexs(got), mc.hexs(w[0] + w[1]), "command %d after %s" % (i, what))
      self.ctx.eq(self.slots[i].tag_id, w[2], "tag of command %d after %s" % (i, what))
    self.ctx.check(len(self.shared) == 3 and all(a is b for a, b in zip(self.shared, self.shared_copy)), "the caller's list of actions changed after %s" % (what,))
    self.ctx.check(len(self.plain) == 2 and all(a is b for a, b in zip(self.plain, self.plain_copy)), "the caller's list of regular actions changed after %s" % (what,))
    self.ctx.eq(self.data, [7, 8, 9], "the caller's data after %s" % (what,))
    self.ctx.eq(glue.by(self.conf), self.conf_bytes, "the caller's configuration after %s" % (what,))

# ---------------------------------------------------------------- two serial parsers
ALP1, ALP2 = [0x20, 0x40, 0, 2, 0xC0, 0], [0x34, 7, 1, 0x40, 0, 4]
CHUNKS = {"a": ref.frame(ALP1, 1), "b1": ref.frame(ALP2, 1)[:9], "b2": ref.frame(ALP2, 1)[9:], "log": ref.frame([65, 66], 3, 4),
          "bad": [0xC0, 0, 1, 1], "junk": [0x55, 0xC0]}
SER_OPS = ["a", "b1", "b2", "log", "junk", "build"]

def decodable(t, payload):
  if t in (1, 2, 3): return alpdiff.expect(payload)[0] == "ok"
  return t != 5 or len(payload) > 0

class SerWorld(object):
  def __init__(self, ctx):
    self.ctx, self.p, self.rx, self.got, self.ups = ctx, [SerialParser(), SerialParser()], [[], []], [[], []], [0, 0]
  def enabled(self, op): return True
  def do(self, op):
    k, i = op
    if k == "build":
      c = Command(actions=[glue.action(READ)], generate_tag_request_action=False)
      f = list(bytearray(self.p[i].build_serial_frame(c)))
      self.ctx.eq(mc.hexs(f), mc.hexs(ref.frame(ref.enc_action(READ), self.ups[i])), "frame %d of parser %d" % (self.ups[i], i))
      self.ups[i] += 1
      return
    chunk = bytearray(CHUNKS[k])
    types, cmds, info = self.p[i].parse(chunk)
    self.ctx.eq(list(chunk), CHUNKS[k], "chunk handed to the parser")
    self.rx[i] += CHUNKS[k]
    self.got[i] += [(int(t), norm([glue.r_action(a) for a in c.actions]) if t == 1 else str(c)) for t, c in zip(types, cmds)]
  def verify(self, what):
    for i in (0, 1):
      msgs, pos, skipped = ref.scan(self.rx[i], decodable)
      want = [(t, norm(alpdiff.expect(p)[1]["actions"]) if t == 1 else "".join(map(chr, p))) for t, p in msgs]
      self.ctx.eq(self.got[i], want, "messages of parser %d after %s" % (i, what))

# ---------------------------------------------------------------- two DLL parsers
def dll_frames():
  fg = dllmodel.fg
  return (dllmodel.enc(fg()), dllmodel.enc(fg(start=True, ack=True, tc=(1, 1), tl=(2, 2), agc=9, id_type="VID", target=[1, 2],
                                            alp=[("return", False, False, 0x40, 0, [7, 9])])))

DLL_OPS = ["one", "half1", "half2", "bg"]
class DllWorld(object):
  def __init__(self, ctx):
    self.ctx = ctx
    self.p = [DllParser(FrameType.FOREGROUND), DllParser(FrameType.FOREGROUND)]
    self.alone = [DllParser(FrameType.FOREGROUND), DllParser(FrameType.FOREGROUND)]
    self.f1, self.f2 = dll_frames()
    self.log = [[], []]
  def enabled(self, op): return True
  def do(self, op):
    k, i = op
    b = {"one": self.f1, "half1": self.f2[:7], "half2": self.f2[7:], "bg": []}[k]
    self.log[i].append(b)
    self.res = self.out(self.p[i], b)
    # the same bytes again to a parser used by nobody else
    q = DllParser(FrameType.FOREGROUND)
    for x in self.log[i]: want = self.out(q, x)
    self.ctx.eq(self.res, want, "DLL parser %d after %s" % (i, self.log[i]))
  def out(self, p, b):
    try: frames, info = p.parse(list(b))
    except Exception as e: return "raised " + e.__class__.__name__
    return [mc.hexs(glue.by(f)) if f is not None else None for f in frames], info["parsed"], info["buffer"]
  def verify(self, what): pass

# ---------------------------------------------------------------- two objects of a class
def variants():
  """name -> list of (label, function creating the object, function reading its fields, expected bytes | None)"""
  out = {}
  strm = glue.stream
  for n in sorted(glue.FILES):
    cls, build, read = glue.FILES[n]
    enc, dec = ref.FILE_CODEC[n]
    vals = VALUES[n]
    l = []
    if n != "ACCESS_PROFILE": l.append(("default", lambda cls=cls: cls(), read, None))
    for k, v in enumerate(vals):
      l.append(("new%d" % k, lambda build=build, v=v: build(v), read, enc(v)))
      l.append(("parse%d" % k, lambda cls=cls, b=enc(v): cls.parse(strm(b)), read, enc(v)))
    out[n] = l
  ad = alphabet.addressees("quick", True)
  cf = alphabet.configs("quick", True)
  def pair(name, cls, vals, build, read, enc, default=True):
    l = [("default", lambda: cls(), read, None)] if default else []
    for k, v in enumerate(vals):
      l.append(("new%d" % k, lambda v=v: build(v), read, enc(v)))
      if hasattr(cls, "parse"): l.append(("parse%d" % k, lambda v=v: cls.parse(strm(enc(v))), read, enc(v)))
    out[name] = l
  pair("Addressee", glue.Addressee, [ad[1], ad[3]], glue.addressee, glue.r_addressee, ref.enc_addressee)
  pair("QoS", glue.QoS, mc.backgrounds(ref.QOS)[1:], glue.qos, glue.r_qos, ref.QOS.encode)
  pair("Configuration", glue.Configuration, [cf[1], cf[4]], glue.config, glue.r_config, ref.enc_config)
  pair("CT", glue.CT, [(1, 2), (7, 31)], glue.ct, glue.pure, lambda v: [v[0] << 5 | v[1]])
  pair("Status", glue.Status, alphabet.statuses("quick", True)[:2], glue.status, glue.r_status, ref.enc_status, False)
  pair("FilePermissions", glue.FilePermissions, mc.backgrounds(ref.PERM)[:2], glue.permissions, glue.r_permissions, ref.PERM.encode)
  pair("FileHeader", glue.FileHeader, mc.backgrounds(ref.FILE_HEADER)[1:], glue.file_header, glue.r_file_header, ref.FILE_HEADER.encode, False)
  pair("SubBand", glue.SubBand, mc.backgrounds(ref.SUBBAND)[:2], glue.subband, glue.r_subband, ref.SUBBAND.encode)
  pair("SubProfile", glue.SubProfile, mc.backgrounds(ref.SUBPROFILE)[:2], glue.subprofile, glue.r_subprofile, ref.SUBPROFILE.encode)
  pair("ChannelStatusIdentifier", glue.ChannelStatusIdentifier, mc.backgrounds(ref.CHAN_STATUS)[:2], glue.chan_status,
       lambda o: glue.r_fields(o, ref.CHAN_STATUS.names()), ref.CHAN_STATUS.encode)
  pair("Length", glue.Length, [5, 0x4000], glue.Length, glue.pure, ref.length_bytes)
  pair("Offset", glue.Offset, [(3, 70), (0x40, 1)], lambda v: glue.Offset(id=v[0], offset=glue.Length(v[1])),
       lambda o: (o.id, o.offset.value), lambda v: [v[0]] + ref.length_bytes(v[1]))
  rd = lambda o: (o.offset.id, o.offset.offset.value, o.length.value, list(getattr(o, "data", [])))
  shared = [1, 2, 3]
  out["Data"] = [("default", lambda: glue.Data(), rd, [0, 0, 0]),
                 ("list", lambda: glue.Data(data=shared), rd, [0, 0, 3, 1, 2, 3]),
                 ("both", lambda: glue.Data(data=shared, offset=glue.Offset(id=4, offset=glue.Length(5))), rd, [4, 5, 3, 1, 2, 3])]
  out["DataRequest"] = [("default", lambda: glue.DataRequest(3), rd, [0, 0, 3]),
                        ("both", lambda: glue.DataRequest(length=4, offset=glue.Offset(id=4, offset=glue.Length(5))), rd, [4, 5, 4])]
  for n, cls in (("RegularAction", RegularAction), ("TagRequestAction", glue.TagRequestAction)):
    out[n] = [("default", lambda cls=cls: cls(), lambda o: o.op, None)]
  out["RegularAction"].append(("read", lambda: glue.action(READ), lambda o: norm(glue.r_action(o)), ref.enc_action(READ)))
  out["RegularAction"].append(("ret", lambda: glue.action(RET), lambda o: norm(glue.r_action(o)), ref.enc_action(RET)))
  out["InterfaceConfigurationFile"] = [("default", lambda: glue.InterfaceConfigurationFile(), lambda o: (o.id, o.length), None)]
  out["NotImplementedFile"] = [("default", lambda: glue.NotImplementedFile(3, 4), lambda o: (o.id, o.length), None),
                               ("other", lambda: glue.NotImplementedFile(4, 5), lambda o: (o.id, o.length), None)]
  out["PHY_STATUS"] += [("shared%d" % k, lambda: glue.PhyStatusFile(channel_status_list_length=2, channel_status_identifier=PHY_LIST,
                         channel_noise_floor=PHY_FLOOR), glue._r_phy, None) for k in (0,)]
  return out

def phy_values():
  bg = mc.backgrounds(ref.PHY_STATUS_HEAD)
  ch = mc.backgrounds(ref.CHAN_STATUS)
  out = []
  for k in (0, 1, 3):
    v = dict((n, bg[k % 3][n]) for n in ("up_time", "rx_time", "tx_time", "tx_duty_cycle"))
    v["channels"] = [(ch[j % 3], 10 * j + k) for j in range(k)]
    out.append(v)
  return out
def fw_values():
  bg = mc.backgrounds(ref.FIRMWARE)
  out = []
  for k in (1, 2):
    v = dict(bg[k])
    v["application_name"], v["git_sha1"] = "abcde" + str(k), "123456" + str(k)
    out.append(v)
  return out
def access_values():
  out = []
  for k in (1, 2):
    out.append({"channel_header": mc.backgrounds(ref.CHAN_HEAD)[k],
                "sub_profiles": [mc.backgrounds(ref.SUBPROFILE)[(k + j) % 3] for j in range(4)],
                "sub_bands": [mc.backgrounds(ref.SUBBAND)[(k + j) % 3] for j in range(8)]})
  return out
VALUES = dict((n, [v for v in mc.backgrounds(l)[1:]]) for n, l in (("UID", ref.UID_FILE), ("FACTORY_SETTINGS", ref.FACTORY_SETTINGS),
  ("ENGINEERING_MODE", ref.ENGINEERING), ("VID", ref.VID_FILE), ("DLL_CONFIG", ref.DLL_CONFIG), ("DLL_STATUS", ref.DLL_STATUS),
  ("NWL_SECURITY_KEY", ref.SECURITY_KEY), ("ALP_ROOT_AUTHENTICATION_KEY", ref.SECURITY_KEY), ("ALP_USER_AUTHENTICATION_KEY", ref.SECURITY_KEY)))
for _v in VALUES["FACTORY_SETTINGS"]: _v["rssi_smoothing"] = 3
VALUES["PHY_STATUS"], VALUES["FIRMWARE_VERSION"], VALUES["ACCESS_PROFILE"] = phy_values(), fw_values(), access_values()
PHY_LIST = [glue.chan_status(mc.backgrounds(ref.CHAN_STATUS)[1]), glue.chan_status(mc.backgrounds(ref.CHAN_STATUS)[2])]
PHY_FLOOR = [4, 5]

NOSER = {"NotImplementedFile", "InterfaceConfigurationFile"}

class ObjWorld(object):
  def __init__(self, ctx, name=None):
    self.ctx, self.slots = ctx, [None, None]
    self.name = name
  def enabled(self, op): return op[0] not in ("ser", "str") or self.slots[op[1]] is not None
  def snapshot(self, o):
    cls, label, obj, read = o
    b = None if cls in NOSER else glue.by(obj)
    return (b, norm(read(obj)))
  def create(self, cls, k, i):
    label, make, read, want = VARIANTS[cls][k]
    obj = self.ctx.guard(make, "creating %s %s" % (cls, label))
    o = (cls, label, obj, read)
    snap = self.ctx.guard(lambda: self.snapshot(o), "reading %s %s" % (cls, label))
    if want is not None: self.ctx.eq(mc.hexs(snap[0]), mc.hexs(want), "bytes of %s %s" % (cls, label))
    else: self.ctx.eq(snap, BASELINE[cls, label], "%s %s created again" % (cls, label))
    self.slots[i] = (o, snap)
  def do(self, op):
    k, i = op
    if k == "ser": glue.by(self.slots[i][0][2]) if self.slots[i][0][0] not in NOSER else None
    elif k == "str":
      str(self.slots[i][0][2])
      if hasattr(self.slots[i][0][2], "as_dict"): self.slots[i][0][2].as_dict()
    else: self.create(self.name, k, i)
  def verify(self, what):
    for s in self.slots:
      if s is not None: self.ctx.eq(self.snapshot(s[0]), s[1], "%s %s after %s" % (s[0][0], s[0][1], what))
    self.ctx.eq(norm([PHY_FLOOR, [glue.by(x) for x in PHY_LIST]]), norm(PHY_ORIG), "the caller's lists after %s" % (what,))

PHY_ORIG = [list(PHY_FLOOR), [glue.by(x) for x in PHY_LIST]]
VARIANTS = variants()
BASELINE = {}

def registry():
  out = []
  for i in glue.SystemFiles().get_all_system_files():
    f = glue.SystemFiles.files[i]
    e = glue.file_entry(i.name)
    out.append((i.name, f.id, f.length, norm(e[2](f)) if e is not None and not i.name.startswith("ACCESS") else None))
  return out

def setup(ctx, tier):
  w = ObjWorld(ctx)
  for cls in sorted(VARIANTS):
    for label, make, read, want in VARIANTS[cls]:
      if want is None: BASELINE[cls, label] = w.snapshot((cls, label, make(), read))
  default_forward()
  BASE["registry"] = registry()

def cases(tier):
  t = tier == "thorough"
  def histories(ops, depth):
    alpha = [(k, 0) for k in ops]
    both = alpha + [(k, 1) for k in ops]
    for first in alpha:   # the slots are symmetric
      for rest in itertools.product(both, repeat=depth - 1): yield [list(first)] + [list(x) for x in rest]
  for h in histories(CMD_OPS, 3): yield ["cmd", h]
  for h in histories(SER_OPS, 4): yield ["ser", h]
  for h in histories(DLL_OPS, 4): yield ["dll", h]
  for n in sorted(VARIANTS):
    ops = list(range(len(VARIANTS[n]))) + ["ser", "str"]
    for h in histories(ops, 3): yield ["obj:" + n, h]
  for n in sorted(VARIANTS):
    for m in sorted(VARIANTS):
      if n != m: yield ["pair", n, m]
  if t:
    for h in histories(CMD_OPS, 4): yield ["cmd", h]
    for h in histories(SER_OPS, 5): yield ["ser", h]
    for h in histories(DLL_OPS, 6): yield ["dll", h]
    for n in sorted(VARIANTS):
      ops = list(range(len(VARIANTS[n]))) + ["ser", "str"]
      if len(ops) < 8:
        for h in histories(ops, 4): yield ["obj:" + n, h]

def run(case, ctx):
  if case[0] == "pair":
    n, m = case[1:]
    for a in range(len(VARIANTS[n])):
      for b in range(len(VARIANTS[m])):
        w = ObjWorld(ctx)
        w.create(n, a, 0)
        w.create(m, b, 1)
        if m not in NOSER: glue.by(w.slots[1][0][2])
        str(w.slots[1][0][2])
        if hasattr(w.slots[1][0][2], "as_dict"): w.slots[1][0][2].as_dict()
        ctx.step(5)
        w.verify([n, a, m, b])
        w.create(n, a, 1)
        w.verify([n, a, m, b, n, a])
        ctx.trace(n, a, m, b)
    ctx.eq(registry(), BASE["registry"], "the system file registry")
    return
  kind, hist = case
  w = {"cmd": CmdWorld, "ser": SerWorld, "dll": DllWorld}[kind](ctx) if ":" not in kind else ObjWorld(ctx, kind[4:])
  done = []
  for op in hist:
    op = tuple(op)
    if not w.enabled(op): return
    done.append(op)
    ctx.guard(lambda: w.do(op), "history %s" % (done,))
    ctx.step()
    w.verify(done)
  ctx.nontrivial.add(repr(case))
  ctx.trace(kind, tuple(done))
