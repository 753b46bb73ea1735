import glue, ref, mc, alphabet
from glue import *
from d7a.dll.foreground_frame_control import ForegroundFrameControl
from d7a.dll.background_frame_control import BackgroundFrameControl
from d7a.dll.background_frame import BackgroundFrame
from d7a.d7atp.control import Control as TpControl
from d7a.d7atp.frame import Frame as TpFrame
from d7a.d7anp.control import Control as NpControl
from d7a.d7anp.frame import Frame as NpFrame
from d7a.dll.foreground_frame import ForegroundFrame
from d7a.alp.action import Action
from d7a.alp.operations.operation import Operation

RULE = "one case per validated field of every class: valid values over the backgrounds, invalid values and wrong types; non-trivial: accepted or rejected field values"
ASSUMPTIONS = ["0 and 1 for booleans and booleans for integers are not asserted; fields without declared domain (LoRaWAN configurations, noise floor elements) are left out",
               "rejections are decided by the real Cerberus validator (jy/fastcerb.py only accelerates acceptance and cross-checks itself)"]

# ---- domains: each has valid values and invalid values
class Int(object):
  def __init__(self, lo, hi): self.lo, self.hi = lo, hi
  def valid(self, tier):
    bits = max(8, len(bin(max(abs(self.lo), self.hi))) - 2)
    if self.hi - self.lo < 300: return list(range(self.lo, self.hi + 1))
    return mc.uniq([v for v in mc.corner_uints(bits) if self.lo <= v <= self.hi] + [self.lo, self.hi, self.hi - 1, self.lo + 1])
  def invalid(self):
    hi, lo = self.hi, self.lo
    ints = [lo - 1, hi + 1, hi + 2, lo - 2, lo - 128, lo - 256, hi + 128, hi + 256, 2 * hi + 2, -hi - 200, hi + 0xFFFF, 1 << 70, -(1 << 70), 1 << 200]
    return mc.uniq([v for v in ints if not lo <= v <= hi]) + \
           [None, "1", "", 1.5, [], [1], {}, ChannelBand.BAND_868]
class IntOrNone(Int):
  def invalid(self): return [v for v in Int.invalid(self) if v is not None]
class Bool(object):
  def valid(self, tier): return [False, True]
  def invalid(self): return [None, 2, -1, "x", "True", [], [True], 1.0]
class En(object):
  def __init__(self, cls): self.cls = cls
  def valid(self, tier): return list(self.cls)
  def invalid(self):
    other = IdType if self.cls is not IdType else NlsMethod
    return [None, 0, 1, "x", list(self.cls)[0].name] + list(other) + [list(self.cls)]
class Obj(object):
  def __init__(self, cls, makers, nullable=False): self.cls, self.makers, self.nullable = cls, makers, nullable
  def valid(self, tier): return [m() for m in self.makers] + ([None] if self.nullable else [])
  def invalid(self):
    others = [o for o in (CT(1, 2), Length(5), NoOperation(), QoS(), SubBand(), Addressee(), FilePermissions()) if not isinstance(o, self.cls)]
    return others + ([] if self.nullable else [None]) + [0, 5, "x", [], [m() for m in self.makers], self.cls]
class Bytes(object):
  def valid(self, tier): return [[], [0], [255], [0, 255, 1], list(range(256)), [255] * 300]
  def invalid(self):
    out = [None, 5, "abc"]
    for bad in (256, -1, None, "a", 1 << 40, 1.5, []):
      for n in (1, 2, 5):
        for i in range(n): out.append([1] * i + [bad] + [2] * (n - 1 - i))
    return out + [[1] * 300 + [256]]
class Lst(object):
  def __init__(self, cls, maker, lo, hi): self.cls, self.maker, self.lo, self.hi = cls, maker, lo, hi
  def valid(self, tier): return [[self.maker() for _ in range(n)] for n in range(self.lo, min(self.hi, 9) + 1)] + [[self.maker() for _ in range(self.hi)]]
  def invalid(self):
    out = [None, 5, "abc"]
    if self.lo: out += [[self.maker() for _ in range(n)] for n in range(self.lo)]
    out += [[self.maker() for _ in range(self.hi + k)] for k in (1, 2, 5)] if self.hi < 1000 else []
    for bad in (None, 5, "a", CT(1, 2), self.cls):
      n = max(self.lo, 3)
      for i in range(n):
        l = [self.maker() for _ in range(n)]
        l[i] = bad
        out.append(l)
    return out
class Str(object):
  def __init__(self, n): self.n = n
  def valid(self, tier): return ["a" * k for k in range(self.n + 1)] + [u"b" * self.n]
  def invalid(self): return [None, 5, ["a"], "a" * (self.n + 1), "a" * (self.n + 2), u"b" * (self.n + 1), "a" * 100]
class Ids(object):
  """the identifier of an addressee of a given type"""
  def __init__(self, t): self.t = t
  def valid(self, tier):
    if self.t == "NBID": return [CT(e, m) for e in range(8) for m in (0, 1, 31)]
    if self.t == "NOID": return [None]
    return Int(0, 0xFFFF if self.t == "VID" else 0xFFFFFFFFFFFFFFFF).valid(tier)
  def invalid(self):
    if self.t == "NBID": return [None, 0, 5, "x", [1], Length(5), Addressee()]
    if self.t == "NOID": return [0, 1, 5, 0xFFFF, "x", CT(1, 2)]
    return Int(0, 0xFFFF if self.t == "VID" else 0xFFFFFFFFFFFFFFFF).invalid() + [CT(1, 2)]

BYTE, U16, U32, U64, S8 = Int(0, 255), Int(0, 0xFFFF), Int(0, 0xFFFFFFFF), Int(0, 0xFFFFFFFFFFFFFFFF), Int(-128, 127)
B = Bool()
bg = mc.backgrounds
hdr = lambda k: (lambda: chan_header(bg(ref.CHAN_HEAD)[k]))
cid = lambda k: (lambda: chan_id(bg(ref.CHAN_ID)[k]))
adr = lambda k: (lambda: addressee(alphabet.addressees("quick", True)[k]))
perm = lambda k: (lambda: permissions(bg(ref.PERM)[k]))
prop = lambda k: (lambda: properties(bg(ref.PROP)[k]))
sp, sb = (lambda: subprofile(bg(ref.SUBPROFILE)[2])), (lambda: subband(bg(ref.SUBBAND)[2]))
prof = lambda: AccessProfile(channel_header=hdr(1)(), sub_profiles=[sp() for _ in range(4)], sub_bands=[sb() for _ in range(8)])
L, O, C = (lambda: Length(70)), (lambda: Offset(id=3, offset=Length(4))), (lambda: CT(3, 4))
csi = lambda: chan_status(bg(ref.CHAN_STATUS)[2])
READ = ("read", False, True, 0x40, 1, 2)
op = lambda: glue.action(READ).operation
act = lambda: glue.action(READ)
st = lambda k: (lambda: status(alphabet.statuses("quick", True)[k]))
stact = lambda: glue.action(("ifstatus", 0xD7, alphabet.statuses("quick", True)[3]))
fh = lambda k: (lambda: file_header(bg(ref.FILE_HEADER)[k]))
query = lambda: ArithQueryParams(True, ArithComparisonType.LESS_THAN)
icf = lambda: InterfaceConfiguration(InterfaceType.SERIAL)
tpc = lambda: TpControl(is_dialog_start=True, has_tl=False, has_te=False, is_ack_requested=False, is_ack_not_void=False,
                        is_ack_record_requested=False, has_agc=False)
tpf = lambda: TpFrame(control=tpc(), dialog_id=1, transaction_id=2, alp_command=Command())
npc = lambda: NpControl(has_no_origin_access_id=True, has_hopping=False, nls_method=NlsMethod.NONE, origin_id_type=IdType.NOID)
npf = lambda: NpFrame(control=npc(), origin_access_class=1, origin_access_id=[], d7atp_frame=tpf())

# class -> (constructor, {argument: (base value or maker, domain)})
T = {
 "CT": (CT, dict(exp=(1, Int(0, 7)), mant=(2, Int(0, 31)))),
 "ChannelHeader": (ChannelHeader, dict(channel_coding=(ChannelCoding.PN9, En(ChannelCoding)), channel_class=(ChannelClass.LORA, En(ChannelClass)), channel_band=(ChannelBand.BAND_433, En(ChannelBand)))),
 "SubBand": (SubBand, dict(channel_index_start=(1, U16), channel_index_end=(2, U16), eirp=(-3, S8), cca=(86, BYTE), duty=(255, BYTE))),
 "ChannelID": (ChannelID, dict(channel_header=(hdr(1), Obj(ChannelHeader, [hdr(0), hdr(2)])), channel_index=(5, U16))),
 "ChannelStatusIdentifier": (ChannelStatusIdentifier, dict(channel_band=(ChannelBand.BAND_868, En(ChannelBand)), channel_bandwidth=(Bandwidth.kHz25, En(Bandwidth)), channel_index=(7, Int(0, 1039)))),
 "SubProfile": (SubProfile, dict(subband_bitmap=(3, BYTE), scan_automation_period=(C, Obj(CT, [C])))),
 "AccessProfile": (AccessProfile, dict(channel_header=(hdr(1), Obj(ChannelHeader, [hdr(0)])), sub_profiles=(lambda: [sp() for _ in range(4)], Lst(SubProfile, sp, 4, 4)), sub_bands=(lambda: [sb() for _ in range(8)], Lst(SubBand, sb, 0, 8)))),
 "ForegroundFrameControl": (ForegroundFrameControl, dict(id_type=(IdType.UID, En(IdType)), eirp_index=(3, Int(0, 63)))),
 "BackgroundFrameControl": (BackgroundFrameControl, dict(id_type=(IdType.UID, En(IdType)), tag=(3, Int(0, 63)))),
 "BackgroundFrame": (BackgroundFrame, dict(subnet=(3, BYTE), control=(lambda: BackgroundFrameControl(IdType.NOID, 1), Obj(BackgroundFrameControl, [lambda: BackgroundFrameControl(IdType.UID, 2)])), payload=(4, U16), crc16=(5, U16))),
 "ForegroundFrame": (ForegroundFrame, dict(length=(20, BYTE), subnet=(3, BYTE), control=(lambda: ForegroundFrameControl(IdType.NOID, 1), Obj(ForegroundFrameControl, [lambda: ForegroundFrameControl(IdType.UID, 2)])), target_address=([], Bytes()), d7anp_frame=(npf, Obj(NpFrame, [npf])), crc16=(5, U16))),
 "NpControl": (NpControl, dict(has_no_origin_access_id=(True, B), has_hopping=(False, B), nls_method=(NlsMethod.NONE, En(NlsMethod)), origin_id_type=(IdType.NOID, En(IdType)))),
 "NpFrame": (NpFrame, dict(control=(npc, Obj(NpControl, [npc])), origin_access_class=(1, BYTE), origin_access_id=([], Bytes()), d7atp_frame=(tpf, Obj(TpFrame, [tpf])))),
 "TpControl": (TpControl, dict((n, (True, B)) for n in ("is_dialog_start", "has_tl", "has_te", "is_ack_requested", "is_ack_not_void", "is_ack_record_requested", "has_agc"))),
 "TpFrame": (TpFrame, dict(control=(tpc, Obj(TpControl, [tpc])), dialog_id=(1, BYTE), transaction_id=(2, BYTE), tl=(None, Obj(CT, [C], True)), te=(C, Obj(CT, [C], True)), tc=(None, Obj(CT, [C], True)), alp_command=(lambda: Command(), Obj(Command, [lambda: Command()])))),
 "TpFrame agc": (TpFrame, dict(control=(tpc, None), dialog_id=(1, None), transaction_id=(2, None), alp_command=(lambda: Command(), None), agc_rx_level_i=(3, IntOrNone(0, 31)))),
 "QoS": (QoS, dict(resp_mod=(ResponseMode.RESP_MODE_ALL, En(ResponseMode)), retry_mod=(RetryMode.RETRY_MODE_NO, En(RetryMode)), stop_on_err=(True, B), record=(False, B))),
 "Configuration": (Configuration, dict(qos=(lambda: QoS(), Obj(QoS, [lambda: qos(bg(ref.QOS)[2])])), dorm_to=(C, Obj(CT, [C])), addressee=(adr(1), Obj(Addressee, [adr(k) for k in range(6)])))),
 "Status": (Status, dict(channel_id=(cid(1), Obj(ChannelID, [cid(2)])), rx_level=(1, BYTE), link_budget=(2, BYTE), target_rx_level=(3, BYTE), nls=(True, B), missed=(False, B), retry=(True, B), unicast=(False, B), fifo_token=(4, BYTE), seq_nr=(5, BYTE), response_to=(C, Obj(CT, [C])), addressee=(adr(1), Obj(Addressee, [adr(k) for k in range(6)])))),
 "Data": (Data, dict(data=([1, 2], Bytes()), offset=(O, Obj(Offset, [O])))),
 "DataRequest": (DataRequest, dict(length=(3, Int(0, 0x3FFFFFFF)), offset=(O, Obj(Offset, [O])))),
 "FileIdOperand": (FileIdOperand, dict(file_id=(3, BYTE))),
 "Length": (Length, dict(value=(3, Int(0, 0x3FFFFFFF)))),
 "Offset": (Offset, dict(id=(3, BYTE), offset=(L, Obj(Length, [L])))),
 "TagId": (TagId, dict(tag_id=(3, BYTE))),
 "ArithQueryParams": (ArithQueryParams, dict(signed_data_type=(True, B), comp_type=(ArithComparisonType.EQUALITY, En(ArithComparisonType)))),
 "QueryOperand": (QueryOperand, dict(type=(QueryType.ARITH_COMP_WITH_VALUE, En(QueryType)), mask_present=(False, B), params=(query, Obj(ArithQueryParams, [query])), compare_length=(L, Obj(Length, [L])), compare_value=([1, 2], Bytes()), file_a_offset=(O, Obj(Offset, [O])))),
 "FileHeaderOperand": (FileHeaderOperand, dict(file_id=(3, BYTE), file_header=(fh(1), Obj(FileHeader, [fh(0), fh(2)])))),
 "InterfaceStatusOperand": (InterfaceStatusOperand, dict(interface_id=(0xD7, BYTE), interface_status=(st(1), Obj(Status, [st(k) for k in range(6)], True)))),
 "IndirectInterfaceOperand": (IndirectInterfaceOperand, dict(interface_file_id=(3, BYTE), interface_configuration_overload=(adr(1), Obj(Addressee, [adr(k) for k in range(6)], True)))),
 "InterfaceConfiguration": (InterfaceConfiguration, dict(interface_id=(InterfaceType.D7ASP, En(InterfaceType)))),
 "RegularAction": (RegularAction, dict(group=(True, B), resp=(False, B), operation=(op, Obj(Operation, [op])))),
 "TagRequestAction": (TagRequestAction, dict(respond_when_completed=(True, B), operation=(lambda: TagRequest(operand=TagId(3)), Obj(Operation, [lambda: TagRequest(operand=TagId(3))])))),
 "TagResponseAction": (TagResponseAction, dict(eop=(True, B), error=(False, B), operation=(lambda: TagResponse(operand=TagId(3)), Obj(Operation, [lambda: TagResponse(operand=TagId(3))])))),
 "ForwardAction": (ForwardAction, dict(resp=(True, B), operation=(lambda: Forward(operand=icf()), Obj(Forward, [lambda: Forward(operand=icf())])))),
 "IndirectForwardAction": (IndirectForwardAction, dict(resp=(True, B), operation=(lambda: IndirectForward(operand=IndirectInterfaceOperand(3)), Obj(IndirectForward, [lambda: IndirectForward(operand=IndirectInterfaceOperand(4))])))),
 "StatusAction": (StatusAction, dict(status_operand_extension=(1, Int(0, 1)), operation=(lambda: stact().operation, Obj(Operation, [lambda: stact().operation])))),
 "Command": (Command, dict(actions=(lambda: [act()], Lst(Action, act, 0, 5000)))),
 "ReadFileData": (ReadFileData, dict(operand=(lambda: DataRequest(3), Obj(DataRequest, [lambda: DataRequest(4)])))),
 "ReadFileHeader": (ReadFileHeader, dict(operand=(lambda: FileIdOperand(3), Obj(FileIdOperand, [lambda: FileIdOperand(4)])))),
 "WriteFileData": (WriteFileData, dict(operand=(lambda: Data([3]), Obj(Data, [lambda: Data([4])])))),
 "WriteFileHeader": (WriteFileHeader, dict(operand=(lambda: FileHeaderOperand(3, fh(1)()), Obj(FileHeaderOperand, [lambda: FileHeaderOperand(4, fh(2)())])))),
 "ReturnFileData": (ReturnFileData, dict(operand=(lambda: Data([3]), Obj(Data, [lambda: Data([4])])))),
 "ReturnFileHeader": (ReturnFileHeader, dict(operand=(lambda: FileHeaderOperand(3, fh(1)()), Obj(FileHeaderOperand, [lambda: FileHeaderOperand(4, fh(2)())])))),
 "CreateNewFile": (CreateNewFile, dict(operand=(lambda: FileHeaderOperand(3, fh(1)()), Obj(FileHeaderOperand, [lambda: FileHeaderOperand(4, fh(2)())])))),
 "TagRequest": (TagRequest, dict(operand=(lambda: TagId(3), Obj(TagId, [lambda: TagId(4)])))),
 "TagResponse": (TagResponse, dict(operand=(lambda: TagId(3), Obj(TagId, [lambda: TagId(4)])))),
 "Forward": (Forward, dict(operand=(icf, Obj(InterfaceConfiguration, [icf])))),
 "IndirectForward": (IndirectForward, dict(operand=(lambda: IndirectInterfaceOperand(3), Obj(IndirectInterfaceOperand, [lambda: IndirectInterfaceOperand(4)])))),
 "UidFile": (UidFile, dict(uid=(3, U64))),
 "VidFile": (VidFile, dict(vid=(3, U16), control=(1, BYTE))),
 "SecurityKeyFile": (SecurityKeyFile, dict(key=(3, Int(0, (1 << 128) - 1)))),
 "RootAuthenticationKeyFile": (RootAuthenticationKeyFile, dict(key=(3, Int(0, (1 << 128) - 1)))),
 "UserAuthenticationKeyFile": (UserAuthenticationKeyFile, dict(key=(3, Int(0, (1 << 128) - 1)))),
 "FirmwareVersionFile": (FirmwareVersionFile, dict(d7a_protocol_version_major=(1, BYTE), d7a_protocol_version_minor=(2, BYTE), filesystem_version_major=(3, BYTE), filesystem_version_minor=(4, BYTE), application_name=("abc", Str(6)), git_sha1=("def", Str(7)))),
 "EngineeringModeFile": (EngineeringModeFile, dict(mode=(EngineeringModeMode.ENGINEERING_MODE_MODE_OFF, En(EngineeringModeMode)), flags=(1, BYTE), timeout=(2, BYTE), channel_id=(cid(1), Obj(ChannelID, [cid(2)])), eirp=(-3, S8))),
 "PhyStatusFile": (PhyStatusFile, dict(up_time=(1, U32), rx_time=(2, U32), tx_time=(3, U32), tx_duty_cycle=(4, Int(0, 1000)))),
 "DllConfigFile": (DllConfigFile, dict((n, (1, BYTE)) for n in ("active_access_class", "lq_filter", "nf_ctrl", "rx_nf_method_parameter", "tx_nf_method_parameter"))),
 "DllStatusFile": (DllStatusFile, dict(last_rx_packet_level=(1, BYTE), last_rx_packet_link_budget=(2, BYTE), noise_floor=(3, BYTE), channel_header=(hdr(1), Obj(ChannelHeader, [hdr(2)])), channel_index=(4, U16), scan_timeout_ratio=(5, U16), scan_count=(6, U32), scan_timeout_count=(7, U32))),
 "AccessProfileFile": (AccessProfileFile, dict(access_specifier=(3, Int(0, 14)), access_profile=(prof, Obj(AccessProfile, [prof], True)))),
 "InterfaceConfigurationFile": (InterfaceConfigurationFile, dict(interface_configuration=((lambda: InterfaceConfiguration(InterfaceType.D7ASP, Configuration())), Obj(InterfaceConfiguration, [lambda: InterfaceConfiguration(InterfaceType.LORAWAN_OTAA)])))),
 "FilePermissions": (FilePermissions, dict((n, (True, B)) for n in ("encrypted", "executeable", "user_readable", "user_writeable", "user_executeable", "guest_readable", "guest_writeable", "guest_executeable"))),
 "FileProperties": (FileProperties, dict(act_enabled=(True, B), act_condition=(ActionCondition.READ, En(ActionCondition)), storage_class=(StorageClass.VOLATILE, En(StorageClass)))),
 "FileHeader": (FileHeader, dict(permissions=(perm(1), Obj(FilePermissions, [perm(0), perm(2)])), properties=(prop(1), Obj(FileProperties, [prop(0), prop(2)])), alp_command_file_id=(1, BYTE), interface_file_id=(2, BYTE), file_size=(3, U32), allocated_size=(4, U32))),
}
for _t, _v in (("NBID", C), ("NOID", None), ("VID", 5), ("UID", 6)):
  T["Addressee " + _t] = (Addressee, dict(access_class=(1, BYTE), id_type=(IdType[_t], None), id=(_v, Ids(_t)), nls_method=(NlsMethod.AES_CTR, En(NlsMethod))))
FS = dict((f[0], (f[3][0] if len(f) > 3 else 7, Int(*f[3]) if len(f) > 3 else S8 if f[1] == "s" else Int(0, (1 << f[2]) - 1))) for f in ref.FACTORY_SETTINGS.fields)
FS["rssi_smoothing"] = (8, None)
T["FactorySettingsFile"] = (FactorySettingsFile, FS)

def cases(tier):
  for n in sorted(T):
    for f in sorted(T[n][1]):
      if T[n][1][f][1] is not None: yield ["field", n, f]
  yield ["types"]
  yield ["smoothing"]

def base(fields):
  return dict((n, v() if callable(v) and not isinstance(v, type) else v) for n, (v, d) in fields.items())

def run(case, ctx):
  if case[0] == "smoothing":
    # number of samples 2^(e+1), e is what fits a byte
    for e in range(0, 25): ctx.eq(FactorySettingsFile(rssi_smoothing=1 << (e + 1)).rssi_smoothing, e, "rssi smoothing")
    for v in (0, -1, None, "x"): ctx.raises(lambda: FactorySettingsFile(rssi_smoothing=v), "rssi smoothing %r" % (v,))
    ctx.trace("smoothing")
    return
  if case[0] == "types":
    # identifiers of another type
    vals = {"NBID": CT(1, 2), "NOID": None, "VID": 5, "UID": 0x12345}
    for t in vals:
      for u in vals:
        ok = t == u or (t == "UID" and u == "VID")
        f = lambda: Addressee(id_type=IdType[t], id=vals[u], access_class=1)
        ctx.step()
        if ok: ctx.guard(f, "%s id for %s" % (u, t))
        else: ctx.raises(f, "%s id for %s" % (u, t), ValueError)
        ctx.trace(t, u)
    for n in range(0, 12):   # PHY status: the lists
      for bad in range(n):
        l = [csi() for _ in range(n)]
        l[bad] = 5
        ctx.raises(lambda: PhyStatusFile(channel_status_list_length=n, channel_status_identifier=l, channel_noise_floor=[1] * n), "PHY status channel", ValueError)
      ctx.guard(lambda: PhyStatusFile(channel_status_list_length=n, channel_status_identifier=[csi() for _ in range(n)], channel_noise_floor=[1] * n), "PHY status channels")
      ctx.step(n + 1)
    return
  n, f = case[1:]
  cls, fields = T[n]
  dom = fields[f][1]
  for v in dom.valid("quick"):
    kw = base(fields)
    kw[f] = v
    ctx.step()
    o = ctx.guard(lambda: cls(**kw), "%s with valid %s=%s" % (n, f, mc.short(v, 80)))
    ctx.trace(n, f, repr(v)[:80] if not isinstance(v, (list, glue.Enum)) and not hasattr(v, "SCHEMA") else str(type(v)))
    ctx.nontrivial.add((n, f, repr(v)[:60] if isinstance(v, (int, long, str, bool)) else ""))
  for v in dom.invalid():
    kw = base(fields)
    kw[f] = v
    ctx.step()
    ctx.tick()
    ctx.raises(lambda: cls(**kw), "%s with invalid %s=%s" % (n, f, mc.short(v, 80)))
    ctx.trace(n, f, "invalid", mc.short(v, 60) if isinstance(v, (int, long, str, float)) or v is None else str(type(v)))
