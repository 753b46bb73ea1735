"""Between the values of ref.py and the objects of pyd7a: only public constructors, parsers and attributes."""
import fastcerb
fastcerb.install()
import ref
from bitstring import ConstBitStream, ReadError
from enum import Enum

from d7a.types.ct import CT
from d7a.sp.qos import QoS, ResponseMode, RetryMode
from d7a.sp.configuration import Configuration
from d7a.sp.status import Status
from d7a.d7anp.addressee import Addressee, IdType, NlsMethod
from d7a.phy.channel_header import ChannelHeader, ChannelCoding, ChannelClass, ChannelBand
from d7a.phy.channel_id import ChannelID
from d7a.phy.channel_status_identifier import ChannelStatusIdentifier, Bandwidth
from d7a.phy.subband import SubBand
from d7a.dll.sub_profile import SubProfile
from d7a.dll.access_profile import AccessProfile
from d7a.fs.file_header import FileHeader
from d7a.fs.file_permissions import FilePermissions
from d7a.fs.file_properties import FileProperties, ActionCondition, StorageClass
from d7a.alp.interface import InterfaceType
from d7a.alp.command import Command
from d7a.alp.parser import Parser as AlpParser
from d7a.alp.regular_action import RegularAction
from d7a.alp.status_action import StatusAction, StatusActionOperandExtensions
from d7a.alp.tag_request_action import TagRequestAction
from d7a.alp.tag_response_action import TagResponseAction
from d7a.alp.forward_action import ForwardAction
from d7a.alp.indirect_forward_action import IndirectForwardAction
from d7a.alp.operations.requests import ReadFileData, ReadFileHeader
from d7a.alp.operations.responses import ReturnFileData, ReturnFileHeader
from d7a.alp.operations.write_operations import WriteFileData, WriteFileHeader
from d7a.alp.operations.file_management import CreateNewFile
from d7a.alp.operations.break_query import BreakQuery
from d7a.alp.operations.forward import Forward
from d7a.alp.operations.indirect_forward import IndirectForward
from d7a.alp.operations.status import InterfaceStatus
from d7a.alp.operations.tag_request import TagRequest
from d7a.alp.operations.tag_response import TagResponse
from d7a.alp.operations.nop import NoOperation
from d7a.alp.operands.length import Length
from d7a.alp.operands.offset import Offset
from d7a.alp.operands.file import Data, DataRequest, FileIdOperand
from d7a.alp.operands.file_header import FileHeaderOperand
from d7a.alp.operands.query import QueryOperand, QueryType, ArithQueryParams, ArithComparisonType
from d7a.alp.operands.interface_configuration import InterfaceConfiguration
from d7a.alp.operands.interface_status import InterfaceStatusOperand
from d7a.alp.operands.indirect_interface_operand import IndirectInterfaceOperand
from d7a.alp.operands.lorawan_interface_configuration_abp import LoRaWANInterfaceConfigurationABP
from d7a.alp.operands.lorawan_interface_configuration_otaa import LoRaWANInterfaceConfigurationOTAA
from d7a.alp.operands.tag_id import TagId
from d7a.system_files.system_file_ids import SystemFileIds
from d7a.system_files.system_files import SystemFiles
from d7a.system_files.uid import UidFile
from d7a.system_files.factory_settings import FactorySettingsFile
from d7a.system_files.firmware_version import FirmwareVersionFile
from d7a.system_files.engineering_mode import EngineeringModeFile, EngineeringModeMode
from d7a.system_files.vid import VidFile
from d7a.system_files.phy_status import PhyStatusFile
from d7a.system_files.dll_config import DllConfigFile
from d7a.system_files.dll_status import DllStatusFile
from d7a.system_files.security_key import SecurityKeyFile
from d7a.system_files.root_authentication_key import RootAuthenticationKeyFile
from d7a.system_files.user_authentication_key import UserAuthenticationKeyFile
from d7a.system_files.access_profile import AccessProfileFile
from d7a.system_files.not_implemented import NotImplementedFile
from d7a.system_files.interface_configuration import InterfaceConfigurationFile
from d7a.parse_error import ParseError

def stream(bs): return ConstBitStream(bytes=bytearray(bs))

def by(obj):
  """the bytes an object serializes to"""
  return list(bytearray(obj))

def pure(v):
  """a plain value: enum members by name, CT as tuple"""
  if isinstance(v, Enum): return v.name
  if isinstance(v, CT): return (v.exp, v.mant)
  if isinstance(v, Length): return v.value
  if isinstance(v, bool): return v
  return v

# ------------------------------------------------------------------- construct

def ct(t): return CT(exp=t[0], mant=t[1])
def addressee(a):
  i = a["id"]
  return Addressee(access_class=a["access_class"], id_type=IdType[a["id_type"]],
                   id=ct(i) if a["id_type"] == "NBID" else i, nls_method=NlsMethod[a["nls_method"]])
def qos(q): return QoS(resp_mod=ResponseMode[q["resp_mod"]], retry_mod=RetryMode[q["retry_mod"]],
                       stop_on_err=q["stop_on_err"], record=q["record"])
def config(c): return Configuration(qos=qos(c["qos"]), dorm_to=ct(c["dorm_to"]), addressee=addressee(c["addressee"]))
def chan_header(h): return ChannelHeader(channel_coding=ChannelCoding[h["channel_coding"]],
                    channel_class=ChannelClass[h["channel_class"]], channel_band=ChannelBand[h["channel_band"]])
def chan_id(h): return ChannelID(channel_header=chan_header(h), channel_index=h["channel_index"])
def status(s): return Status(channel_id=chan_id(s), rx_level=s["rx_level"], link_budget=s["link_budget"],
                target_rx_level=s["target_rx_level"], nls=s["nls"], missed=s["missed"], retry=s["retry"],
                unicast=s["unicast"], fifo_token=s["fifo_token"], seq_nr=s["seq_nr"],
                response_to=CT(exp=s["exp"], mant=s["mant"]), addressee=addressee(s["addressee"]))
def permissions(h): return FilePermissions(encrypted=h["encrypted"], executeable=h["executable"],
                user_readable=h["user_readable"], user_writeable=h["user_writeable"],
                user_executeable=h["user_executeable"], guest_readable=h["guest_readable"],
                guest_writeable=h["guest_writeable"], guest_executeable=h["guest_executeable"])
def properties(h): return FileProperties(act_enabled=h["act_enabled"], act_condition=ActionCondition[h["act_condition"]],
                storage_class=StorageClass[h["storage_class"]])
def file_header(h): return FileHeader(permissions=permissions(h), properties=properties(h),
                alp_command_file_id=h["alp_command_file_id"], interface_file_id=h["interface_file_id"],
                file_size=h["file_size"], allocated_size=h["allocated_size"])
def chan_status(c): return ChannelStatusIdentifier(channel_band=ChannelBand[c["channel_band"]],
                channel_bandwidth=Bandwidth[c["channel_bandwidth"]], channel_index=c["channel_index"])
def subband(b): return SubBand(channel_index_start=b["channel_index_start"], channel_index_end=b["channel_index_end"],
                eirp=b["eirp"], cca=b["cca"], duty=b["duty"])
def subprofile(p): return SubProfile(subband_bitmap=p["subband_bitmap"],
                scan_automation_period=CT(exp=p["exp"], mant=p["mant"]))
def access_profile(p): return AccessProfile(channel_header=chan_header(p["channel_header"]),
                sub_profiles=[subprofile(x) for x in p["sub_profiles"]], sub_bands=[subband(x) for x in p["sub_bands"]])
def abp(c): return LoRaWANInterfaceConfigurationABP(adr_enabled=c["adr_enabled"], request_ack=c["request_ack"],
                app_port=c["app_port"], data_rate=c["data_rate"], dev_addr=c["dev_addr"], netw_id=c["netw_id"])
def otaa(c): return LoRaWANInterfaceConfigurationOTAA(adr_enabled=c["adr_enabled"], request_ack=c["request_ack"],
                app_port=c["app_port"], data_rate=c["data_rate"])
def iface_config(name, c):
  return {"D7ASP": config, "LORAWAN_ABP": abp, "LORAWAN_OTAA": otaa}[name](c) if c is not None else None

def dec_header(h, fields=("channel_band", "channel_class", "channel_coding")):
  return dict((k, pure(getattr(h, k))) for k in fields)

def action(a):
  """an Action object for an action tuple of ref.py"""
  k = a[0]
  off = lambda f, o: Offset(id=f, offset=Length(o))
  if k == "read": return RegularAction(group=a[1], resp=a[2], operation=ReadFileData(
      operand=DataRequest(length=a[5], offset=off(a[3], a[4]))))
  if k == "readheader": return RegularAction(group=a[1], resp=a[2], operation=ReadFileHeader(operand=FileIdOperand(file_id=a[3])))
  if k == "write": return RegularAction(group=a[1], resp=a[2], operation=WriteFileData(
      operand=Data(data=list(a[5]), offset=off(a[3], a[4]))))
  if k == "return": return RegularAction(group=a[1], resp=a[2], operation=ReturnFileData(
      operand=Data(data=list(a[5]), offset=off(a[3], a[4]))))
  if k in ("writeheader", "create", "returnheader"):
    op = {"writeheader": WriteFileHeader, "create": CreateNewFile, "returnheader": ReturnFileHeader}[k]
    return RegularAction(group=a[1], resp=a[2], operation=op(operand=FileHeaderOperand(file_id=a[3], file_header=file_header(a[4]))))
  if k == "query": return RegularAction(group=a[1], resp=a[2], operation=BreakQuery(operand=QueryOperand(
      type=QueryType.ARITH_COMP_WITH_VALUE, mask_present=False,
      params=ArithQueryParams(signed_data_type=a[3], comp_type=ArithComparisonType[a[4]]),
      compare_length=Length(len(a[5])), compare_value=list(a[5]), file_a_offset=off(a[6], a[7]))))
  if k == "ifstatus": return StatusAction(status_operand_extension=StatusActionOperandExtensions.INTERFACE_STATUS,
      operation=InterfaceStatus(operand=InterfaceStatusOperand(interface_id=a[1],
                                interface_status=status(a[2]) if a[2] is not None else None)))
  if k == "tagresp": return TagResponseAction(eop=a[1], error=a[2], operation=TagResponse(operand=TagId(tag_id=a[3])))
  if k == "tagreq": return TagRequestAction(respond_when_completed=a[1], operation=TagRequest(operand=TagId(tag_id=a[2])))
  if k == "forward": return ForwardAction(resp=a[1], operation=Forward(operand=InterfaceConfiguration(
      interface_id=InterfaceType[a[2]], interface_configuration=iface_config(a[2], a[3]))))
  if k == "iforward": return IndirectForwardAction(overload=a[1], resp=a[2], operation=IndirectForward(
      operand=IndirectInterfaceOperand(interface_file_id=a[3],
        interface_configuration_overload=addressee(a[4]) if a[4] is not None else None)))
  raise AssertionError(k)

# ------------------------------------------------------------------- read back

def r_addressee(o):
  return {"id_type": o.id_type.name, "nls_method": o.nls_method.name, "access_class": o.access_class, "id": pure(o.id)}
def r_qos(o):
  return {"stop_on_err": o.stop_on_err, "record": o.record, "retry_mod": o.retry_mod.name, "resp_mod": o.resp_mod.name}
def r_config(o):
  return {"qos": r_qos(o.qos), "dorm_to": pure(o.dorm_to), "addressee": r_addressee(o.addressee)}
def r_chan_header(o): return dec_header(o)
def r_chan_id(o):
  d = dec_header(o.channel_header)
  d["channel_index"] = o.channel_index
  return d
def r_status(o):
  d = r_chan_id(o.channel_id)
  for k in ("rx_level", "link_budget", "target_rx_level", "nls", "missed", "retry", "unicast", "fifo_token", "seq_nr"):
    d[k] = getattr(o, k)
  d["exp"], d["mant"] = o.response_to.exp, o.response_to.mant
  d["addressee"] = r_addressee(o.addressee)
  return d
def r_fields(o, names): return dict((n, pure(getattr(o, n))) for n in names)
def r_permissions(o): return r_fields(o, ref.PERM.names())
def r_properties(o): return r_fields(o, ref.PROP.names())
def r_file_header(o):
  d = r_permissions(o.permissions)
  d.update(r_properties(o.properties))
  d.update(r_fields(o, ("alp_command_file_id", "interface_file_id", "file_size", "allocated_size")))
  return d
def r_subprofile(o): return {"subband_bitmap": o.subband_bitmap, "exp": o.scan_automation_period.exp,
                             "mant": o.scan_automation_period.mant}
def r_subband(o): return r_fields(o, ref.SUBBAND.names())
def r_access_profile(o): return {"channel_header": r_chan_header(o.channel_header),
   "sub_profiles": [r_subprofile(x) for x in o.sub_profiles], "sub_bands": [r_subband(x) for x in o.sub_bands]}
def r_iface_config(name, o):
  if o is None: return None
  if name == "D7ASP": return r_config(o)
  return r_fields(o, (ref.LORAWAN_ABP if name == "LORAWAN_ABP" else ref.LORAWAN_OTAA).names())

KIND = {ReadFileData: "read", ReadFileHeader: "readheader", WriteFileData: "write", WriteFileHeader: "writeheader",
        BreakQuery: "query", CreateNewFile: "create", ReturnFileData: "return", ReturnFileHeader: "returnheader",
        InterfaceStatus: "ifstatus", TagResponse: "tagresp", Forward: "forward", IndirectForward: "iforward",
        TagRequest: "tagreq"}

def r_action(o):
  op, x = o.operation, o.operand
  k = KIND[type(op)]
  if k == "read": return ("read", o.group, o.resp, x.offset.id, x.offset.offset.value, x.length.value)
  if k == "readheader": return ("readheader", o.group, o.resp, x.file_id)
  if k in ("write", "return"):
    d = list(x.data)
    if x.length.value != len(d): raise AssertionError("length %s for %d bytes" % (x.length.value, len(d)))
    return (k, o.group, o.resp, x.offset.id, x.offset.offset.value, d)
  if k in ("writeheader", "create", "returnheader"):
    return (k, o.group, o.resp, x.file_id, r_file_header(x.file_header))
  if k == "query":
    if x.type != QueryType.ARITH_COMP_WITH_VALUE or x.mask_present or x.compare_length.value != len(x.compare_value):
      raise AssertionError("query operand %s %s %s" % (x.type, x.mask_present, x.compare_length))
    return ("query", o.group, o.resp, x.params.signed_data_type, x.params.comp_type.name, list(x.compare_value),
            x.file_a_offset.id, x.file_a_offset.offset.value)
  if k == "ifstatus":
    return ("ifstatus", x.interface_id, r_status(x.interface_status) if x.interface_status is not None else None)
  if k == "tagresp": return ("tagresp", o.eop, o.error, x.tag_id)
  if k == "tagreq": return ("tagreq", o.respond_when_completed, x.tag_id)
  if k == "forward":
    return ("forward", o.resp, x.interface_id.name, r_iface_config(x.interface_id.name, x.interface_configuration))
  if k == "iforward":
    c = x.interface_configuration_overload
    return ("iforward", o.overload, o.resp, x.interface_file_id, r_addressee(c) if c is not None else None)

def parse_alp(bs, tail=()):
  """(command, number of bytes consumed)"""
  s = stream(list(bs) + list(tail))
  cmd = AlpParser().parse(s, len(bs))
  if s.pos % 8: raise AssertionError("stream left at bit %d" % s.pos)
  return cmd, s.pos // 8

def model_of(cmd):
  """of a decoded command, in the form of ref.command_model"""
  return {"tag": cmd.tag_id, "status": r_action(cmd.interface_status) if cmd.interface_status is not None else None,
          "actions": [r_action(a) for a in cmd.actions], "completed": cmd.execution_completed}

def norm(v):
  """json round trip form: tuples as lists"""
  if isinstance(v, (tuple, list)): return [norm(x) for x in v]
  if isinstance(v, dict): return dict((str(k), norm(x)) for k, x in v.items())
  if isinstance(v, unicode): return str(v)
  if isinstance(v, long) and -(1 << 31) <= v < (1 << 31): return int(v)
  return v

def tup(v):
  """an action tuple that went through json"""
  a = [norm(x) for x in v]
  return tuple(a)

# ------------------------------------------------------------------- system files

def _plain(cls, layout):
  names = layout.names()
  return (lambda v: cls(**dict((n, v[n]) for n in names)), lambda o: r_fields(o, names))

def _factory(v):
  # the constructor takes a number of samples, the file holds an exponent: 2^(e+1) samples
  kw = dict(v)
  kw["rssi_smoothing"] = 1 << (v["rssi_smoothing"] + 1)
  return FactorySettingsFile(**kw)

def _eng(v): return EngineeringModeFile(mode=EngineeringModeMode[v["mode"]], flags=v["flags"], timeout=v["timeout"],
                                        channel_id=chan_id(v), eirp=v["eirp"])
def _r_eng(o):
  d = r_chan_id(o.channel_id)
  d.update({"mode": o.mode.name, "flags": o.flags, "timeout": o.timeout, "eirp": o.eirp})
  return d
def _dll_status(v):
  kw = dict((k, x) for k, x in v.items() if k not in ("channel_band", "channel_class", "channel_coding"))
  return DllStatusFile(channel_header=chan_header(v), **kw)
def _r_dll_status(o):
  d = r_chan_header(o.channel_header)
  d.update(r_fields(o, [n for n in ref.DLL_STATUS.names() if n not in d]))
  return d
def _phy(v): return PhyStatusFile(up_time=v["up_time"], rx_time=v["rx_time"], tx_time=v["tx_time"],
    tx_duty_cycle=v["tx_duty_cycle"], channel_status_list_length=len(v["channels"]),
    channel_status_identifier=[chan_status(c) for c, _ in v["channels"]],
    channel_noise_floor=[f for _, f in v["channels"]])
def _r_phy(o):
  d = r_fields(o, ("up_time", "rx_time", "tx_time", "tx_duty_cycle"))
  if o.channel_status_list_length != len(o.channel_status_identifier) or len(o.channel_noise_floor) != o.channel_status_list_length:
    raise AssertionError("list lengths %s" % o)
  d["channels"] = [(r_fields(c, ref.CHAN_STATUS.names()), f) for c, f in zip(o.channel_status_identifier, o.channel_noise_floor)]
  return d
def _fw(v): return FirmwareVersionFile(**v)
def _r_fw(o):
  d = r_fields(o, ref.FIRMWARE.names())
  d["application_name"], d["git_sha1"] = str(d["application_name"]), str(d["git_sha1"])
  return d

FILES = {  # name -> class, build(values), read(object)
  "UID": (UidFile,) + _plain(UidFile, ref.UID_FILE),
  "FACTORY_SETTINGS": (FactorySettingsFile, _factory, lambda o: r_fields(o, ref.FACTORY_SETTINGS.names())),
  "FIRMWARE_VERSION": (FirmwareVersionFile, _fw, _r_fw),
  "ENGINEERING_MODE": (EngineeringModeFile, _eng, _r_eng),
  "VID": (VidFile,) + _plain(VidFile, ref.VID_FILE),
  "PHY_STATUS": (PhyStatusFile, _phy, _r_phy),
  "DLL_CONFIG": (DllConfigFile,) + _plain(DllConfigFile, ref.DLL_CONFIG),
  "DLL_STATUS": (DllStatusFile, _dll_status, _r_dll_status),
  "NWL_SECURITY_KEY": (SecurityKeyFile,) + _plain(SecurityKeyFile, ref.SECURITY_KEY),
  "ALP_ROOT_AUTHENTICATION_KEY": (RootAuthenticationKeyFile,) + _plain(RootAuthenticationKeyFile, ref.SECURITY_KEY),
  "ALP_USER_AUTHENTICATION_KEY": (UserAuthenticationKeyFile,) + _plain(UserAuthenticationKeyFile, ref.SECURITY_KEY),
  "ACCESS_PROFILE": (AccessProfileFile, lambda v: AccessProfileFile(access_specifier=0, access_profile=access_profile(v)),
                     lambda o: r_access_profile(o.access_profile)),
}

def file_entry(name): return FILES.get("ACCESS_PROFILE" if name.startswith("ACCESS_PROFILE") else name)
