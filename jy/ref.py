"""Reference model of the D7A encodings, written from the protocol layout.  Imports nothing from pyd7a.

Values are plain ints, bools, strings (enum member names), lists of ints (raw bytes), None, tuples and dicts.
decode functions take (bytes, pos) and return (value, pos); they raise Short when bytes are missing and
Bad when the bytes are not a valid/supported encoding.
"""

class Short(Exception): pass
class Bad(Exception): pass
class Unspecified(Exception): pass   # an interface status whose length byte disagrees with its content

def take(b, pos, n):
  if pos + n > len(b): raise Short()
  return b[pos:pos + n], pos + n

def be(n, width):
  return [(n >> (8 * (width - 1 - i))) & 0xFF for i in range(width)]

def from_be(bs):
  v = 0
  for x in bs: v = (v << 8) | x
  return v

def crc16(bs):
  """CRC-16/CCITT-FALSE: polynomial 0x1021, initial value 0xFFFF, bit by bit."""
  crc = 0xFFFF
  for x in bs:
    crc ^= x << 8
    for _ in range(8):
      if crc & 0x8000: crc = ((crc << 1) ^ 0x1021) & 0xFFFF
      else: crc = (crc << 1) & 0xFFFF
  return crc

# ---------------------------------------------------------------- length

def length_bytes(v, size=None):
  """size 1..4: number of bytes used; default the shortest"""
  if size is None:
    size = 1
    while v >= 1 << (8 * size - 2): size += 1
  assert v < 1 << (8 * size - 2)
  return be(v | ((size - 1) << (8 * size - 2)), size)

def dec_length(b, pos):
  if pos >= len(b): raise Short()
  size = (b[pos] >> 6) + 1
  raw, pos = take(b, pos, size)
  return from_be(raw) & ((1 << (8 * size - 2)) - 1), pos

# ---------------------------------------------------------------- bit layouts
# a layout is a list of (name, kind, bits[, extra]); kinds: u s bool enum rfu raw(le int) bytes

class Layout(object):
  def __init__(self, *fields):
    self.fields = fields
    self.bits = sum(f[2] for f in fields)
    assert self.bits % 8 == 0
    self.size = self.bits // 8

  def names(self): return [f[0] for f in self.fields if f[1] != "rfu"]

  def encode(self, values):
    acc = 0
    for f in self.fields:
      name, kind, bits = f[:3]
      if kind == "rfu": v = 0
      elif kind == "enum":
        v = dict((n, k) for k, n in f[3].items())[values[name]]
      elif kind == "bool": v = 1 if values[name] else 0
      elif kind == "le": v = from_be(list(reversed(be(values[name], bits // 8))))
      elif kind == "bytes": v = from_be(values[name])
      else: v = values[name]
      acc = (acc << bits) | (v & ((1 << bits) - 1))
    return be(acc, self.size)

  def decode(self, b, pos=0):
    raw, pos = take(b, pos, self.size)
    acc = from_be(raw)
    left = self.bits
    out = {}
    for f in self.fields:
      name, kind, bits = f[:3]
      left -= bits
      v = (acc >> left) & ((1 << bits) - 1)
      if kind == "rfu": continue
      if kind == "s" and v >> (bits - 1): v -= 1 << bits
      if kind == "bool": v = bool(v)
      if kind == "enum":
        if v not in f[3]: raise Bad("%s=%d" % (name, v))
        v = f[3][v]
      if kind == "le": v = from_be(list(reversed(be(v, bits // 8))))
      if kind == "bytes": v = be(v, bits // 8)
      if kind == "u" and len(f) > 3 and not (f[3][0] <= v <= f[3][1]): raise Bad("%s=%d" % (name, v))
      if kind == "s" and len(f) > 3 and not (f[3][0] <= v <= f[3][1]): raise Bad("%s=%d" % (name, v))
      out[name] = v
    return out, pos

def u(name, bits, lo=None, hi=None):
  return (name, "u", bits) if hi is None else (name, "u", bits, (lo, hi))
def s(name, bits, lo=None, hi=None):
  return (name, "s", bits) if hi is None else (name, "s", bits, (lo, hi))
def fl(name): return (name, "bool", 1)
def en(name, bits, members): return (name, "enum", bits, members)
def rfu(bits): return ("_", "rfu", bits)

ID_TYPE = {0: "NBID", 1: "NOID", 2: "UID", 3: "VID"}
NLS = {0: "NONE", 1: "AES_CTR", 2: "AES_CBC_MAC_128", 3: "AES_CBC_MAC_64", 4: "AES_CBC_MAC_32",
       5: "AES_CCM_128", 6: "AES_CCM_64", 7: "AES_CCM_32"}
RESP_MODE = {0: "RESP_MODE_NO", 1: "RESP_MODE_ALL", 2: "RESP_MODE_ANY", 4: "RESP_MODE_NO_RPT",
             5: "RESP_MODE_ON_ERROR", 6: "RESP_MODE_PREFERRED"}
RETRY_MODE = {0: "RETRY_MODE_NO"}
CODING = {0: "PN9", 1: "RFU", 2: "FEC_PN9", 3: "CW"}
CLASS = {0: "LO_RATE", 1: "LORA", 2: "NORMAL_RATE", 3: "HI_RATE"}
BAND = {0: "NOT_IMPL", 2: "BAND_433", 3: "BAND_868", 4: "BAND_915"}
BANDWIDTH = {0: "kHz200", 1: "kHz25"}
ACT_COND = {0: "LIST", 1: "READ", 2: "WRITE", 3: "WRITE_FLUSH"}
STORAGE = {0: "TRANSIENT", 1: "VOLATILE", 2: "RESTORABLE", 3: "PERMANENT"}
COMP = {0: "INEQUALITY", 1: "EQUALITY", 2: "LESS_THAN", 3: "LESS_THAN_OR_EQUAL_TO", 4: "GREATER_THAN",
        5: "GREATER_THAN_OR_EQUAL_TO"}
ENG_MODE = {0: "ENGINEERING_MODE_MODE_OFF", 1: "ENGINEERING_MODE_MODE_CONT_TX",
            2: "ENGINEERING_MODE_MODE_TRANSIENT_TX", 3: "ENGINEERING_MODE_MODE_PER_RX",
            4: "ENGINEERING_MODE_MODE_PER_TX"}
IFACE = {0: "HOST", 1: "SERIAL", 2: "LORAWAN_ABP", 3: "LORAWAN_OTAA", 0xD7: "D7ASP"}
CODE = lambda table, name: [k for k, n in table.items() if n == name][0]

QOS = Layout(fl("stop_on_err"), fl("record"), en("retry_mod", 3, RETRY_MODE), en("resp_mod", 3, RESP_MODE))
CT_ = Layout(u("exp", 3), u("mant", 5))
ADDR_HEAD = Layout(rfu(2), en("id_type", 2, ID_TYPE), en("nls_method", 4, NLS), u("access_class", 8))
CHAN_HEAD_FIELDS = [rfu(1), en("channel_band", 3, BAND), en("channel_class", 2, CLASS), en("channel_coding", 2, CODING)]
CHAN_HEAD = Layout(*CHAN_HEAD_FIELDS)
CHAN_ID = Layout(*(CHAN_HEAD_FIELDS + [u("channel_index", 16)]))
SUBBAND = Layout(u("channel_index_start", 16), u("channel_index_end", 16), s("eirp", 8), u("cca", 8), u("duty", 8))
SUBPROFILE = Layout(u("subband_bitmap", 8), u("exp", 3), u("mant", 5))
CHAN_STATUS = Layout(en("channel_band", 3, BAND), en("channel_bandwidth", 1, BANDWIDTH), rfu(1), u("channel_index", 11, 0, 1039))
PERM_FIELDS = [fl(n) for n in ("encrypted", "executable", "user_readable", "user_writeable", "user_executeable",
                               "guest_readable", "guest_writeable", "guest_executeable")]
PERM = Layout(*PERM_FIELDS)
PROP_FIELDS = [fl("act_enabled"), en("act_condition", 3, ACT_COND), rfu(2), en("storage_class", 2, STORAGE)]
PROP = Layout(*PROP_FIELDS)
FILE_HEADER = Layout(*(PERM_FIELDS + PROP_FIELDS + [u("alp_command_file_id", 8), u("interface_file_id", 8),
                                                     u("file_size", 32), u("allocated_size", 32)]))
STATUS_HEAD = Layout(*(CHAN_HEAD_FIELDS + [u("channel_index", 16), u("rx_level", 8), u("link_budget", 8),
                     u("target_rx_level", 8), fl("nls"), fl("missed"), fl("retry"), fl("unicast"), rfu(4),
                     u("fifo_token", 8), u("seq_nr", 8), u("exp", 3), u("mant", 5)]))
LORAWAN_OTAA = Layout(rfu(5), fl("adr_enabled"), fl("request_ack"), rfu(1), u("app_port", 8), u("data_rate", 8))
LORAWAN_ABP = Layout(rfu(5), fl("adr_enabled"), fl("request_ack"), rfu(1), u("app_port", 8), u("data_rate", 8),
                     u("dev_addr", 32), u("netw_id", 32))

# system files
UID_FILE = Layout(u("uid", 64))
FACTORY_SETTINGS = Layout(*([s("gain", 8)] + [u(n, 32) for n in (
  "rx_bw_low_rate", "rx_bw_normal_rate", "rx_bw_high_rate", "bitrate_lo_rate", "fdev_lo_rate",
  "bitrate_normal_rate", "fdev_normal_rate", "bitrate_hi_rate", "fdev_hi_rate")] + [u(n, 8) for n in (
  "preamble_size_lo_rate", "preamble_size_normal_rate", "preamble_size_hi_rate", "preamble_detector_size_lo_rate",
  "preamble_detector_size_normal_rate", "preamble_detector_size_hi_rate", "preamble_tol_lo_rate",
  "preamble_tol_normal_rate", "preamble_tol_hi_rate", "rssi_smoothing")] + [
  s("rssi_offset", 8, -126, 125), u("lora_bw", 32), u("lora_SF", 8, 6, 12), u("gaussian", 8, 0, 3), u("paramp", 16)]))
FIRMWARE = Layout(u("d7a_protocol_version_major", 8), u("d7a_protocol_version_minor", 8),
                  u("filesystem_version_major", 8), u("filesystem_version_minor", 8),
                  ("application_name", "bytes", 48), ("git_sha1", "bytes", 56))
ENGINEERING = Layout(*([en("mode", 8, ENG_MODE), u("flags", 8), u("timeout", 8)] + CHAN_HEAD_FIELDS +
                       [u("channel_index", 16), s("eirp", 8), rfu(16)]))
VID_FILE = Layout(u("vid", 16), u("control", 8))
DLL_CONFIG = Layout(u("active_access_class", 8), rfu(16), u("lq_filter", 8), u("nf_ctrl", 8),
                    u("rx_nf_method_parameter", 8), u("tx_nf_method_parameter", 8))
DLL_STATUS = Layout(*([u("last_rx_packet_level", 8), u("last_rx_packet_link_budget", 8), u("noise_floor", 8)] +
                      CHAN_HEAD_FIELDS + [u("channel_index", 16), u("scan_timeout_ratio", 16),
                      u("scan_count", 32), u("scan_timeout_count", 32)]))
SECURITY_KEY = Layout(("key", "le", 128))
AUTH_KEY = Layout(("key", "le", 128), rfu(192))
PHY_STATUS_HEAD = Layout(u("up_time", 32), u("rx_time", 32), u("tx_time", 32), u("tx_duty_cycle", 16, 0, 1000),
                         u("channel_status_list_length", 8))

SYSTEM_FILES = [  # id, name, length
  (0x00, "UID", 8), (0x01, "FACTORY_SETTINGS", 56), (0x02, "FIRMWARE_VERSION", 17), (0x03, "DEVICE_CAPACITY", 19),
  (0x04, "DEVICE_STATUS", 9), (0x05, "ENGINEERING_MODE", 9), (0x06, "VID", 3), (0x07, "RFU_07", 0),
  (0x08, "PHY_CONFIG", 9), (0x09, "PHY_STATUS", 45), (0x0A, "DLL_CONFIG", 7), (0x0B, "DLL_STATUS", 16),
  (0x0C, "NWL_ROUTING", 1), (0x0D, "NWL_SECURITY", 5), (0x0E, "NWL_SECURITY_KEY", 16), (0x0F, "NWL_SSR", 4),
  (0x10, "NWL_STATUS", 20), (0x11, "TRL_STATUS", 1), (0x12, "SEL_CONFIG", 6), (0x13, "FOF_STATUS", 10),
  (0x14, "RFU_14", 0), (0x15, "RFU_15", 0), (0x16, "RFU_16", 0), (0x17, "LOCATION_DATA", 1),
  (0x18, "ALP_ROOT_AUTHENTICATION_KEY", 40), (0x19, "ALP_USER_AUTHENTICATION_KEY", 40),
  (0x1A, "D7AALP_RFU_1A", 0), (0x1B, "D7AALP_RFU_1B", 0), (0x1C, "D7AALP_RFU_1C", 0), (0x1D, "D7AALP_RFU_1D", 0),
  (0x1E, "D7AALP_RFU_1E", 0), (0x1F, "D7AALP_RFU_1F", 0)] + [
  (0x20 + i, "ACCESS_PROFILE_%d" % i, 65) for i in range(15)]

# ---------------------------------------------------------------- composite structures

def enc_addressee(a):
  out = ADDR_HEAD.encode(a)
  t = a["id_type"]
  if t == "NBID": out += [(a["id"][0] << 5) | a["id"][1]]
  elif t == "UID": out += be(a["id"], 8)
  elif t == "VID": out += be(a["id"], 2)
  return out

def dec_addressee(b, pos):
  a, pos = ADDR_HEAD.decode(b, pos)
  t = a["id_type"]
  if t == "NBID":
    raw, pos = take(b, pos, 1)
    a["id"] = (raw[0] >> 5, raw[0] & 31)
  elif t == "NOID": a["id"] = None
  else:
    raw, pos = take(b, pos, 8 if t == "UID" else 2)
    a["id"] = from_be(raw)
  return a, pos

def enc_config(c):
  return QOS.encode(c["qos"]) + [(c["dorm_to"][0] << 5) | c["dorm_to"][1]] + enc_addressee(c["addressee"])

def dec_config(b, pos):
  q, pos = QOS.decode(b, pos)
  raw, pos = take(b, pos, 1)
  a, pos = dec_addressee(b, pos)
  return {"qos": q, "dorm_to": (raw[0] >> 5, raw[0] & 31), "addressee": a}, pos

def enc_status(st):
  return STATUS_HEAD.encode(st) + enc_addressee(st["addressee"])

def dec_status(b, pos):
  st, pos = STATUS_HEAD.decode(b, pos)
  st["addressee"], pos = dec_addressee(b, pos)
  return st, pos

def enc_access_profile(p):
  out = CHAN_HEAD.encode(p["channel_header"])
  for x in p["sub_profiles"]: out = out + SUBPROFILE.encode(x)
  for x in p["sub_bands"]: out = out + SUBBAND.encode(x)
  return out

def dec_access_profile(b, pos):
  h, pos = CHAN_HEAD.decode(b, pos)
  sp = []
  for _ in range(4):
    x, pos = SUBPROFILE.decode(b, pos)
    sp.append(x)
  sb = []
  for _ in range(8):
    x, pos = SUBBAND.decode(b, pos)
    sb.append(x)
  return {"channel_header": h, "sub_profiles": sp, "sub_bands": sb}, pos

def enc_phy_status(p):
  v = dict(p)
  v["channel_status_list_length"] = len(p["channels"])
  out = PHY_STATUS_HEAD.encode(v)
  for ident, floor in p["channels"]: out = out + CHAN_STATUS.encode(ident) + [floor]
  return out

def dec_phy_status(b, pos):
  v, pos = PHY_STATUS_HEAD.decode(b, pos)
  chans = []
  for _ in range(v.pop("channel_status_list_length")):
    ident, pos = CHAN_STATUS.decode(b, pos)
    raw, pos = take(b, pos, 1)
    chans.append((ident, raw[0]))
  v["channels"] = chans
  return v, pos

def dec_firmware(b, pos):
  v, pos = FIRMWARE.decode(b, pos)
  for k in ("application_name", "git_sha1"):
    if max(v[k]) > 127: raise Bad("not ascii")
    v[k] = "".join(chr(c) for c in v[k])
  return v, pos

def dec_engineering(b, pos):
  if 7 <= len(b) - pos < 9: raise Unspecified() # an existing test decodes the file without its reserved bytes
  return ENGINEERING.decode(b, pos)

def lay(layout): return (layout.encode, layout.decode)

FILE_CODEC = {  # name -> (encode(values), decode(bytes, pos))
  "UID": lay(UID_FILE), "FACTORY_SETTINGS": lay(FACTORY_SETTINGS), "FIRMWARE_VERSION": (None, dec_firmware),
  "ENGINEERING_MODE": (ENGINEERING.encode, dec_engineering), "VID": lay(VID_FILE), "PHY_STATUS": (enc_phy_status, dec_phy_status),
  "DLL_CONFIG": lay(DLL_CONFIG), "DLL_STATUS": lay(DLL_STATUS), "NWL_SECURITY_KEY": lay(SECURITY_KEY),
  "ALP_ROOT_AUTHENTICATION_KEY": lay(AUTH_KEY), "ALP_USER_AUTHENTICATION_KEY": lay(AUTH_KEY),
  "ACCESS_PROFILE": (enc_access_profile, dec_access_profile)}

def enc_firmware(v):
  w = dict(v)
  for k, n in (("application_name", 6), ("git_sha1", 7)): w[k] = [ord(c) for c in v[k].ljust(n)]
  return FIRMWARE.encode(w)
FILE_CODEC["FIRMWARE_VERSION"] = (enc_firmware, dec_firmware)

def file_codec(name): return FILE_CODEC.get("ACCESS_PROFILE" if name.startswith("ACCESS_PROFILE") else name)

# ---------------------------------------------------------------- ALP actions
# ("read", group, resp, file, offset, length)        op 1
# ("readheader", group, resp, file)                  op 2  (encode only)
# ("write", group, resp, file, offset, data)         op 4
# ("writeheader", group, resp, file, header)         op 6  (encode only)
# ("query", group, resp, signed, comp, value, file, offset)  op 9
# ("create", group, resp, file, header)              op 17
# ("return", group, resp, file, offset, data)        op 32
# ("returnheader", group, resp, file, header)        op 33
# ("ifstatus", interface id, status | None)          op 34
# ("tagresp", eop, error, tag)                       op 35
# ("forward", resp, interface name, config | None)   op 50
# ("iforward", overload, resp, file, addressee|None) op 51
# ("tagreq", respond, tag)                           op 52

def ctrl(b7, b6, op): return (128 if b7 else 0) | (64 if b6 else 0) | op

def enc_iface_config(name, cfg):
  if name == "D7ASP": return enc_config(cfg)
  if name == "LORAWAN_ABP": return LORAWAN_ABP.encode(cfg)
  if name == "LORAWAN_OTAA": return LORAWAN_OTAA.encode(cfg)
  return []

def enc_action(a, lsize=None):
  """lsize: number of bytes to use for every length/offset (None: shortest)"""
  L = lambda v: length_bytes(v, None if lsize is None else max(lsize, len(length_bytes(v))))
  k = a[0]
  if k == "read": return [ctrl(a[1], a[2], 1), a[3]] + L(a[4]) + L(a[5])
  if k == "readheader": return [ctrl(a[1], a[2], 2), a[3]]
  if k in ("write", "return"):
    return [ctrl(a[1], a[2], 4 if k == "write" else 32), a[3]] + L(a[4]) + L(len(a[5])) + list(a[5])
  if k in ("writeheader", "create", "returnheader"):
    op = {"writeheader": 6, "create": 17, "returnheader": 33}[k]
    return [ctrl(a[1], a[2], op), a[3]] + FILE_HEADER.encode(a[4])
  if k == "query":
    return [ctrl(a[1], a[2], 9), (2 << 5) | (8 if a[3] else 0) | CODE(COMP, a[4])] + L(len(a[5])) + list(a[5]) + \
           [a[6]] + L(a[7])
  if k == "ifstatus":
    st = enc_status(a[2]) if a[2] is not None else []
    return [ctrl(0, 1, 34), a[1], len(st)] + st
  if k == "tagresp": return [ctrl(a[1], a[2], 35), a[3]]
  if k == "forward": return [ctrl(0, a[1], 50), CODE(IFACE, a[2])] + enc_iface_config(a[2], a[3])
  if k == "iforward": return [ctrl(a[1], a[2], 51), a[3]] + (enc_addressee(a[4]) if a[1] else [])
  if k == "tagreq": return [ctrl(a[1], 0, 52), a[2]]
  raise AssertionError(k)

def dec_action(b, pos):
  raw, pos = take(b, pos, 1)
  b7, b6, op = bool(raw[0] & 128), bool(raw[0] & 64), raw[0] & 63
  def one(p):
    r, p = take(b, p, 1)
    return r[0], p
  def data(p):
    n, p = dec_length(b, p)
    d, p = take(b, p, n)
    return list(d), p
  if op == 1:
    f, pos = one(pos)
    o, pos = dec_length(b, pos)
    n, pos = dec_length(b, pos)
    return ("read", b7, b6, f, o, n), pos
  if op in (4, 32):
    f, pos = one(pos)
    o, pos = dec_length(b, pos)
    d, pos = data(pos)
    return ("write" if op == 4 else "return", b7, b6, f, o, d), pos
  if op == 9:
    q, pos = one(pos)
    if q >> 5 != 2 or q & 16: raise Bad("query")
    if q & 7 not in COMP: raise Bad("comparison")
    v, pos = data(pos)
    f, pos = one(pos)
    o, pos = dec_length(b, pos)
    return ("query", b7, b6, bool(q & 8), COMP[q & 7], v, f, o), pos
  if op in (17, 33):
    f, pos = one(pos)
    h, pos = FILE_HEADER.decode(b, pos)
    return ("create" if op == 17 else "returnheader", b7, b6, f, h), pos
  if op == 34:
    if b7 or not b6: raise Bad("status extension")
    i, pos = one(pos)
    n, pos = one(pos)
    if i == 0xD7:
      st, start = None, pos
      if n > 0: st, pos = dec_status(b, pos)
      if pos - start != n: raise Unspecified()
      return ("ifstatus", i, st), pos
    if i == 1:
      if n > 0: raise Unspecified()
      return ("ifstatus", i, None), pos
    raise Bad("interface status")
  if op == 35:
    t, pos = one(pos)
    return ("tagresp", b7, b6, t), pos
  if op == 50:
    if b7: raise Bad("rfu")
    i, pos = one(pos)
    if i not in IFACE or i == 0: raise Bad("interface")
    n = IFACE[i]
    cfg = None
    if n == "D7ASP": cfg, pos = dec_config(b, pos)
    elif n == "LORAWAN_ABP": cfg, pos = LORAWAN_ABP.decode(b, pos)
    elif n == "LORAWAN_OTAA": cfg, pos = LORAWAN_OTAA.decode(b, pos)
    return ("forward", b6, n, cfg), pos
  if op == 51:
    f, pos = one(pos)
    a = None
    if b7: a, pos = dec_addressee(b, pos)
    return ("iforward", b7, b6, f, a), pos
  if op == 52:
    if b6: raise Bad("rfu")
    t, pos = one(pos)
    return ("tagreq", b7, t), pos
  raise Bad("op %d" % op)

def dec_actions(b, n=None):
  """the actions of a command of exactly n bytes"""
  n = len(b) if n is None else n
  pos, out = 0, []
  while pos < n:
    a, pos = dec_action(b, pos)
    out.append(a)
  if pos != n: raise Bad("overrun")
  return out

def command_model(actions):
  """what a decoded command must report; Bad if the combination is not a valid command"""
  m = {"tag": None, "respond": None, "status": None, "actions": [], "completed": False, "error": None}
  for a in actions:
    if a[0] == "ifstatus":
      if m["status"] is not None: raise Bad("two interface status actions")
      m["status"] = a
    elif a[0] == "tagreq":
      if m["tag"] is not None: raise Bad("two tags")
      m["tag"], m["respond"] = a[2], a[1]
    elif a[0] == "tagresp":
      if m["tag"] is not None: raise Bad("two tags")
      m["tag"], m["completed"], m["error"] = a[3], a[1], a[2]
    else: m["actions"].append(a)
  return m

# ---------------------------------------------------------------- serial frames

def frame(payload, counter=0, mtype=1):
  c = crc16(payload)
  return [0xC0, 0, counter & 0xFF, mtype, len(payload), c >> 8, c & 0xFF] + list(payload)

def scan(stream, decode_ok):
  """Left to right scan.  Returns (messages [(type, payload)], offset of the first unconsumed byte, skipped bytes).
  decode_ok(type, payload): False when the payload of an intact frame is undecodable."""
  pos, out, skipped = 0, [], 0
  n = len(stream)
  while pos < n:
    if stream[pos] != 0xC0:
      pos += 1
      skipped += 1
      continue
    if pos + 1 < n and stream[pos + 1] != 0:
      pos += 1
      skipped += 1
      continue
    if pos + 7 > n: break
    ln = stream[pos + 4]
    if pos + 7 + ln > n: break
    payload = stream[pos + 7:pos + 7 + ln]
    c = crc16(payload)
    if stream[pos + 5] != c >> 8 or stream[pos + 6] != c & 0xFF or not decode_ok(stream[pos + 3], payload):
      pos += 1
      skipped += 1
      continue
    out.append((stream[pos + 3], list(payload)))
    pos += 7 + ln
  return out, pos, skipped
