"""All structured objects that can be built or decoded, for the checks that hold for every object."""
import glue, ref, mc, alphabet, dllmodel
from glue import norm, stream

def _lay(layout, tier):
  if tier == "quick": return mc.backgrounds(layout) + [v for i, v in enumerate(mc.layout_values(layout, "quick", pairs=False)) if i % 29 == 3][:120]
  return list(mc.layout_values(layout, "quick", pairs=False))

def structures(tier):
  """name -> (build(values), read(object), encode(values), parse(stream) | None, list of values)"""
  from d7a.phy.channel_header import ChannelHeader
  from d7a.phy.channel_id import ChannelID
  out = {
    "addressee": (glue.addressee, glue.r_addressee, ref.enc_addressee, glue.Addressee.parse, alphabet.addressees("quick", tier == "quick")),
    "qos": (glue.qos, glue.r_qos, ref.QOS.encode, glue.QoS.parse, _lay(ref.QOS, tier)),
    "config": (glue.config, glue.r_config, ref.enc_config, glue.Configuration.parse, alphabet.configs("quick", tier == "quick")),
    "abp": (glue.abp, lambda o: glue.r_iface_config("LORAWAN_ABP", o), ref.LORAWAN_ABP.encode, glue.LoRaWANInterfaceConfigurationABP.parse, _lay(ref.LORAWAN_ABP, tier)),
    "otaa": (glue.otaa, lambda o: glue.r_iface_config("LORAWAN_OTAA", o), ref.LORAWAN_OTAA.encode, glue.LoRaWANInterfaceConfigurationOTAA.parse, _lay(ref.LORAWAN_OTAA, tier)),
    "status": (glue.status, glue.r_status, ref.enc_status, glue.Status.parse, alphabet.statuses("quick", tier == "quick")),
    "channel header": (glue.chan_header, glue.r_chan_header, ref.CHAN_HEAD.encode, ChannelHeader.parse, _lay(ref.CHAN_HEAD, "thorough")),
    "channel id": (glue.chan_id, glue.r_chan_id, ref.CHAN_ID.encode, ChannelID.parse, _lay(ref.CHAN_ID, tier)),
    "subband": (glue.subband, glue.r_subband, ref.SUBBAND.encode, glue.SubBand.parse, _lay(ref.SUBBAND, tier)),
    "subprofile": (glue.subprofile, glue.r_subprofile, ref.SUBPROFILE.encode, glue.SubProfile.parse, _lay(ref.SUBPROFILE, tier)),
    "channel status": (glue.chan_status, lambda o: glue.r_fields(o, ref.CHAN_STATUS.names()), ref.CHAN_STATUS.encode, glue.ChannelStatusIdentifier.parse, _lay(ref.CHAN_STATUS, tier)),
    "permissions": (glue.permissions, glue.r_permissions, ref.PERM.encode, glue.FilePermissions.parse, _lay(ref.PERM, tier)),
    "properties": (glue.properties, glue.r_properties, ref.PROP.encode, glue.FileProperties.parse, _lay(ref.PROP, "thorough")),
    "file header": (glue.file_header, glue.r_file_header, ref.FILE_HEADER.encode, glue.FileHeader.parse, _lay(ref.FILE_HEADER, tier)),
    "ct": (glue.ct, glue.pure, lambda v: [v[0] << 5 | v[1]], glue.CT.parse, [(e, m) for e in range(8) for m in range(32)]),
    "length": (glue.Length, glue.pure, ref.length_bytes, glue.Length.parse, [0, 1, 63, 64, 0x3FFF, 0x4000, 0x3FFFFF, 0x400000, 0x3FFFFFFF]),
    "offset": (lambda v: glue.Offset(id=v[0], offset=glue.Length(v[1])), lambda o: (o.id, o.offset.value), lambda v: [v[0]] + ref.length_bytes(v[1]),
               glue.Offset.parse, [(0, 0), (255, 63), (64, 64), (1, 0x4000), (2, 0x3FFFFFFF)]),
  }
  lay = {"UID": ref.UID_FILE, "FACTORY_SETTINGS": ref.FACTORY_SETTINGS, "ENGINEERING_MODE": ref.ENGINEERING, "VID": ref.VID_FILE,
         "DLL_CONFIG": ref.DLL_CONFIG, "DLL_STATUS": ref.DLL_STATUS, "NWL_SECURITY_KEY": ref.SECURITY_KEY,
         "ALP_ROOT_AUTHENTICATION_KEY": ref.AUTH_KEY, "ALP_USER_AUTHENTICATION_KEY": ref.AUTH_KEY}
  for n in glue.FILES:
    cls, build, read = glue.FILES[n]
    enc, dec = ref.FILE_CODEC[n]
    if n in lay:
      vals = _lay(lay[n], tier)
      if n == "FACTORY_SETTINGS": vals = [dict(v, rssi_smoothing=v["rssi_smoothing"] % 8) for v in vals]
    else: vals = extra(n)
    out["file " + n] = (build, read, enc, cls.parse, vals)
  return out

def extra(n):
  if n == "PHY_STATUS":
    bg, ch, out = mc.backgrounds(ref.PHY_STATUS_HEAD), mc.backgrounds(ref.CHAN_STATUS), []
    for k in (0, 1, 2, 5):
      v = dict((x, bg[k % 3][x]) for x in ("up_time", "rx_time", "tx_time", "tx_duty_cycle"))
      v["channels"] = [(ch[j % 3], 10 * j + k) for j in range(k)]
      out.append(v)
    return out
  if n == "FIRMWARE_VERSION":
    return [dict(v, application_name="abcd%02d" % i, git_sha1="12345%02d" % i) for i, v in enumerate(mc.backgrounds(ref.FIRMWARE))]
  if n == "ACCESS_PROFILE":
    return [{"channel_header": mc.backgrounds(ref.CHAN_HEAD)[k], "sub_profiles": [mc.backgrounds(ref.SUBPROFILE)[(k + j) % 3] for j in range(4)],
             "sub_bands": [mc.backgrounds(ref.SUBBAND)[(k + j) % 3] for j in range(8)]} for k in range(3)]
  raise AssertionError(n)

def objects(tier):
  """(label, make) of every structure, built and decoded"""
  for n, (build, read, enc, parse, vals) in sorted(structures(tier).items()):
    for i, v in enumerate(vals):
      yield n, i, "built"
      if parse is not None: yield n, i, "decoded"

def make(tables, n, i, how):
  build, read, enc, parse, vals = tables[n]
  v = norm(vals[i])
  return build(v) if how == "built" else parse(stream(enc(v)))

def command_cases(tier):
  """lists of actions every command-wide check explores, in two forms: built, and decoded"""
  ls = alphabet.letters()
  few = alphabet.few_letters()
  for a in [None] + ls:
    acts = [a] if a is not None else []
    for how in ("built", "untagged", "decoded"): yield how, acts
  for a in few if tier == "quick" else ls:
    for b in few if tier == "quick" else ls:
      for how in ("built", "decoded"): yield how, [a, b]
  for a in few[::2]:
    for b in few[1::2]:
      for c in few[::3]:
        for how in ("built", "decoded"): yield how, [a, b, c]

def command(how, acts):
  """None when the combination is not a command (two tags, undecodable)"""
  tags = sum(a[0] in ("tagreq", "tagresp") for a in acts)
  if tags > 1 or sum(a[0] == "ifstatus" for a in acts) > 1: return None
  if how == "decoded":
    import alpdiff
    bs = alpdiff.enc(acts)
    if alpdiff.expect(bs)[0] != "ok": return None
    return glue.parse_alp(bs)[0]
  return glue.Command(actions=[glue.action(a) for a in acts], generate_tag_request_action=how == "built")
