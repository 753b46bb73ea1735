import glue, ref, mc, codec
from codec import Codec
from glue import norm
import props.A07 as a07

RULE = "one case per group of values (every field densely over backgrounds, corner pairs), of encodings (every byte replaced by every value; all values for enumerated bytes), and per truncation, for each implemented system file; non-trivial: distinct encodings"
ASSUMPTIONS = ["reference: ref.FILE_CODEC", "an engineering mode file without its two reserved bytes is left unspecified (an existing test decodes one)",
               "the constructor of the factory settings takes a number of samples (2^(e+1)); values above 2^24 are only decoded", "names shorter than their field are padded with blanks"]

def entry(name, consume=True):
  cls, build, read = glue.FILES[name]
  enc, dec = ref.FILE_CODEC[name]
  view = (lambda v: v)
  if name == "FIRMWARE_VERSION": view = lambda v: v
  return Codec(name, enc, dec, build, read, cls.parse, consume, view)
CODECS = dict((n, entry(n, n != "ENGINEERING_MODE")) for n in glue.FILES)
LAY = {"UID": ref.UID_FILE, "FACTORY_SETTINGS": ref.FACTORY_SETTINGS, "ENGINEERING_MODE": ref.ENGINEERING, "VID": ref.VID_FILE,
       "DLL_CONFIG": ref.DLL_CONFIG, "DLL_STATUS": ref.DLL_STATUS, "NWL_SECURITY_KEY": ref.SECURITY_KEY,
       "ALP_ROOT_AUTHENTICATION_KEY": ref.AUTH_KEY, "ALP_USER_AUTHENTICATION_KEY": ref.AUTH_KEY}
LENGTH = {"UID": 8, "FACTORY_SETTINGS": 56, "FIRMWARE_VERSION": 17, "ENGINEERING_MODE": 9, "VID": 3, "DLL_CONFIG": 7, "DLL_STATUS": 16,
          "NWL_SECURITY_KEY": 16, "ALP_ROOT_AUTHENTICATION_KEY": 40, "ALP_USER_AUTHENTICATION_KEY": 40, "ACCESS_PROFILE": 65}

def fw(tier):
  lay = ref.Layout(*ref.FIRMWARE.fields[:4])
  for v in mc.layout_values(lay, tier): yield dict(v, application_name="ab c_1", git_sha1="0a1b2c3")
  base = mc.backgrounds(lay)[2]
  for n in range(128):
    for k in range(6): yield dict(base, application_name="x" * k + chr(n) + "y" * (5 - k), git_sha1="abcdefg")
    for k in range(7): yield dict(base, application_name="ABCDEF", git_sha1="x" * k + chr(n) + "y" * (6 - k))

def access(tier):
  heads = list(mc.layout_values(ref.CHAN_HEAD, "quick"))
  sps = list(mc.layout_values(ref.SUBPROFILE, "quick"))
  sbs = list(mc.layout_values(ref.SUBBAND, "quick", pairs=False))
  if tier == "quick": sbs = sbs[::7]
  b = a07.VALUES["ACCESS_PROFILE"]
  for h in heads: yield dict(b[0], channel_header=h)
  for i in range(4):
    for x in sps[::1 if tier == "thorough" else 11]:
      l = list(b[1]["sub_profiles"])
      l[i] = x
      yield dict(b[1], sub_profiles=l)
  for i in range(8):
    for x in sbs[i::8] if tier == "quick" else sbs:
      l = list(b[i % 2]["sub_bands"])
      l[i] = x
      yield dict(b[i % 2], sub_bands=l)

def phy(tier):
  head = ref.Layout(*ref.PHY_STATUS_HEAD.fields[:4])
  ch = list(mc.layout_values(ref.CHAN_STATUS, "quick", pairs=False))
  for i, v in enumerate(mc.layout_values(head, tier)): yield dict(v, channels=[[ch[(i * 7 + k) % len(ch)], (i + k) & 0xFF] for k in range(i % 4)])
  bg = mc.backgrounds(head)
  for n in list(range(0, 12)) + ([31, 64, 128, 254, 255] if tier == "thorough" else [40, 255]):
    yield dict(bg[2], channels=[[ch[(5 * k) % len(ch)], (k * 3) & 0xFF] for k in range(n)])
  for c in ch[::1 if tier == "thorough" else 5]: yield dict(bg[1], channels=[[ch[0], 3], [c, 255], [ch[1], 9]])
  for f in range(256): yield dict(bg[0], channels=[[ch[2], f], [ch[3], 255 - f]])

def values(n, tier):
  if n in LAY:
    for v in mc.layout_values(LAY[n], tier, pairs=tier == "thorough" or len(LAY[n].fields) < 12):
      if n == "FACTORY_SETTINGS" and v["rssi_smoothing"] > 23: v = dict(v, rssi_smoothing=v["rssi_smoothing"] % 24)
      yield v
  elif n == "FIRMWARE_VERSION":
    for v in fw(tier): yield v
  elif n == "ACCESS_PROFILE":
    for v in access(tier): yield v
  else:
    for v in phy(tier): yield v

def cases(tier):
  for n in sorted(glue.FILES):
    for g in codec.chunks(values(n, tier), 8): yield ["v", n, g]
    bases = [ref.FILE_CODEC[n][0](v) for v in list(values(n, "quick"))[:3]]
    if n == "FACTORY_SETTINGS": bases = [ref.FACTORY_SETTINGS.encode(v) for v in mc.backgrounds(ref.FACTORY_SETTINGS)]
    for b in bases: yield ["cut", n, [b]]
    step = 1 if tier == "thorough" or len(bases[0]) < 30 else 5
    for g in codec.chunks(codec.sweeps(bases if tier == "thorough" else bases[-1:], step), 32): yield ["b", n, g]
    if step > 1:
      for g in codec.chunks((b[:i] + [x] + b[i + 1:] for b in bases[:2] for i in range(len(b)) for x in (0, 255, 127, 128)), 32): yield ["b", n, g]
  short = {"d7a_protocol_version_major": 1, "d7a_protocol_version_minor": 2, "filesystem_version_major": 3, "filesystem_version_minor": 4}
  for i in range(7):
    for j in range(8): yield ["pad", dict(short, application_name="abcdef"[:i], git_sha1="1234567"[:j])]
  for n in sorted(LENGTH): yield ["length", n]
  for k in range(15): yield ["specifier", k]

def run(case, ctx):
  if case[0] == "pad":
    v = norm(case[1])
    o = glue.FirmwareVersionFile(**v)
    want = ref.enc_firmware(v)
    ctx.eq(mc.hexs(glue.by(o)), mc.hexs(want), "firmware version %s" % v)
    CODECS["FIRMWARE_VERSION"].octets(want, ctx)
    return
  if case[0] == "length":
    n = case[1]
    cls = glue.FILES[n][0]
    o = cls()
    ctx.eq(o.length, LENGTH[n], "length of %s" % n)
    v = list(values(n, "quick"))[1]
    ctx.eq(len(glue.by(glue.FILES[n][1](v))), LENGTH[n], "serialized length of %s" % n)
    if n != "ACCESS_PROFILE": ctx.eq(len(glue.by(o)), LENGTH[n], "serialized length of default %s" % n)
    ctx.trace("length", n)
    return
  if case[0] == "specifier":
    k = case[1]
    o = glue.AccessProfileFile(access_specifier=k, access_profile=glue.access_profile(a07.VALUES["ACCESS_PROFILE"][k % 2]))
    ctx.eq((o.id, o.length, glue.by(o)), (0x20 + k, 65, ref.enc_access_profile(a07.VALUES["ACCESS_PROFILE"][k % 2])), "access profile %d" % k)
    ctx.trace("specifier", k)
    return
  codec.run_cases(CODECS, case, ctx)
