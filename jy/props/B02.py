import glue, ref, mc, alphabet, codec
from codec import Codec

RULE = "one case per group of values (every field densely over backgrounds, corner products), of encodings (every byte replaced by every value, all pairs of flipped bits) and per truncation; non-trivial: distinct encodings decoded"
ASSUMPTIONS = ["reference: ref.enc_addressee, ref.enc_config, ref.LORAWAN_*"]

CODECS = {
  "addressee": Codec("addressee", ref.enc_addressee, ref.dec_addressee, glue.addressee, glue.r_addressee, glue.Addressee.parse),
  "qos": Codec("qos", ref.QOS.encode, ref.QOS.decode, glue.qos, glue.r_qos, glue.QoS.parse),
  "config": Codec("configuration", ref.enc_config, ref.dec_config, glue.config, glue.r_config, glue.Configuration.parse),
  "abp": Codec("LoRaWAN ABP", ref.LORAWAN_ABP.encode, ref.LORAWAN_ABP.decode, glue.abp, lambda o: glue.r_iface_config("LORAWAN_ABP", o), glue.LoRaWANInterfaceConfigurationABP.parse),
  "otaa": Codec("LoRaWAN OTAA", ref.LORAWAN_OTAA.encode, ref.LORAWAN_OTAA.decode, glue.otaa, lambda o: glue.r_iface_config("LORAWAN_OTAA", o), glue.LoRaWANInterfaceConfigurationOTAA.parse),
}

def cases(tier):
  adr, cf = alphabet.addressees(tier), alphabet.configs(tier)
  bases = [ref.enc_addressee(a) for a in alphabet.addressees(tier, True)]
  for c in codec.cases_for("addressee", None, adr, bases, tier): yield c
  # first byte x access class, all id types
  for b in range(256):
    yield ["b", "addressee", [[b, a] + [1, 0x82, 3, 0x84, 5, 0x86, 7, 0x88] for a in (0, 1, 0x7F, 0x80, 0xFF)] + [[b, 5], [b]]]
  for c in codec.cases_for("qos", None, mc.layout_values(ref.QOS, tier), [[0], [0x86]], tier): yield c
  bases = [ref.enc_config(c) for c in alphabet.configs(tier, True)]
  for c in codec.cases_for("config", None, cf, bases, tier): yield c
  for n, l in (("abp", ref.LORAWAN_ABP), ("otaa", ref.LORAWAN_OTAA)):
    bases = [l.encode(v) for v in mc.backgrounds(l)]
    for c in codec.cases_for(n, None, mc.layout_values(l, tier), bases, tier): yield c
    if tier == "thorough":
      import itertools
      for x in range(256):
        yield ["b", n, [[x, a, b] + [9] * 8 for a in range(0, 256, 5) for b in range(0, 256, 17)]]

def run(case, ctx): codec.run_cases(CODECS, case, ctx)
