import glue, ref, mc, codec, itertools
from codec import Codec
from glue import ChannelHeader, ChannelID

RULE = "one case per group of values, of encodings (every byte replaced by every value, pairs of flipped bits), per truncation, and per block of channel indices in text form for every channel header with a text form; non-trivial: distinct encodings and text forms"
ASSUMPTIONS = ["text form: band in MHz (3 digits), class L/R/N/H, coding P/F/C, and for an id the index padded to at least 3 digits; undefined band and RFU coding have none"]

CODECS = {
  "header": Codec("channel header", ref.CHAN_HEAD.encode, ref.CHAN_HEAD.decode, glue.chan_header, glue.r_chan_header, ChannelHeader.parse),
  "id": Codec("channel id", ref.CHAN_ID.encode, ref.CHAN_ID.decode, glue.chan_id, glue.r_chan_id, ChannelID.parse),
  "subband": Codec("sub-band", ref.SUBBAND.encode, ref.SUBBAND.decode, glue.subband, glue.r_subband, glue.SubBand.parse),
  "subprofile": Codec("sub-profile", ref.SUBPROFILE.encode, ref.SUBPROFILE.decode, glue.subprofile, glue.r_subprofile, glue.SubProfile.parse),
  "chanstatus": Codec("channel status identifier", ref.CHAN_STATUS.encode, ref.CHAN_STATUS.decode, glue.chan_status,
                      lambda o: glue.r_fields(o, ref.CHAN_STATUS.names()), glue.ChannelStatusIdentifier.parse),
}
LAY = {"header": ref.CHAN_HEAD, "id": ref.CHAN_ID, "subband": ref.SUBBAND, "subprofile": ref.SUBPROFILE, "chanstatus": ref.CHAN_STATUS}
BANDS = {"BAND_433": "433", "BAND_868": "868", "BAND_915": "915"}
CLASSES = {"LO_RATE": "L", "LORA": "R", "NORMAL_RATE": "N", "HI_RATE": "H"}
CODINGS = {"PN9": "P", "FEC_PN9": "F", "CW": "C"}

def cases(tier):
  for n in sorted(LAY):
    l = LAY[n]
    for c in codec.cases_for(n, None, mc.layout_values(l, tier), [l.encode(v) for v in mc.backgrounds(l)], tier): yield c
  for b in range(256): yield ["b", "header", [[b]]]
  for b in range(256): yield ["b", "chanstatus", [[b, x] for x in ((0, 15, 16, 127, 255) if tier == "quick" else range(256))]]
  for b in sorted(BANDS):
    for c in sorted(CLASSES):
      for k in sorted(CODINGS):
        yield ["text", b, c, k, 0, 1200, 1]
        if tier == "thorough":
          for base in range(0, 65536, 4096): yield ["text", b, c, k, base, base + 4096, 1]
        else: yield ["text", b, c, k, 1200, 65536, 331]
        yield ["text", b, c, k, 65530, 65536, 1]
        yield ["text", b, c, k, 9990, 10010, 1]
  yield ["badtext"]

def run(case, ctx):
  if case[0] == "badtext":
    for s in ("869LP000", "43LP000", "433XP000", "433LX000", "433LR000", "433L", "", "OT_LP000", "433LP", "433LPabc", "433LP65536", "433LP-1", "868lp000"):
      ctx.step()
      ctx.raises(lambda: ChannelID.from_string(s), "channel id %r" % s)
      ctx.trace(s)
    for s in ("869LP", "433XP", "433LX", "433LR", "433", ""):
      ctx.step()
      ctx.raises(lambda: ChannelHeader.from_string(s), "channel header %r" % s)
    return
  if case[0] != "text": return codec.run_cases(CODECS, case, ctx)
  _, b, c, k, lo, hi, step = case
  v = {"channel_band": b, "channel_class": c, "channel_coding": k}
  text = BANDS[b] + CLASSES[c] + CODINGS[k]
  h = glue.chan_header(v)
  ctx.eq(str(h), text, "text of %s" % v)
  h2 = ChannelHeader.from_string(text)
  ctx.eq(glue.r_chan_header(h2), v, "channel header from %s" % text)
  ctx.check(h == h2 and not h != h2, "equal headers")
  for i in range(lo, hi, step):
    w = dict(v, channel_index=i)
    o = glue.chan_id(w)
    t = text + "%03d" % i
    ctx.step(2)
    ctx.eq(str(o), t, "text of %s" % w)
    o2 = ctx.guard(lambda: ChannelID.from_string(t), "channel id from %s" % t)
    ctx.eq(glue.r_chan_id(o2), w, "channel id from %s" % t)
    ctx.trace(t)
  ctx.tick()
