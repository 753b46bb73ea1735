"""Reference model of the DLL frames (supported features only), written from the D7A layers' layouts."""
import glue, ref, mc, alpdiff, alphabet
from glue import norm
from d7a.dll.parser import Parser, FrameType

IDS = ["NBID", "NOID", "UID", "VID"]       # by code
IDLEN = {"NBID": 0, "NOID": 0, "UID": 8, "VID": 2}

FG_FIELDS = ["subnet", "id_type", "eirp", "target", "no_origin", "origin_type", "origin_class", "origin", "start", "rfu", "ack", "dialog",
             "transaction", "agc", "tl", "te", "tc", "alp", "crc"]

def fg(**kw):
  m = {"subnet": 5, "id_type": "NOID", "eirp": 32, "target": [], "no_origin": True, "origin_type": "NOID", "origin_class": 1, "origin": [],
       "start": False, "rfu": False, "ack": False, "dialog": 17, "transaction": 34, "agc": None, "tl": None, "te": None, "tc": None,
       "alp": [("read", False, False, 0x40, 0, 8)], "crc": 0xABCD}
  for k in kw: assert k in m, k
  m.update(kw)
  assert len(m["target"]) == IDLEN[m["id_type"]]
  assert m["no_origin"] and not m["origin"] or len(m["origin"]) == IDLEN[m["origin_type"]] > 0
  assert (m["tc"] is not None) == (m["start"] and m["ack"])
  return m

def ct(t): return t[0] << 5 | t[1]

def enc_fg(m):
  b = [m["subnet"], IDS.index(m["id_type"]) << 6 | m["eirp"]] + list(m["target"])
  b += [(0x80 if m["no_origin"] else 0) | IDS.index(m["origin_type"]) << 4, m["origin_class"]] + list(m["origin"])
  b.append((0x80 if m["start"] else 0) | (0x40 if m["rfu"] else 0) | (0x20 if m["tl"] is not None else 0) | (0x10 if m["te"] is not None else 0)
           | (0x08 if m["ack"] else 0) | (1 if m["agc"] is not None else 0))
  b += [m["dialog"], m["transaction"]]
  if m["agc"] is not None: b.append(m["agc"])
  for k in ("tl", "te", "tc"):
    if m[k] is not None: b.append(ct(m[k]))
  b += alpdiff.enc([glue.tup(a) for a in m["alp"]]) + [m["crc"] >> 8, m["crc"] & 0xFF]
  return [len(b)] + b

def enc_bg(m): return [m["subnet"], IDS.index(m["id_type"]) << 6 | m["tag"], m["payload"] >> 8, m["payload"] & 0xFF, m["crc"] >> 8, m["crc"] & 0xFF]

def enc(m): return enc_bg(m) if "payload" in m else enc_fg(m)

def read(f, m):
  """what a decoded frame reports, in terms of the model"""
  if "payload" in m:
    return {"subnet": f.subnet, "id_type": f.control.id_type.name, "tag": f.control.tag, "payload": f.payload, "crc": f.crc16}
  n = f.d7anp_frame
  t = n.d7atp_frame
  opt = lambda c: None if c is None else (c.exp, c.mant)
  return {"length": f.length, "subnet": f.subnet, "id_type": f.control.id_type.name, "eirp": f.control.eirp_index, "target": list(f.target_address), "crc": f.crc16,
          "no_origin": n.control.has_no_origin_access_id, "hopping": n.control.has_hopping, "nls": n.control.nls_method.name,
          "origin_type": n.control.origin_id_type.name, "origin_class": n.origin_access_class, "origin": list(n.origin_access_id),
          "start": t.control.is_dialog_start, "ack": t.control.is_ack_requested, "ack_not_void": t.control.is_ack_not_void,
          "ack_record": t.control.is_ack_record_requested, "has": [t.control.has_tl, t.control.has_te, t.control.has_agc],
          "dialog": t.dialog_id, "transaction": t.transaction_id, "agc": t.agc_rx_level_i if t.control.has_agc else None,
          "tl": opt(t.tl), "te": opt(t.te), "tc": opt(t.tc), "alp": glue.model_of(t.alp_command)}

def want(m):
  if "payload" in m: return dict(m)
  d = dict((k, m[k]) for k in m if k != "rfu")
  d.update(length=len(enc_fg(m)) - 1, hopping=False, nls="NONE", ack_not_void=False, ack_record=False,
           has=[m["tl"] is not None, m["te"] is not None, m["agc"] is not None])
  c = ref.command_model([glue.tup(a) for a in m["alp"]])
  d["alp"] = dict((k, c[k]) for k in ("tag", "status", "actions", "completed"))
  return d

def untup(m):
  """a model that went through JSON"""
  m = dict(m)
  for k in ("tl", "te", "tc"):
    if m.get(k) is not None: m[k] = tuple(m[k])
  return m

def parser(m): return Parser(FrameType.BACKGROUND if "payload" in m else FrameType.FOREGROUND)

def shown(m): return "%s frame %s" % ("background" if "payload" in m else "foreground", mc.hexs(enc(m)))

def decode(m, ctx):
  bs = enc(m)
  p = parser(m)
  frames, info = ctx.guard(lambda: p.parse(list(bs)), "decoding " + shown(m))
  ctx.step()
  ctx.check(len(frames) == 1 and frames[0] is not None, lambda: "%s was not decoded: %s" % (shown(m), frames))
  ctx.eq((info["parsed"], info["buffer"], len(info["errors"])), (8 * len(bs), 0, 0), "consumed bits, buffered bits and errors for " + shown(m))
  return frames[0]

# ------------------------------------------------------------------ enumeration
UIDS = [[0, 0x1B, 0xC5, 0xFF, 0x80, 1, 2, 3], [0xFF] * 8]
VIDS = [[0x12, 0xFE], [0, 0]]
def address(t, k=0): return {"UID": UIDS, "VID": VIDS}.get(t, [[], []])[k]

def origins():
  out = [{"no_origin": True, "origin_type": t, "origin": []} for t in IDS]
  out += [{"no_origin": False, "origin_type": t, "origin": address(t, k)} for t in ("UID", "VID") for k in (0, 1)]
  return out

def targets(): return [{"id_type": t, "target": address(t, k)} for t in IDS for k in ((0, 1) if IDLEN[t] else (0,))]

def flags():
  for start in (False, True):
    for ack in (False, True):
      for tl in (None, (1, 2)):
        for te in (None, (7, 31)):
          for agc in (None, 17):
            for rfu in (False, True):
              yield {"start": start, "ack": ack, "tl": tl, "te": te, "agc": agc, "rfu": rfu, "tc": (3, 4) if start and ack else None}

def merge(*ds):
  out = {}
  for d in ds: out.update(d)
  return out

def alps(tags):
  ls = [[a] for a in alphabet.letters()] + [[a, b] for a in alphabet.few_letters() for b in alphabet.few_letters()]
  ls.append([])
  out = []
  for acts in ls:
    if not tags and any(a[0] in ("tagreq", "tagresp", "ifstatus") for a in acts): continue
    bs = alpdiff.enc(acts)
    if len(bs) > 180 or alpdiff.expect(bs)[0] != "ok": continue
    out.append(acts)
  return out

def fg_values(tier, tags):
  alp = alps(tags)
  k = 0
  for t in targets():
    for o in origins():
      for f in flags():
        for a in ([alp[k % len(alp)]] if tier == "quick" else alp[k % 3::3]): yield merge(t, o, f, {"alp": a})
        k += 1
  few = [merge(targets()[0], origins()[0]), merge(targets()[2], origins()[-1], {"start": True, "ack": True, "tl": (0, 0), "te": (0, 1), "tc": (7, 31), "agc": 31}),
         merge(targets()[-1], origins()[4], {"ack": True, "te": (1, 1), "rfu": True})]
  for b in few:
    for a in alp: yield merge(b, {"alp": a})
    for v in range(256):
      for name in ("subnet", "origin_class", "dialog", "transaction"): yield merge(b, {name: v})
      for name in ("tl", "te"): yield merge(b, {name: (v >> 5, v & 31)})
      yield merge(b, {"start": True, "ack": True, "tc": (v >> 5, v & 31)})
    for v in range(64):
      for t in targets(): yield merge(b, t, {"eirp": v})
    for v in range(32): yield merge(b, {"agc": v})
    for v in mc.dense_uints(16, tier): yield merge(b, {"crc": v})
    for t in ("UID", "VID"):
      for i in range(IDLEN[t]):
        for v in range(256) if tier == "thorough" or t == "VID" else range(0, 256, 5):
          x = list(address(t))
          x[i] = v
          yield merge(b, {"id_type": t, "target": x})
          yield merge(b, {"no_origin": False, "origin_type": t, "origin": x})
  # every length a frame can have
  for n in range(0, 236): yield {"alp": [("write", False, False, 0x40, 0, [n] * n)]}

def bg_values(tier):
  for t in IDS:
    for v in range(64): yield {"subnet": 0xFF, "id_type": t, "tag": v, "payload": 0x1234, "crc": 0xFEDC}
  for v in range(256): yield {"subnet": v, "id_type": "NOID", "tag": 63, "payload": 0xFFFF, "crc": 0}
  for v in mc.dense_uints(16, tier):
    for t in ("NOID", "NBID"):
      yield {"subnet": 0, "id_type": t, "tag": 1, "payload": v, "crc": 0x8001}
      yield {"subnet": 0x80, "id_type": t, "tag": 32, "payload": 0x0A, "crc": v}
