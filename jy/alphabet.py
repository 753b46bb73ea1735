"""Enumeration of the structured values of the ALP protocol (values of ref.py)."""
import ref, mc

def addressees(tier, few=False):
  if few:
    return [{"id_type": "NOID", "nls_method": "NONE", "access_class": 0, "id": None},
            {"id_type": "NBID", "nls_method": "AES_CTR", "access_class": 0xFF, "id": (7, 31)},
            {"id_type": "NBID", "nls_method": "NONE", "access_class": 1, "id": (1, 2)},
            {"id_type": "UID", "nls_method": "AES_CCM_32", "access_class": 0x21, "id": 0x8123456789ABCDEF},
            {"id_type": "UID", "nls_method": "NONE", "access_class": 0x01, "id": 0x0A0D00C0FF7F8001},
            {"id_type": "VID", "nls_method": "AES_CBC_MAC_64", "access_class": 0xC0, "id": 0xFEDC}]
  out = []
  ids = {"NOID": [None], "NBID": [(i, m) for i in range(8) for m in range(32)],
         "UID": mc.dense_uints(64, tier), "VID": mc.dense_uints(16, tier)}
  nls = [ref.NLS[k] for k in sorted(ref.NLS)]
  acs = range(256)
  for t in sorted(ids):
    corner = [ids[t][0], ids[t][-1]] if len(ids[t]) > 1 else ids[t]
    for n in nls:
      for a in acs:
        for i in corner[-1:]: out.append({"id_type": t, "nls_method": n, "access_class": a, "id": i})
    for i in ids[t]:
      for n, a in (("NONE", 0), ("AES_CCM_32", 0xFF), ("AES_CBC_MAC_32", 0x5A)):
        out.append({"id_type": t, "nls_method": n, "access_class": a, "id": i})
  return out

def qoss():
  return list(mc.layout_values(ref.QOS, "quick"))

def configs(tier, few=False):
  q = mc.backgrounds(ref.QOS)
  if few:
    cts = [(0, 0), (7, 31), (1, 2)]
    return [{"qos": q[i % 3], "dorm_to": cts[i % 3], "addressee": a} for i, a in enumerate(addressees(tier, True))]
  out = []
  for a in addressees(tier): out.append({"qos": q[2], "dorm_to": (3, 17), "addressee": a})
  for x in covering_qos():
    for a in addressees(tier, True): out.append({"qos": x, "dorm_to": (7, 31), "addressee": a})
  for e in range(8):
    for m in range(32):
      for a in addressees(tier, True)[::2]: out.append({"qos": q[1], "dorm_to": (e, m), "addressee": a})
  return out

def covering_qos():
  out = []
  for s in (False, True):
    for r in (False, True):
      for k in sorted(ref.RESP_MODE):
        out.append({"stop_on_err": s, "record": r, "retry_mod": "RETRY_MODE_NO", "resp_mod": ref.RESP_MODE[k]})
  return out

def statuses(tier, few=False):
  bgs = mc.backgrounds(ref.STATUS_HEAD)
  adr = addressees(tier, True)
  out = []
  if few:
    for i, a in enumerate(adr):
      d = dict(bgs[(i + 1) % 3])
      d["addressee"] = a
      out.append(d)
    return out
  for i, v in enumerate(mc.layout_values(ref.STATUS_HEAD, tier)):
    d = dict(v)
    d["addressee"] = adr[i % len(adr)]
    out.append(d)
  for a in addressees(tier):
    d = dict(bgs[2])
    d["addressee"] = a
    out.append(d)
  return out

def lorawan(layout, tier, few=False):
  if few: return mc.backgrounds(layout)
  return list(mc.layout_values(layout, tier))

LENGTH_EDGES = [0, 1, 2, 0x3E, 0x3F, 0x40, 0x41, 0x7F, 0x80, 0xBF, 0xC0, 0xFF, 0x100, 0x1FF, 0x3FFE, 0x3FFF, 0x4000,
                0x4001, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x3FFFFE, 0x3FFFFF, 0x400000, 0x400001, 0xFFFFFF,
                0x1000000, 0x3FFFFFFE, 0x3FFFFFFF]

def datas(sizes):
  for n in sizes:
    yield [(i * 29 + 7 * n) & 0xFF for i in range(n)]
    if n: yield [0xC0] * n
    if n: yield [255] * n
    if n: yield [0] * n

def headers(tier, few=False):
  if few: return mc.backgrounds(ref.FILE_HEADER)
  return list(mc.layout_values(ref.FILE_HEADER, tier))

BOOLS = [(False, False), (False, True), (True, False), (True, True)]

def parseable(tier):
  """dense single actions which the parser supports"""
  for a in encodable(tier):
    if a[0] not in ("readheader", "writeheader"): yield a

def encodable(tier):
  t = tier == "thorough"
  for g, r in BOOLS:
    for f in range(256):
      yield ("read", g, r, f, 0x0102 if g else 3, 0x40 if r else 5)
      yield ("readheader", g, r, f)
      yield ("write", g, r, f, 0, [1, 2, 3])
      yield ("return", g, r, f, 1, [f, 255 - f])
    for o in LENGTH_EDGES:
      for n in LENGTH_EDGES: yield ("read", g, r, 0x40, o, n)
      yield ("write", g, r, 0x41, o, [9, 8])
      yield ("return", g, r, 0x42, o, [])
  for n in mc.dense_uints(30, tier):
    yield ("read", False, True, 0xC3, n, 0)
    yield ("read", True, False, 0x3C, 1, n)
    yield ("write", True, True, 0x45, n, [0])
    yield ("return", False, False, 0x46, n, [0])
    yield ("query", False, False, True, "EQUALITY", [1], 0x47, n)
  sizes = list(range(0, 70)) + [127, 128, 129, 191, 192, 200, 240, 247, 248]
  for n in sizes:
    for d in datas([n]):
      for k in ("write", "return"):
        for g, r in (BOOLS if t else BOOLS[1:3]): yield (k, g, r, 0x43, n, d)
  for v in range(256):
    for k in ("write", "return"): yield (k, False, False, 0x44, 0, [v, 0x11, 255 - v])
  for h in headers(tier):
    yield ("create", True, False, 0x51, h)
    yield ("returnheader", False, True, 0x52, h)
    yield ("writeheader", False, False, 0x53, h)
  for h in headers(tier, True):
    for g, r in BOOLS:
      for f in range(256):
        for k in ("create", "returnheader", "writeheader")[f % 3:f % 3 + 1]: yield (k, g, r, f, h)
  for g, r in BOOLS:
    for sg in (False, True):
      for c in sorted(ref.COMP.values()):
        for v in ([], [0], [255, 254], [1, 2, 3, 4], list(range(64))):
          for o in (0, 0x40, 0x4000, 0x3FFFFFFF): yield ("query", g, r, sg, c, v, 0x60, o)
  for f in range(256): yield ("query", True, True, True, "LESS_THAN", [f], f, f)
  for n in range(0, 66): yield ("query", False, True, False, "GREATER_THAN", [n] * n, 3, 2)
  for s in statuses(tier): yield ("ifstatus", 0xD7, s)
  yield ("ifstatus", 0xD7, None)
  yield ("ifstatus", 1, None)
  for tag in range(256):
    for g, r in BOOLS: yield ("tagresp", g, r, tag)
    for r in (False, True): yield ("tagreq", r, tag)
  for r in (False, True):
    yield ("forward", r, "SERIAL", None)
    for c in configs(tier, True): yield ("forward", r, "D7ASP", c)
    for c in lorawan(ref.LORAWAN_ABP, tier): yield ("forward", r, "LORAWAN_ABP", c)
    for c in lorawan(ref.LORAWAN_OTAA, tier): yield ("forward", r, "LORAWAN_OTAA", c)
  for c in configs(tier): yield ("forward", False, "D7ASP", c)
  for r in (False, True):
    for f in range(256): yield ("iforward", False, r, f, None)
    for f in range(0, 256, 5):
      for a in addressees(tier, True): yield ("iforward", True, r, f, a)
  for a in addressees(tier): yield ("iforward", True, False, 0x1D, a)

def letters():
  """a small alphabet of actions: every kind, every flag and shape at least once"""
  out = []
  h = headers("quick", True)
  cf = configs("quick", True)
  st = statuses("quick", True)
  ad = addressees("quick", True)
  out += [("read", False, False, 0x40, 0, 8), ("read", True, True, 0xFF, 0x4000, 0x3FFFFFFF),
          ("write", False, False, 0x40, 0, [1, 2, 3]), ("write", True, False, 0xC0, 0x40, []),
          ("return", False, False, 0x40, 0, [0xC0, 0, 1]), ("return", False, True, 0x00, 0, [1, 2, 3, 4, 5, 6, 7, 8]),
          ("return", True, False, 0x02, 3, [0x41] * 70), ("create", False, True, 0x41, h[2]),
          ("returnheader", True, True, 0x42, h[1]), ("returnheader", False, False, 0, h[0]),
          ("query", False, False, False, "GREATER_THAN", [25], 0x40, 0),
          ("query", True, False, True, "INEQUALITY", [], 0x41, 0x40),
          ("ifstatus", 0xD7, st[0]), ("ifstatus", 0xD7, st[3]), ("ifstatus", 0xD7, None), ("ifstatus", 1, None),
          ("tagresp", True, False, 0x20), ("tagresp", False, True, 0xFF), ("tagreq", True, 7), ("tagreq", False, 0),
          ("forward", False, "SERIAL", None), ("forward", True, "SERIAL", None)]
  out += [("forward", bool(i % 2), "D7ASP", c) for i, c in enumerate(cf)]
  out += [("forward", False, "LORAWAN_ABP", mc.backgrounds(ref.LORAWAN_ABP)[2]),
          ("forward", True, "LORAWAN_OTAA", mc.backgrounds(ref.LORAWAN_OTAA)[1]),
          ("iforward", False, True, 0x1D, None), ("iforward", True, False, 0x1E, ad[3]), ("iforward", True, True, 3, ad[1])]
  return out

def few_letters():
  l = letters()
  kinds, out = set(), []
  for a in l:
    k = (a[0], a[2] if a[0] == "forward" else None)
    if k in kinds: continue
    kinds.add(k)
    out.append(a)
  return out
