import glue, ref, mc, alphabet, objects, alpdiff
from glue import norm
import d7a, jsonpickle, enum, itertools
from d7a.serial_modem_interface.parser import MessageType
from d7a.dll.parser import FrameType

RULE = "one case per command (every letter built with and without tag request and decoded, pairs and triples), per tag value, per structure value, and per list of two members of all enumerations; non-trivial: distinct JSON texts"
ASSUMPTIONS = ["jsonpickle is part of the environment; objects are encoded with its default settings after importing d7a"]

ENUMS = [glue.IdType, glue.NlsMethod, glue.ResponseMode, glue.RetryMode, glue.ChannelCoding, glue.ChannelClass, glue.ChannelBand, glue.Bandwidth,
         glue.ActionCondition, glue.StorageClass, glue.InterfaceType, glue.QueryType, glue.ArithComparisonType, glue.SystemFileIds, glue.EngineeringModeMode,
         MessageType, FrameType]

def members():
  out = []
  for e in ENUMS: out += list(e)
  return out

TABLES = {}
def setup(ctx, tier): TABLES.update(objects.structures(tier))

def cases(tier):
  for how, acts in objects.command_cases(tier): yield ["cmd", how, acts]
  for tag in range(256): yield ["tag", tag]
  for i in range(len(members())): yield ["enum", i]
  for n, i, how in objects.objects(tier): yield ["obj", n, i, how]

def trip(o, ctx, what):
  s = ctx.guard(lambda: jsonpickle.encode(o), "encoding %s" % what)
  ctx.step(2)
  ctx.nontrivial.add(s)
  return ctx.guard(lambda: jsonpickle.decode(s), "decoding %s" % what)

FLAGS = ("tag_id", "generate_tag_request_action", "send_tag_response_when_completed", "execution_completed")

def command(c, ctx, what):
  before = glue.by(c)
  content = norm(glue.model_of(c))
  for o in (c, [c, c], {"a": c}):
    d = trip(o, ctx, what)
    for x in ([d] if o is c else d if isinstance(o, list) else [d["a"]]):
      ctx.check(type(x) is type(c), "%s became a %s" % (what, type(x)))
      ctx.eq(mc.hexs(ctx.guard(lambda: glue.by(x), "serializing %s after JSON" % what)), mc.hexs(before), "bytes of %s after JSON" % what)
      ctx.eq(norm(glue.model_of(x)), content, "content of %s after JSON" % what)
      ctx.eq([getattr(x, f) for f in FLAGS], [getattr(c, f) for f in FLAGS], "flags of %s after JSON" % what)
      ctx.eq(getattr(x, "completed_with_error", None), getattr(c, "completed_with_error", None), "error flag of %s" % what)
  ctx.eq(glue.by(c), before, "bytes of %s, which was encoded" % what)
  ctx.trace(what)

def run(case, ctx):
  kind = case[0]
  if kind == "cmd":
    acts = [glue.tup(a) for a in case[2]]
    c = objects.command(case[1], acts)
    if c is None: return
    command(c, ctx, "%s command %s" % (case[1], mc.short(acts)))
  elif kind == "tag":
    for f in (False, True):
      command(glue.Command(tag_id=case[1], send_tag_response_when_completed=f), ctx, "tag %d %s" % (case[1], f))
      for e in (False, True):
        command(glue.parse_alp(alpdiff.enc([("tagresp", f, e, case[1]), ("return", False, False, 0x40, 0, [case[1]])]))[0], ctx, "response tag %d %s %s" % (case[1], f, e))
  elif kind == "enum":
    ms = members()
    m = ms[case[1]]
    d = trip(m, ctx, "%s" % m)
    ctx.check(d is m, "%r became %r" % (m, d))
    for x in ms:
      pair = trip([m, x, m, {"k": x}], ctx, "[%s, %s]" % (m, x))
      ctx.check(len(pair) == 4 and pair[0] is m and pair[1] is x and pair[2] is m and pair[3]["k"] is x, "%r became %r" % ([m, x, m, {"k": x}], pair))
    ctx.trace(str(m))
  else:
    n, i, how = case[1:]
    o = objects.make(TABLES, n, i, how)
    read = TABLES[n][1]
    what = "%s %s %d" % (how, n, i)
    before, fields = glue.by(o), norm(read(o))
    d = trip(o, ctx, what)
    ctx.check(type(d) is type(o), "%s became a %s" % (what, type(d)))
    ctx.eq(mc.hexs(ctx.guard(lambda: glue.by(d), "serializing %s after JSON" % what)), mc.hexs(before), "bytes of %s after JSON" % what)
    ctx.eq(norm(read(d)), fields, "fields of %s after JSON" % what)
    ctx.trace(what)
