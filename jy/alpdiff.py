"""ALP decoding of the implementation against the reference decoder."""
import ref, mc, glue
from glue import norm

def expect(bs):
  """("ok", model) | ("reject", why) | ("unspecified",)"""
  try:
    acts = ref.dec_actions(bs)
    return ("ok", ref.command_model(acts), acts)
  except ref.Short: return ("reject", "truncated")
  except ref.Bad as e: return ("reject", str(e))
  except ref.Unspecified: return ("unspecified",)

TAILS = ([], [0xC0, 0x00, 0x01, 0xFF, 0x80], [0x34, 0x21])

def decoded(bs, model, ctx, tails=TAILS[:1]):
  """bs has to be decoded as model, consuming exactly bs"""
  for tail in tails:
    cmd, n = ctx.guard(lambda: glue.parse_alp(bs, tail), "decoding %s followed by [%s]" % (mc.hexs(bs), mc.hexs(tail)))
    ctx.step()
    ctx.eq(n, len(bs), "bytes consumed of %s followed by [%s]" % (mc.hexs(bs), mc.hexs(tail)))
    got = ctx.guard(lambda: glue.model_of(cmd), "content of decoded %s" % mc.hexs(bs))
    want = dict((k, model[k]) for k in ("tag", "status", "actions", "completed"))
    ctx.eq(norm(got), norm(want), "decoding of %s followed by [%s]" % (mc.hexs(bs), mc.hexs(tail)))
    ctx.eq(bool(cmd.execution_completed), model["completed"], "completed flag")
    if model["error"] is not None: ctx.eq(cmd.completed_with_error, model["error"], "error flag of %s" % mc.hexs(bs))
    if model["respond"] is not None:
      ctx.eq(cmd.send_tag_response_when_completed, model["respond"], "response flag of %s" % mc.hexs(bs))
  return cmd

def rejected(bs, why, ctx):
  ctx.step()
  try:
    cmd, n = glue.parse_alp(bs)
  except Exception:
    return
  ctx.fail("%s (%s) was decoded as %s" % (mc.hexs(bs), why, mc.short(norm(glue.model_of(cmd)))))

def enc(acts, lsize=None):
  out = []
  for a in acts: out += ref.enc_action(a, lsize)
  return out

def changes(bs):
  """every single-bit change, and every byte replaced by significant values"""
  for i in range(len(bs)):
    for v in mc.uniq([bs[i] ^ (1 << k) for k in range(8)] + [0, 0xFF, 0x7F, 0x80, 0xC0, (bs[i] + 1) & 0xFF, (bs[i] - 1) & 0xFF]):
      if v != bs[i]: yield bs[:i] + [v] + bs[i + 1:]
