"""One shard of an exploration.  usage: worker.py PROP TIER SHARD NSHARDS OUT [REPLAY-CASE.json]"""
import sys, os, json, time, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
sys.path[0:0] = [HERE, os.path.join(HERE, "stubs"), "/opt/jydeps/site", REPO]

def main():
  prop, tier, shard, nshards, out = sys.argv[1:6]
  shard, nshards = int(shard), int(nshards)
  import logging
  logging.disable(logging.CRITICAL)
  import mc
  known = json.loads(os.environ.get("VERIF_KNOWN", "[]"))
  ctx = mc.Ctx(known)
  result = {"violation": None, "cases": 0}
  t0 = time.time()

  def finish(code):
    result.update(transitions=ctx.transitions, compared=ctx.compared, cases=ctx.cases, nontrivial=len(ctx.nontrivial),
                  samples=ctx.samples[:3], known_seen=ctx.known_seen, extra=ctx.extra, wall=time.time() - t0)
    with open(out + ".states", "wb") as f:
      for h in ctx.states: f.write(h)
    with open(out + ".tmp", "w") as f: f.write(json.dumps(result))
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    sys.stderr.flush()
    from java.lang import Runtime
    Runtime.getRuntime().halt(code)

  __import__("props." + prop)
  mod = sys.modules["props." + prop]
  limit = getattr(mod, "HANG_SECONDS", 60)

  def cpu():
    with open("/proc/self/stat") as f: fields = f.read().rsplit(")", 1)[1].split()
    return (int(fields[11]) + int(fields[12])) / 100.0

  def watchdog():
    # a step that takes this much processor time, or does nothing at all for that long; not one that is merely slow
    last, since, wall = None, 0.0, 0.0
    while True:
      time.sleep(1)
      now = (ctx.current, ctx.last_tick, ctx.transitions, ctx.compared, len(ctx.states))
      used = cpu()
      if now != last or ctx.current is None: last, since, wall = now, used, time.time()
      spent, passed = used - since, time.time() - wall
      if spent > limit or passed > 2 * limit and spent < 0.03 * passed:
        result["violation"] = {"index": ctx.current[0], "case": ctx.current[1], "sig": None,
                               "msg": "no answer within %d seconds" % limit}
        finish(0)
  wd = threading.Thread(target=watchdog)
  wd.daemon = True
  wd.start()

  # what the code under test prints is of no interest, and mixes with what the checks print
  class Sink(object):
    def write(self, s): pass
    def flush(self): pass
  real_stdout, sys.stdout = sys.stdout, Sink()

  if len(sys.argv) > 6:
    with open(sys.argv[6]) as f: todo = iter([(0, json.load(f)["case"])])
  else:
    def gen():
      for i, c in enumerate(mod.cases(tier)):
        if i % nshards == shard: yield i, c
    todo = gen()
  try:
    if hasattr(mod, "setup"): mod.setup(ctx, tier)
    budget = float(os.environ.get("VERIF_BUDGET", "0"))
    for i, case in todo:
      ctx.cases += 1
      case = json.loads(json.dumps(case)) # exactly what a replay will see
      ctx.current = (i, case)
      ctx.tick()
      try:
        mod.run(case, ctx)
        if len(ctx.samples) < 3: ctx.samples.append(case)
      except mc.Violation as v:
        result["violation"] = {"index": i, "case": getattr(v, "case", None) or case, "msg": v.msg, "sig": v.sig}
        break
      except Exception as e:
        result["violation"] = {"index": i, "case": case, "sig": None,
          "msg": "unexpected %s: %s | %s" % (e.__class__.__name__, e,
                 " / ".join(l.strip() for l in traceback.format_exc().splitlines()[-7:]))}
        break
      if budget and time.time() - t0 > budget:
        result["truncated"] = True
        break
    ctx.current = None
  except BaseException:
    sys.stdout = real_stdout
    traceback.print_exc()
    sys.stderr.flush()
    from java.lang import Runtime
    Runtime.getRuntime().halt(3)
  finish(0)

main()
