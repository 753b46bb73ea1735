#!/usr/bin/env python3
"""Explores one property of /repo.   check.py PROP [--tier quick|thorough] [--replay FILE]

exit 0: held on everything explored;  exit 1: VIOLATION line printed;  exit 2: the check itself failed."""
import argparse, importlib.util, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
JYTHON = "/usr/share/java/jython.jar"
KNOWN = os.path.join(HERE, "known_findings.txt")

def known_findings(prop):
  """lines:  known: property=<id> sig=<signature> <what fails>"""
  out = {}
  if os.path.exists(KNOWN):
    for line in open(KNOWN):
      if line.startswith("known:"):
        _, p, s, what = line.strip().split(" ", 3)
        if p == "property=" + prop: out[s[len("sig="):]] = what
  return out

def meta(prop):
  """RULE, ASSUMPTIONS, EXHAUSTIVE of a property module, without importing it"""
  import ast
  out = {}
  for node in ast.parse(open(os.path.join(HERE, "jy", "props", prop + ".py")).read()).body:
    if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
      try: out[node.targets[0].id] = ast.literal_eval(node.value)
      except ValueError: pass
  return out

def main():
  ap = argparse.ArgumentParser()
  ap.add_argument("prop")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--replay")
  ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
  args = ap.parse_args()
  prop, tier = args.prop, args.tier
  seed = int(os.environ.get("VERIF_SEED", "1"))
  t0 = time.time()
  info = meta(prop)
  n = 1 if args.replay else min(args.workers, info.get("MAX_WORKERS", 64))
  tmp = tempfile.mkdtemp(prefix="verif-")
  known = known_findings(prop)
  env = dict(os.environ, VERIF_KNOWN=json.dumps(sorted(known)), PYTHONDONTWRITEBYTECODE="1")
  env.pop("JAVA_TOOL_OPTIONS", None)
  jvm = ["java", "-XX:+UseSerialGC", "-Xss%s" % info.get("XSS", "2m"), "-Xmx%s" % info.get("XMX", "1500m")]
  if tier == "quick" or info.get("C1_ONLY"): jvm.append("-XX:TieredStopAtLevel=1")
  path = JYTHON
  if info.get("LINES"):
    path += ":" + tmp
    subprocess.run(["javac", "-cp", JYTHON, "-d", tmp, os.path.join(HERE, "java", "LineTrace.java")], check=True, stdin=subprocess.DEVNULL)
  jvm += ["-cp", path, "-Dpython.home=/usr/share/jython", "-Dpython.cachedir.skip=true", "-Dpython.console=",
          "org.python.util.jython", "-B", os.path.join(HERE, "jy", "worker.py")]
  procs = []
  try:
    for k in range(n):
      cmd = jvm + [prop, tier, str(k), str(n), os.path.join(tmp, "r%d" % k)]
      if args.replay: cmd.append(os.path.abspath(args.replay))
      if info.get("LINES"):  # threads of one worker hand over to each other all the time: keep them on one core
        cores = sorted(os.sched_getaffinity(0))
        if len(cores) >= n and shutil.which("taskset"): cmd = ["taskset", "-c", str(cores[k])] + cmd
      procs.append(subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                    stderr=open(os.path.join(tmp, "e%d" % k), "w"), cwd=tmp))
    for p in procs: p.wait()
    results, states = [], set()
    for k in range(n):
      path = os.path.join(tmp, "r%d" % k)
      if not os.path.exists(path):
        sys.stdout.write("check %s: worker %d failed (exit %s)\n" % (prop, k, procs[k].returncode))
        sys.stdout.write(open(os.path.join(tmp, "e%d" % k)).read()[-4000:])
        return 2
      results.append(json.load(open(path)))
      raw = open(path + ".states", "rb").read()
      states.update(raw[i:i + 8] for i in range(0, len(raw), 8))
  finally:
    for p in procs:
      if p.poll() is None: p.kill()
    shutil.rmtree(tmp, ignore_errors=True)

  violations = sorted((r["violation"] for r in results if r["violation"]), key=lambda v: v["index"])
  if args.replay:
    if violations:
      print("reproduced: " + violations[0]["msg"])
      print("VIOLATION property=%s replay=%s" % (prop, args.replay))
      return 1
    print("not reproduced: the property held")
    return 0

  total = lambda key: sum(r[key] for r in results)
  seen = {}
  extra = {}
  for r in results:
    for s, c in r["known_seen"].items(): seen[s] = seen.get(s, 0) + c
    for s, c in r["extra"].items(): extra[s] = extra.get(s, 0) + c
  coverage = {
    "states": len(states), "transitions": total("transitions"), "traces_validated_against_impl": total("compared"),
    "evaluations": total("cases"), "distinct_nontrivial": total("nontrivial") or len(states),
    "rule": info.get("RULE", ""), "samples": [s for r in results for s in r["samples"]][:6],
    "exhaustive": not violations and not any(r.get("truncated") for r in results),
  }
  if extra: coverage["detail"] = extra
  if seen: coverage["known_findings_seen"] = seen
  evidence = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": coverage,
              "assumptions": info.get("ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2),
              "violations": len(violations)}
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f: json.dump(evidence, f, indent=1)

  for s in sorted(known):
    if s in seen: print("KNOWN-FINDING: property=%s %s" % (prop, known[s]))
  if violations:
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    path = os.path.join(HERE, "out", prop + ".json")
    v = violations[0]
    with open(path, "w") as f: json.dump({"property": prop, "case": v["case"], "msg": v["msg"]}, f, indent=1)
    print("case: " + json.dumps(v["case"])[:2000])
    print("what: " + v["msg"][:3000])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
  print("%s held: %d cases, %d states, %d transitions, %.1f s" % (prop, coverage["evaluations"], coverage["states"],
                                                                coverage["transitions"], time.time() - t0))
  return 0

sys.exit(main())
