"""C01-C12 and C36: conformance of the module graph operations with spec/Graph.tla."""
import json
from framework import *
from common import rng
import drive
from drive import randoms

# which property an operation's divergence speaks about
OPS = {
    "C01": {"clone", "merge", "pmerge", "part"},
    "C02": {"state"},
    "C03": {"part", "filt", "spart", "sfilt", "pfilt", "ppart"},
    "C04": {"upd"},
    "C05": {"pop"},
    "C06": {"def", "idef", "deq", "dflat"},
    "C07": {"set", "get", "del", "mdict", "mlget", "mlset"},
    "C08": {"apply", "papply", "dapply", "pcall", "run"},
    "C09": {"sow"},
    "C10": {"each", "init"},
    "C11": {"pget", "pfilt", "ppart", "ppop", "pupd", "pmerge"},
    "C12": {"smerge", "sor", "ssub", "smk", "smap", "sflat", "sget"},
    "C36": {"copy", "deepcopy", "pickle", "state", "clone", "each", "set"},
}
ALIAS = {"C02": {"upd", "merge", "pmerge", "clone", "part"}, "C07": {"set", "mlset"}, "C01": {"clone", "merge", "pmerge"}}


def focus(pid):
  def f(op, clause, v):
    if clause == "outside-specification":
      return op in OPS[pid]
    if clause == "alias":
      return op in ALIAS.get(pid, ())
    if clause == "snapshot":
      if pid == "C02":
        return op in ("set", "del", "upd", "pop", "sow", "run", "init", "clone", "merge", "pmerge", "part", "state")
      return op in OPS[pid] and pid in ("C08", "C11", "C12")
    return op in OPS[pid]
  return f


def mc_consts(pid, thorough):
  base = dict(Profile=pid, NMods=2, MaxAttrs=4, MNames={"a", "b"}, Rich=False)
  q = {
      "C01": dict(Rich=False), "C06": dict(NMods=2, MaxAttrs=3), "C07": dict(MaxAttrs=2),
      "C09": dict(MaxAttrs=2), "C10": dict(), "C08": dict(MaxAttrs=3), "C04": dict(MaxAttrs=3),
      "C11": dict(MaxAttrs=3),
  }.get(pid, {})
  t = {
      "C06": dict(NMods=2, MaxAttrs=4, Rich=True), "C07": dict(MaxAttrs=3), "C09": dict(MaxAttrs=3),
  }.get(pid, dict(NMods=3, MaxAttrs=4))
  base.update(t if thorough else q)
  return base


def run_scripts(c, scripts, module_exec, cap):
  """Perform scripts (h: construction, p: probe) on the library; one trace per script."""
  r = rng(c.seed, c.pid, "scripts")
  total = len(scripts)
  scripts = sorted(scripts, key=lambda x: json.dumps(x, sort_keys=True))  # TLC's workers print in any order
  if total > cap:
    scripts = r.sample(scripts, cap)
  jobs = []
  for h, p in scripts:
    sets = [op for op in h if op["o"] != "new"]
    r.shuffle(sets)     # construction order must not matter
    jobs.append(([op for op in h if op["o"] == "new"] + sets, p))

  def performed(job):
    ex = module_exec()
    ex.prefix(job[0])
    for op in job[1]:
      ex.step(op)
    return ex.events
  traces = [{"id": "s%d" % i, "evs": e, "script": h + p} for i, (e, (h, p)) in enumerate(zip(drive.perform(c, performed, jobs), scripts))]
  c.extra["scripts_from_spec"] = total
  c.extra["scripts_replayed"] = len(scripts)
  return traces


def run(c):
  import graph, graph_gen
  pid = c.pid
  # 1. the design, and 2. its behaviours on the code
  consts = mc_consts(pid, c.thorough)
  scripts = []
  if pid != "C12":
    lines = c.tlc("MC_Graph", cfg(invariants=["Prop", "Emit"], view="View", constants=consts))
    for l in lines.get("STATE", []):
      d = unq(l)
      for p in d["p"]:
        scripts.append((d["h"], p))
  if pid in ("C03", "C12"):
    lines = c.tlc("MC_State", cfg(invariants=["Prop", "Emit"], view="View",
                                  constants=dict(Profile=pid, MaxEntries=(4 if c.thorough else 3) if pid == 'C12' else (3 if c.thorough else 2))))
    for l in lines.get("STATE", []):
      d = unq(l)
      for p in d["p"]:
        scripts.append(([], p))
  cap = 60000 if c.thorough else 8000
  traces = run_scripts(c, scripts, graph.Exec, cap)
  c.validate("TraceGraph", traces, focus(pid))
  if traces:
    c.sample({"from": "specification", "script": traces[len(traces) // 2]["script"]}, 1)
  # 3. random histories of the library against the specification
  n, length = (2500, 60) if c.thorough else (500, 30)
  traces = randoms(c, lambda r: graph_gen.history(r, pid, length), n)
  c.validate("TraceGraph", traces, focus(pid))
