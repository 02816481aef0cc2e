"""C14-C18: trace levels and RNG streams against spec/Levels.tla."""
import random
from drive import *
from common import *
import levels
from turns import Turns, together, crossings, cross

JAXK = {"jax.jit", "jax.checkpoint", "jax.eval_shape", "lax.scan", "nnx.scan", "nnx.remat"}
ALL = set(levels.KINDS)
MODOPS = ["new", "set", "set", "setw", "del", "addd", "sow", "sow", "adopt", "upd", "pop", "copy", "clone", "part", "merge"]
CTXOPS = ["ctx", "stream", "draw", "draw", "draw", "fork", "cmerge", "ccopy", "has", "flag"]
PROFILES = {
    # alphabet of the exhaustive part, its transforms and length, operations of the random part
    "C14": dict(abc={"new", "enter", "exit", "clone", "copy"}, kinds=ALL, k=3, sim=MODOPS * 2 + ["enter"] * 8 + ["ret"] * 4 + ["exit"] * 2),
    "C15": dict(abc={"ctx", "enter", "exit", "fork", "cmerge", "new"}, kinds=ALL, k=3, sim=CTXOPS * 2 + ["new", "enter", "enter", "enter", "enter", "ret", "ret", "exit"] * 2),
    "C16": dict(abc={"new", "ctx", "enter", "exit"}, kinds=ALL, k=4, sim=["new", "ctx", "set", "draw"] + ["enter"] * 8 + ["ret"] * 3 + ["exit"] * 3),
    "C17": dict(abc={"ctx", "draw", "fork", "cmerge", "ccopy"}, kinds=set(), k=5, sim=CTXOPS * 3 + ["many", "enter", "ret", "new"]),
    "C18": dict(abc={"ctx", "draw", "fork", "cmerge", "ccopy", "stream"}, kinds=set(), k=4, sim=CTXOPS * 3 + ["enter", "ret", "new"]),
}
SIZES = {  # replayed exhaustive scripts, random histories, their length: quick / thorough
    "C14": ((300, 200, 40), (3000, 1200, 60)),
    "C15": ((300, 200, 40), (3000, 1500, 60)),
    "C16": ((300, 150, 40), (4000, 1200, 60)),
    "C17": ((300, 300, 60), (6000, 4000, 90)),
    "C18": ((250, 250, 60), (6000, 4000, 90)),
}


def execute(ops):
  return levels.Exec(levels.scripted(ops)).run()


def threaded(r, scripts, p=0.0):
  t = Turns(r, len(scripts))
  exs = [levels.Exec(levels.scripted(ops), lambda i=i: t.turn(i)) for i, ops in enumerate(scripts)]
  for ex in exs:
    ex.main = False
  for ex, e in zip(exs, together(t, [ex.run for ex in exs], p)):
    if e is not None:  # the bookkeeping broke down: judge what was seen so far
      ex.evs.append({"op": {"o": "lost"}, "res": {"t": "none"}, "mods": [], "x": repr(e)})
  return [ex.evs for ex in exs], t.switches


LOST = {"op": {"o": "lost"}, "res": {"t": "none"}, "mods": []}


def apart(ops, turn):
  ex = levels.Exec(levels.scripted(ops), turn)
  ex.main = False
  return ex


def crossed(c, scripts, n, cap):
  """pairs of short histories, the first stopped at every line of nnx it passes while the other takes place"""
  r = rng(c.seed, c.pid, "cross")
  kinds = lambda ops: sum(op["o"] in ("enter", "draw", "fork") for op in ops)
  scripts = sorted(scripts, key=lambda s: json.dumps(s))
  top = [s for s in scripts if kinds(s) >= 2]
  pairs = [(r.choice(top), r.choice(top)) for _ in range(n)]
  parts = timely(c, lambda ip: crossings(rng(c.seed, c.pid, "lines", ip[0]), apart, [ip[1]], cap), enumerate(pairs))
  jobs = [(i, *job[1:]) for i, js in enumerate(parts) for job in js]
  out = timely(c, lambda job: cross(apart, job, LOST), jobs)
  c.extra["crossings"] = len(jobs)
  return [{"id": "x%d_%d" % (j, i), "evs": e, "script": jobs[j][1 + i]} for j, evs in enumerate(out) for i, e in enumerate(evs)]


def run_sims(c):
  """random histories around rematerialised functions drawing from contexts"""
  kinds = os.path.join(c.work, "kinds.json")
  with open(kinds, "w") as f:
    json.dump(["ctx", "ctx", "new", "stream", "draw", "draw", "draw", "setw", "sow", "fork"] + ["enter"] * 6 + ["ret"] * 6, f)
  n = 1500 if c.thorough else 80
  sims = scripts_of(c.tlc("MC_Levels", cfg("SpecSim", ["Prop"], {"K": 40, "Alphabet": {"new"}, "Kinds": {"nnx.remat", "nnx.jit", "jax.grad"}}),
                          {"SIMKINDS": kinds}, workers="1", args=("-simulate", "num=%d" % n, "-depth", "42", "-seed", str(c.seed))))
  c.validate("TraceLevels", replay(c, sims, execute, n, "remat"), lambda op, clause, v: True)


def run(c):
  p = PROFILES[c.pid]
  cap, nsim, k = SIZES[c.pid][c.thorough]
  const = lambda K: {"K": K, "Alphabet": p["abc"], "Kinds": p["kinds"] or {"nnx.jit", "jax.jit"}}
  kinds = os.path.join(c.work, "kinds.json")
  with open(kinds, "w") as f:
    json.dump(p["sim"], f)
  lines = c.tlc("MC_Levels", cfg("SpecAll", ["Prop", "Emit"], const(p["k"] + c.thorough), view="View"), {"SIMKINDS": kinds})
  foc = lambda op, clause, v: True
  tr = replay(c, scripts_of(lines), execute, cap)
  sims = scripts_of(c.tlc("MC_Levels", cfg("SpecSim", ["Prop"], const(k)), {"SIMKINDS": kinds}, workers="1",
                          args=("-simulate", "num=%d" % nsim, "-depth", str(k + 2), "-seed", str(c.seed))))
  tr += replay(c, sims, execute, nsim, "sim")
  if c.pid in ("C16", "C18"):
    r = rng(c.seed, c.pid, "threads")
    groups = 160 if c.thorough else 12
    jobs = [(g, r.sample(sims, min(4, len(sims))), rng(c.seed, c.pid, "turns", g)) for g in range(groups)]

    def go(job):
      evs, n = threaded(job[2], job[1], 0.03 if job[0] % 2 else 0.0)
      return [{"id": "th%d_%d" % (job[0], i), "evs": e} for i, e in enumerate(evs)], n
    for some, n in timely(c, go, jobs, ([], 0)):
      tr += some
      c.extra["handovers"] = c.extra.get("handovers", 0) + n
    c.extra["threaded_groups"] = groups
    tr += crossed(c, scripts_of(lines), 120 if c.thorough else 12, 10**6 if c.thorough else 90)
  c.validate("TraceLevels", tr, foc)
