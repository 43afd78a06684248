"""
One check:  python3 check.py C01 [--replay FILE] [--runs N]

Simulates a fixed number of seeded runs on 8 worker processes, minimises the
first violation, writes its replay file and re-executes that file in a fresh
process.  Exit 0: held on everything explored; 1: violation; 2: harness error.
"""

import argparse
import gc
import hashlib
import json
import mmap
import os
import select
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
WORKERS = 8
NONE = (1 << 63) - 1
HANG_S = 90.0  # wall seconds without progress before a run is re-examined
WALL_CAP = {"quick": 600.0, "thorough": 5400.0}


def run_seed(seed, prop, i):
	h = hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()
	return int.from_bytes(h[:6], "big")


def env_for_child(hashseed="0"):
	e = dict(os.environ)
	for k in list(e):
		if k.startswith("PYTHON"):
			del e[k]
	e["PYTHONHASHSEED"] = hashseed
	e["PYTHONDONTWRITEBYTECODE"] = "1"
	e["VERIF_CHILD"] = "1"
	return e


def log(*a):
	print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------------------
# Simulation (worker side)
# ---------------------------------------------------------------------------

_ready = False
_since_gc = 0


def setup():
	global _ready
	if not _ready:
		import sched
		import loader
		sched.virtualise()
		loader.install()
		loader.fresh()
		sched.setup_monitoring(loader.compiled())
		# The collector would run finalisers at times no seed decides.
		gc.collect()
		gc.freeze()
		sched.real_gc["disable"]()
		sys.unraisablehook = sched.unraisable
		_ready = True


class Outcome:
	def __init__(self, kind, msg, dec=None, eng=None):
		self.kind = kind
		self.msg = msg
		self.dec = dec
		self.eng = eng


def simulate(prop, sc, kinds):
	"""Run one scenario; an :class:`Outcome`."""
	if prop == "C13":
		import prebuild_sim
		return prebuild_sim.simulate(sc)
	setup()
	import engine
	global _since_gc
	_since_gc += 1
	if _since_gc >= 25:
		_since_gc = 0
		gc.collect()
	e = engine.Engine(sc, kinds)
	e.run()
	v = e.viol
	return Outcome(v.kind if v else None, v.msg if v else None, e.sim.decider.log, e)


def generate(prop, seed):
	if prop == "C13":
		import prebuild_sim
		return prebuild_sim.generate(seed)
	import gen
	return gen.generate(prop, seed)


class Tally:
	"""Coverage counters of one worker."""

	def __init__(self):
		self.d = {"runs": 0, "events": 0, "switches": 0, "blocks": 0, "sim_s": 0.0, "nontrivial": 0}
		self.faults = {}
		self.probes = {}
		self.ops = {}
		self.sigs = set()
		self.scheds = set()

	def add(self, sc, out):
		d = self.d
		d["runs"] += 1
		e = out.eng
		faults = e.stats["faults"]
		for k, v in faults.items():
			self.faults[k] = self.faults.get(k, 0) + v
		for k, v in e.stats["probes"].items():
			self.probes[k] = self.probes.get(k, 0) + v
		for k, v in e.stats.items():
			if isinstance(v, int):
				self.ops[k] = self.ops.get(k, 0) + v
		st = e.sim.stats
		d["events"] += st["events"]
		d["switches"] += st["preempt"]
		d["blocks"] += st["block"] + st["sleep"]
		d["sim_s"] += e.sim.now
		if st["preempt"] or faults or e.stats["probes"]:
			d["nontrivial"] += 1
			s = e.sig.copy()
			self.scheds.add(s.digest()[:8])
			s.update(b"%d" % sc["seed"])
			self.sigs.add(s.digest()[:8])

	def dump(self):
		return {"d": self.d, "faults": self.faults, "probes": self.probes, "ops": self.ops,
			"sigs": b"".join(sorted(self.sigs)).hex(), "scheds": b"".join(sorted(self.scheds)).hex()}


def worker(prop, seed, w, total, shm_path, wall):
	"""Simulate runs w, w+8, w+16, ...; report on stdout as JSON lines."""
	from props import PROPS
	kinds = PROPS[prop]["kinds"]
	out = os.fdopen(os.dup(1), "w", buffering=1)
	os.dup2(2, 1)
	with open(shm_path, "r+b") as fh:
		shm = mmap.mmap(fh.fileno(), 8 + 16 * WORKERS)
	tally = Tally()
	samples = []
	t0 = time.monotonic()
	i = w
	n = 0
	viol = None
	while i < total:
		if struct.unpack_from("<q", shm, 0)[0] < i:
			break
		n += 1
		# Progress: the run, and an odd number while it is being simulated.
		struct.pack_into("<qq", shm, 8 + 16 * w, i, 2 * n)
		s = run_seed(seed, prop, i)
		sc = generate(prop, s)
		struct.pack_into("<q", shm, 16 + 16 * w, 2 * n + 1)
		o = simulate(prop, sc, kinds)
		tally.add(sc, o)
		if len(samples) < 2 and (o.eng.sim.stats["preempt"] or o.eng.stats["faults"]):
			samples.append(o.eng.sample())
		if o.kind:
			viol = {"i": i, "seed": s, "kind": o.kind, "msg": o.msg}
			struct.pack_into("<q", shm, 0, min(i, struct.unpack_from("<q", shm, 0)[0]))
			break
		i += WORKERS
		if n % 16 == 0 and time.monotonic() - t0 > wall:
			break
	struct.pack_into("<qq", shm, 8 + 16 * w, NONE, 2 * n + 2)
	r = tally.dump()
	r["viol"] = viol
	r["samples"] = samples
	out.write(json.dumps(r) + "\n")
	out.close()
	# Do not wait for anything the code under test may have left running.
	os._exit(0)


# ---------------------------------------------------------------------------
# Batch (master side)
# ---------------------------------------------------------------------------

def batch(prop, seed, total, tier, only=None, upto=None):
	"""Run the workers; ``(merged tallies, violation or None, hung or None)``."""
	shm_path = os.path.join(VERIF, "evidence", ".shm-%s-%d" % (prop, os.getpid()))
	with open(shm_path, "wb") as fh:
		fh.write(struct.pack("<q", NONE if upto is None else upto) + struct.pack("<qq", -1, 0) * WORKERS)
	procs = {}
	bufs = {}
	try:
		with open(shm_path, "r+b") as fh:
			shm = mmap.mmap(fh.fileno(), 8 + 16 * WORKERS)
		for w in range(WORKERS):
			if only is not None and w != only:
				continue
			p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "check.py"), prop, "--worker", str(w),
				"--seed", str(seed), "--runs", str(total), "--shm", shm_path, "--wall", str(WALL_CAP[tier])],
				stdout=subprocess.PIPE, env=env_for_child(), cwd=HERE, start_new_session=True)
			procs[w] = p
			bufs[w] = b""
		seen = {}
		live = set(procs)
		hung = None
		while live:
			fds = {procs[w].stdout.fileno(): w for w in live}
			r, _, _ = select.select(list(fds), [], [], 1.0)
			for fd in r:
				w = fds[fd]
				data = os.read(fd, 1 << 16)
				if data:
					bufs[w] += data
				else:
					live.discard(w)
			now = time.monotonic()
			for w in list(live):
				cur = struct.unpack_from("<qq", shm, 8 + 16 * w)
				if seen.get(w, (None, 0))[0] != cur:
					seen[w] = (cur, now)
				elif now - seen[w][1] > HANG_S and cur[0] != NONE and not cur[1] & 1:
					raise SystemExit2("run %d was not even generated within %d s" % (cur[0], HANG_S))
				elif now - seen[w][1] > HANG_S and cur[0] != NONE:
					if hung is None or (0 <= cur[0] < hung):
						hung = cur[0]
					os.killpg(procs[w].pid, signal.SIGKILL)
					live.discard(w)
					bufs[w] = b""
					m = struct.unpack_from("<q", shm, 0)[0]
					struct.pack_into("<q", shm, 0, min(m, max(cur[0], 0)))
		errors = []
		results = []
		for w, p in procs.items():
			rc = p.wait()
			if rc == 0 and bufs[w]:
				results.append(json.loads(bufs[w]))
			elif rc != -signal.SIGKILL or hung is None:
				errors.append("worker %d ended with %d" % (w, rc))
		shm.close()
	finally:
		for p in procs.values():
			if p.poll() is None:
				os.killpg(p.pid, signal.SIGKILL)
		os.unlink(shm_path)
	if errors:
		raise SystemExit2("; ".join(errors))
	viols = [r["viol"] for r in results if r["viol"]]
	viol = min(viols, key=lambda v: v["i"]) if viols else None
	if viol and hung is not None and viol["i"] < hung:
		hung = None
	return results, viol, hung


class SystemExit2(Exception):
	pass


def merge(results):
	d, faults, probes, ops = {}, {}, {}, {}
	sigs, scheds = set(), set()
	samples = []
	for r in results:
		for src, dst in ((r["d"], d), (r["faults"], faults), (r["probes"], probes), (r["ops"], ops)):
			for k, v in src.items():
				dst[k] = dst.get(k, 0) + v
		for name, s in (("sigs", sigs), ("scheds", scheds)):
			b = bytes.fromhex(r[name])
			s.update(b[i:i + 8] for i in range(0, len(b), 8))
		samples += r["samples"]
	return d, faults, probes, ops, len(sigs), len(scheds), samples


# ---------------------------------------------------------------------------
# Replays
# ---------------------------------------------------------------------------

def replay_child(prop, path, timeout=300):
	"""Replay in a fresh process: ``(rc, line)``."""
	p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "check.py"), prop, "--replay", path],
		stdout=subprocess.PIPE, env=env_for_child(), cwd=HERE, start_new_session=True)
	try:
		out, _ = p.communicate(timeout=timeout)
	except subprocess.TimeoutExpired:
		os.killpg(p.pid, signal.SIGKILL)
		p.wait()
		return None, ""
	return p.returncode, out.decode("utf-8", "replace")


def do_replay(prop, path):
	from props import PROPS
	with open(path) as fh:
		rp = json.load(fh)
	if prop == "C12":
		import replica
		msg = replica.replay(rp)
		if msg:
			print("VIOLATION property=%s replay=%s" % (prop, path))
			print("  diverged: %s" % msg)
			return 1
		print("not reproduced: the property held")
		return 0
	if "batch" in rp:
		b = rp["batch"]
		_, viol, hung = batch(prop, b["seed"], b["total"], "quick", only=b["worker"], upto=b["i"])
		if viol:
			print("VIOLATION property=%s replay=%s" % (prop, path))
			print("  %s: %s" % (viol["kind"], viol["msg"]))
			return 1
		print("not reproduced")
		return 0
	if rp.get("hang_s") and not os.environ.get("VERIF_INNER"):
		p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "check.py"), prop, "--replay", path],
			env=dict(env_for_child(), VERIF_INNER="1"), cwd=HERE, start_new_session=True)
		try:
			return p.wait(rp["hang_s"])
		except subprocess.TimeoutExpired:
			os.killpg(p.pid, signal.SIGKILL)
			print("VIOLATION property=%s replay=%s" % (prop, path))
			print("  stuck: the run does not end within %d s" % rp["hang_s"])
			return 1
	o = simulate(prop, rp["scenario"], PROPS[prop]["kinds"])
	if o.kind:
		print("VIOLATION property=%s replay=%s" % (prop, path))
		print("  %s: %s" % (o.kind, o.msg))
		if o.kind == "stuck":
			sys.stdout.flush()
			os._exit(1)
		return 1
	print("not reproduced: the property held")
	return 0


def write_replay(prop, name, rp):
	d = os.path.join(VERIF, "evidence", "replays")
	os.makedirs(d, exist_ok=True)
	path = os.path.join(d, "%s-%s.json" % (prop, name))
	with open(path, "w") as fh:
		json.dump(rp, fh, indent=1)
		fh.write("\n")
	return path


def handle_violation(prop, seed, tier, total, i, hung):
	"""Minimise run *i* in a child, verify the replay file; ``(path, text)``."""
	s = run_seed(seed, prop, i)
	name = "s%d-i%d" % (seed, i)
	child = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "check.py"), prop, "--minimise", str(s),
		"--name", name] + (["--hung"] if hung else []),
		stdout=subprocess.PIPE, env=env_for_child(), cwd=HERE, start_new_session=True)
	try:
		out, _ = child.communicate(timeout=240)
	except subprocess.TimeoutExpired:
		os.killpg(child.pid, signal.SIGKILL)
		child.wait()
		out = b""
	# The minimiser writes its best replay file as it goes, and names it here.
	for cand in (os.path.join(VERIF, "evidence", "replays", "%s-%s%s.json" % (prop, name, x)) for x in ("-min", "")):
		if os.path.exists(cand):
			rc, text = replay_child(prop, cand)
			if rc == 1 and "VIOLATION" in text:
				return cand, text
	if hung:
		# Not even the step bound stops it: an endless loop outside the bytecode
		# the simulator steps.  Judged by wall time, twice, far above any real run.
		sc = dict(generate(prop, s), trace=True)
		path = write_replay(prop, name + "-hang", {"property": prop, "seed": s, "scenario": sc, "kind": "stuck",
			"message": "run %d never ends" % i, "hang_s": 60})
		for _ in range(2):
			rc, text = replay_child(prop, path)
			if rc != 1:
				return None, "run %d never ended in the batch" % i
		return path, text
	# Not a function of the run alone (say, of object addresses): replay the
	# whole sequence of runs of that worker.
	path = write_replay(prop, name + "-batch", {"property": prop, "batch": {
		"seed": seed, "total": total, "worker": i % WORKERS, "i": i}})
	for _ in range(3):
		rc, text = replay_child(prop, path, timeout=WALL_CAP[tier])
		if rc == 1:
			return path, text
	return None, "run %d failed in the batch, but neither it nor its batch fails again" % i


def forked(prop, sc, kinds, timeout=20):
	r, w = os.pipe()
	pid = os.fork()
	if pid == 0:
		try:
			o = simulate(prop, sc, kinds)
			os.write(w, json.dumps([o.kind, o.msg, o.dec]).encode())
		finally:
			os._exit(0)
	os.close(w)
	data = b""
	end = time.monotonic() + timeout
	while True:
		ready, _, _ = select.select([r], [], [], max(0, end - time.monotonic()))
		b = os.read(r, 1 << 20) if ready else b""
		if not b:
			break
		data += b
	os.close(r)
	try:
		os.kill(pid, signal.SIGKILL)
	except ProcessLookupError:
		pass
	os.waitpid(pid, 0)
	return Outcome(*json.loads(data)) if data else Outcome(None, None)


def minimise_main(prop, s, name, hung):
	import minimise
	from props import PROPS
	sc = generate(prop, s)
	if hung:
		sc = dict(sc, trace=True)
	rp = {"property": prop, "seed": s, "scenario": sc, "tree": tree_id()}
	kinds = PROPS[prop]["kinds"]
	o = simulate(prop, sc, kinds)
	if not o.kind:
		print("the run does not fail alone")
		return 2
	rp.update(kind=o.kind, message=o.msg)
	write_replay(prop, name, rp)
	run = lambda x: simulate(prop, x, kinds)
	if o.kind == "stuck":
		# Threads of the code under test may be wedged: a process for every try.
		run = lambda x: forked(prop, x, kinds)
	best = minimise.minimise(prop, sc, o, run, deadline=time.monotonic() + 120)
	if best is not None:
		sc2, o2 = best
		rp2 = dict(rp, scenario=sc2, kind=o2.kind, message=o2.msg, minimised=True)
		write_replay(prop, name + "-min", rp2)
	os._exit(0)


def tree_id():
	import loader
	h = hashlib.sha256()
	root = os.path.join(loader.REPO, "sqlparams")
	for n in sorted(os.listdir(root)):
		if n.endswith(".py"):
			with open(os.path.join(root, n), "rb") as fh:
				h.update(n.encode() + b"\0" + fh.read())
	return h.hexdigest()[:16]


# ---------------------------------------------------------------------------

REAL = "sqlparams/*.py, executed from /repo's working tree (unmodified), with CPython's re, itertools, functools"
STUB = ("thread scheduling, threading locks, time, caller containers and row sources are simulated; "
	"the reference model stands in for the specification")


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument("prop")
	ap.add_argument("--replay")
	ap.add_argument("--runs", type=int)
	ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
	ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
	ap.add_argument("--worker", type=int)
	ap.add_argument("--shm")
	ap.add_argument("--wall", type=float, default=600)
	ap.add_argument("--minimise", type=int)
	ap.add_argument("--name")
	ap.add_argument("--hung", action="store_true")
	a = ap.parse_args()
	prop = a.prop
	if not os.environ.get("VERIF_CHILD") and (a.replay or a.worker is not None or a.minimise is not None):
		os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env_for_child())
	if a.worker is not None:
		return worker(prop, a.seed, a.worker, a.runs, a.shm, a.wall)
	if a.replay:
		return do_replay(prop, a.replay)
	if a.minimise is not None:
		return minimise_main(prop, a.minimise, a.name, a.hung)

	from props import PROPS
	tier = "thorough" if a.tier == "thorough" else "quick"
	total = a.runs or PROPS[prop][tier]
	os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
	print("property=%s seed=%d tier=%s runs=%d" % (prop, a.seed, tier, total), flush=True)
	t0 = time.monotonic()
	if prop == "C12":
		import replica
		results, viol, hung = replica.batch(a.seed, total, tier)
	else:
		results, viol, hung = batch(prop, a.seed, total, tier)
	wall = time.monotonic() - t0
	path = text = None
	if viol or hung is not None:
		if prop == "C12" and viol:
			path, text = replica.handle(a.seed, viol)
		else:
			i = hung if hung is not None else viol["i"]
			path, text = handle_violation(prop, a.seed, tier, total, i, hung is not None)
		if path is None and viol:
			# A real observation, even if it cannot be repeated.
			path = write_replay(prop, "unstable-i%d" % viol["i"], {"property": prop, "seed": viol["seed"],
				"scenario": generate(prop, viol["seed"]), "kind": viol["kind"], "message": viol["msg"], "unstable": True})
			text = "VIOLATION (seen once; not reproduced)\n  %s: %s\n" % (viol["kind"], viol["msg"])
		elif path is None:
			raise SystemExit2(text)
	evidence(prop, a.seed, tier, total, results, wall, 1 if path else 0, text)
	if path:
		print("VIOLATION property=%s replay=%s" % (prop, path))
		for line in (text or "").splitlines():
			if not line.startswith("VIOLATION"):
				print(line)
		return 1
	return 0


def evidence(prop, seed, tier, total, results, wall, nviol, text):
	d, faults, probes, ops, nsigs, nscheds, samples = merge(results)
	runs = d.get("runs", 0)
	import describe
	ev = {
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": {
			"evaluations": runs,
			"distinct_nontrivial": nsigs,
			"rule": describe.RULE[prop],
			"samples": samples[:4] or ["(none)"],
			"planned_runs": total,
			"runs_per_hour": round(runs / wall * 3600) if wall else 0,
			"seeds_per_hour": round(runs / wall * 3600) if wall else 0,
			"simulated_instruction_events": d.get("events", 0),
			"simulated_seconds": round(d.get("sim_s", 0.0), 3),
			"context_switches": d.get("switches", 0),
			"blocking_waits": d.get("blocks", 0),
			"nontrivial_runs": d.get("nontrivial", 0),
			"distinct_schedules": nscheds,
			"faults_injected": dict(sorted(faults.items())),
			"probes": dict(sorted(probes.items())),
			"calls": ops,
			"real_components": describe.REAL.get(prop, REAL),
			"stub_components": describe.STUB.get(prop, STUB),
		},
		"assumptions": describe.ASSUMPTIONS.get(prop, describe.ASSUMPTIONS["*"]),
		"wall_s": round(wall, 2),
		"violations": nviol,
	}
	if text:
		ev["coverage"]["violation"] = text[:2000]
	path = os.path.join(VERIF, "evidence", prop + ".json")
	with open(path + ".tmp", "w") as fh:
		json.dump(ev, fh, indent=1)
		fh.write("\n")
	os.replace(path + ".tmp", path)
	print("%d runs (%d distinct non-trivial), %d switches, %d faults, %.1f s" % (
		runs, nsigs, d.get("switches", 0), sum(faults.values()), wall), flush=True)
	if not nviol and runs < total // 4:
		raise SystemExit2("only %d of %d runs fitted the wall-clock cap" % (runs, total))


if __name__ == "__main__":
	try:
		sys.exit(main())
	except SystemExit2 as e:
		print("ERROR: %s" % e, file=sys.stderr)
		sys.exit(2)
	except SystemExit:
		raise
	except BaseException:
		import traceback
		traceback.print_exc()
		sys.exit(2)
