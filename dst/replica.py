"""
C12: the same calls in differently configured interpreters.

Eight replica processes execute the same seeded scenarios; each differs from the
others in hash seed, optimisation level, locale, garbage-collector thresholds,
clock, insertion order of the parameters, tracing, and in whether the package
instance survives from run to run.  Digests of every call's outcome must agree.
"""

import collections.abc
import gc
import hashlib
import json
import os
import subprocess
import sys
import types

HERE = os.path.dirname(os.path.abspath(__file__))


def configs(seed):
	h = hashlib.sha256(b"replicas %d" % seed).digest()
	hs = [0] + [int.from_bytes(h[4 * i:4 * i + 4], "big") % 4294967295 for i in range(1, 8)]
	c = [
		{"name": "plain"},
		{"name": "-O", "flags": ["-O", "-bb", "-X", "int_max_str_digits=640"], "moods": True},
		{"name": "C locale", "env": {"LC_ALL": "C", "LANG": "C", "TZ": "UTC-9"}, "flags": ["-X", "utf8=0"], "cwd": "/"},
		{"name": "eager gc, small stack", "gc": 20, "reclimit": 400},
		{"name": "reversed insertion order", "order": 1},
		{"name": "rotated insertion order, no gc, other clock", "order": 2, "gc": 0, "clock": 7e8, "tick": 47.0, "salt": 1,
			"flags": ["-W", "error", "-X", "dev"], "env": {"HOME": "/nonexistent", "USER": "nobody", "COLUMNS": "1", "DEBUG": "1", "CI": "true"}},
		{"name": "-OO, traced", "flags": ["-OO", "-X", "utf8=1"], "trace": True, "salt": 2, "argv": ["-x", "--debug"]},
		{"name": "long-lived package instance", "keep": True, "order": 3, "salt": 3},
	]
	for n, x in enumerate(c):
		x["hashseed"] = hs[n]
	return c


def spawn(cfg, args):
	import check
	e = check.env_for_child(str(cfg["hashseed"]))
	e.update(cfg.get("env", {}))
	return subprocess.Popen([sys.executable, "-B"] + cfg.get("flags", []) + [os.path.join(HERE, "replica.py"),
		json.dumps(cfg)] + args, stdout=subprocess.PIPE, env=e, cwd=cfg.get("cwd", HERE), start_new_session=True)


def execute(cfg, sc, eng_out=None):
	"""Outcome digests of one scenario in this process."""
	import engine
	if cfg.get("trace"):
		sc = dict(sc, trace=True)
	e = engine.Engine(sc, kinds=(), digest=True, env=cfg.get("order", 0))
	e.run()
	return e, sorted(e.results)


class Answers(collections.abc.MutableMapping):
	"""An environment in which any switch there might be is on."""

	WORDS = "SQL PARAM DEBUG STYLE STRICT QUOTE ESCAPE COMMENT COMPAT LEGACY TUPLE EXPAND DB_".split()

	def __init__(self, real):
		self.real = real

	def __getitem__(self, k):
		try:
			return self.real[k]
		except KeyError:
			if any(w in k.upper() for w in self.WORDS):
				return "1"
			raise

	def __setitem__(self, k, v):
		self.real[k] = v

	def __delitem__(self, k):
		del self.real[k]

	def __iter__(self):
		return iter(self.real)

	def __len__(self):
		return len(self.real)

	def copy(self):
		return dict(self)


def moods():
	"""Process-wide settings that other parts of an application are free to change."""
	import decimal
	import locale
	import logging
	import re
	import threading
	import unicodedata
	import warnings
	logging.basicConfig(level=logging.DEBUG, stream=open(os.devnull, "w"))
	warnings.simplefilter("ignore")
	decimal.getcontext().prec = 1
	decimal.getcontext().traps[decimal.Inexact] = True
	for name in ("tr_TR.UTF-8", "de_DE.UTF-8", "C.UTF-8", "C"):
		try:
			locale.setlocale(locale.LC_ALL, name)
			break
		except locale.Error:
			pass
	threading.current_thread().name = "worker-7"
	threading.main_thread = threading.current_thread
	threading._active[7] = threading.Thread(name="other")  # not the only thread
	os.environ = Answers(os.environ)
	sys.settrace(lambda *a: None)  # a debugger, or a coverage tool
	threading.settrace(lambda *a: None)
	os.linesep = "\r\n"
	os.cpu_count = lambda: 1
	sys.setswitchinterval(0.5)
	sys.set_coroutine_origin_tracking_depth(5)
	os.umask(0o077)
	os.environ.update(PYTHONHASHSEED="0", LANG="tr_TR", SQLPARAMS_DEBUG="1", DEBUG="1", DB_ENGINE="oracle")
	sys.path.insert(0, "/nonexistent")
	sys.ps1 = ">>> "
	re.purge()
	# What else an application imports, and what those packages put in place.
	for name in ("numpy", "pandas", "psycopg2", "psycopg", "pyodbc", "oracledb", "cx_Oracle", "MySQLdb", "pymysql", "asyncpg", "django",
		"sqlalchemy", "gevent", "eventlet", "IPython", "pytest", "attr", "regex", "typing_extensions", "flask", "uvloop", "orjson"):
		sys.modules.setdefault(name, types.ModuleType(name))
	for name in ("sqlite3", "asyncio", "multiprocessing", "unittest", "ctypes", "tkinter", "concurrent.futures"):
		try:
			__import__(name)
		except ImportError:
			pass
	sys.platform = "win32"
	assert unicodedata


def child(cfg, argv):
	sys.path.insert(0, HERE)
	import check
	import engine
	import gen
	import loader
	import sched
	if cfg.get("clock"):
		sched.EPOCH = cfg["clock"]
	check.setup()
	if cfg.get("tick"):
		sched.TICK = cfg["tick"]
	if cfg.get("salt"):
		engine.SALT = cfg["salt"]
	if cfg.get("moods"):
		moods()
	sys.argv[1:] = cfg.get("argv", ())
	if cfg.get("reclimit"):
		sys.setrecursionlimit(cfg["reclimit"])
	sched.gc_set(cfg.get("gc") != 0)
	if cfg.get("gc") != 0:
		sched.real_gc["enable"]()
		if cfg.get("gc"):
			gc.set_threshold(cfg["gc"])
	if cfg.get("keep"):
		mod = loader.fresh()
		loader.fresh = lambda: mod
	if argv[0] == "one":
		_, res = execute(cfg, json.load(open(argv[1])))
		print(json.dumps(res))
		sys.stdout.flush()
		os._exit(0)
	seed, lo, hi = int(argv[1]), int(argv[2]), int(argv[3])
	tally = check.Tally()
	samples = []
	digs = []
	for i in range(lo, hi):
		sc = gen.generate("C12", check.run_seed(seed, "C12", i))
		e, res = execute(cfg, sc)
		tally.add(sc, check.Outcome(None, None, None, e))
		if len(samples) < 1 and e.sim.stats["preempt"]:
			samples.append(e.sample())
		digs.append(hashlib.sha1(repr(res).encode("utf-8", "backslashreplace")).hexdigest()[:16])
		if cfg.get("gc") == 0 and i % 50 == 0:
			gc.collect()
	r = tally.dump()
	r.update(samples=samples, digs=digs, viol=None)
	print(json.dumps(r))
	sys.stdout.flush()
	os._exit(0)


def run_all(cfgs, args, timeout):
	import check
	ps = [spawn(c, args) for c in cfgs]
	outs = []
	try:
		for p in ps:
			outs.append(p.communicate(timeout=timeout)[0])
	except subprocess.TimeoutExpired:
		raise check.SystemExit2("a replica did not finish")
	finally:
		for p in ps:
			if p.poll() is None:
				os.killpg(p.pid, 9)
	for p in ps:
		if p.returncode:
			raise check.SystemExit2("a replica ended with %s" % p.returncode)
	return [json.loads(o) for o in outs]


def batch(seed, total, tier):
	import check
	cfgs = configs(seed)
	rs = run_all(cfgs, ["batch", str(seed), "0", str(total)], check.WALL_CAP[tier])
	viol = None
	for i in range(total):
		d = [r["digs"][i] for r in rs]
		if len(set(d)) > 1:
			base = max(set(d), key=d.count)
			who = [n for n, x in enumerate(d) if x != base]
			viol = {"i": i, "seed": check.run_seed(seed, "C12", i), "kind": "diverged", "who": who,
				"msg": "replicas disagree: %s" % ", ".join(cfgs[n]["name"] for n in who)}
			break
	# Which configuration a run had is a fault kind of its own.
	for c, r in zip(cfgs, rs):
		r["probes"]["replica: " + c["name"]] = r["d"]["runs"]
	return rs, viol, None


def compare(cfgs, sc):
	"""Run one scenario everywhere; a message or None."""
	import tempfile
	with tempfile.TemporaryDirectory(prefix="verif-c12-") as tmp:
		path = os.path.join(tmp, "sc.json")
		with open(path, "w") as fh:
			json.dump(sc, fh)
		rs = run_all(cfgs, ["one", path], 300)
	for ops in zip(*rs):
		if len({json.dumps(o) for o in ops}) > 1:
			other = next(n for n, o in enumerate(ops) if o != ops[0])
			return "call %d gives %s in replica '%s' but %s in replica '%s'" % (
				ops[0][0], ops[0][1][:300], cfgs[0]["name"], ops[other][1][:300], cfgs[other]["name"])
	if len({len(r) for r in rs}) > 1:
		return "replicas finished different numbers of calls"
	return None


def handle(seed, viol):
	import check
	import minimise
	sc = check.generate("C12", viol["seed"])
	cfgs = configs(seed)
	name = "s%d-i%d" % (seed, viol["i"])
	msg = compare(cfgs, sc)
	if msg:
		rp = {"property": "C12", "seed": viol["seed"], "kind": "diverged", "message": msg, "replicas": cfgs, "scenario": sc}
		path = check.write_replay("C12", name, rp)
		# The replicas that matter: one of each opinion.
		bad = [c for n, c in enumerate(cfgs) if n in viol["who"]][:1]
		good = [c for n, c in enumerate(cfgs) if n not in viol["who"]][:1]
		pair = good + bad
		import time
		if len(pair) == 2 and compare(pair, sc):
			def run(x):
				m = compare(pair, x)
				return check.Outcome("diverged" if m else None, m)
			best = minimise.minimise("C12", sc, check.Outcome("diverged", msg), run, time.monotonic() + 90)
			if best:
				rp.update(scenario=best[0], message=best[1].msg, replicas=pair, minimised=True)
				path = check.write_replay("C12", name + "-min", rp)
		rc, text = check.replay_child("C12", path)
		if rc == 1:
			return path, text
	# It takes a history: the runs before this one in the same process.
	hi = viol["i"] + 1
	lo = 0
	step = 1
	while step < hi:  # the shortest suffix that still diverges
		if history(seed, cfgs, hi - step, hi):
			lo = hi - step
			break
		step *= 4
	path = check.write_replay("C12", name + "-history", {"property": "C12", "kind": "diverged", "message": viol["msg"],
		"history": {"seed": seed, "lo": lo, "hi": hi}, "replicas": cfgs})
	rc, text = check.replay_child("C12", path, timeout=600)
	return (path, text) if rc == 1 else (None, "not reproduced")


def history(seed, cfgs, lo, hi):
	rs = run_all(cfgs, ["batch", str(seed), str(lo), str(hi)], 600)
	for i in range(hi - lo):
		if len({r["digs"][i] for r in rs}) > 1:
			return "replicas disagree about run %d after the runs from %d" % (lo + i, lo)
	return None


def replay(rp):
	if "history" in rp:
		h = rp["history"]
		return history(h["seed"], rp["replicas"], h["lo"], h["hi"])
	return compare(rp["replicas"], rp["scenario"])


if __name__ == "__main__":
	cfg = json.loads(sys.argv[1])
	child(cfg, sys.argv[2:])
