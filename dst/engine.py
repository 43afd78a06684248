"""
Executes one scenario under the simulator and judges it.

A scenario is data (see gen.py); a run is a pure function of the scenario and of
the code under test.  Oracles, all evaluated while the run proceeds or over its
history, each with its own violation kind:

  result          a call did not return what the reference model prescribes
  stuck           deadlock, or a call that exceeds the step bound
  fault-lost      an injected fault did not reach the caller as itself
  arg-changed     a caller-owned argument was modified, even temporarily
  shared-result   results share state with each other, with arguments, or with
                  the converter
  retained        a finished call's objects are still referenced, or memory grows
                  with the number of calls
  value-touched   a value was executed, compared, converted or rendered
  stream          a row source was not consumed once, in order, row by row
  leaked          a pickled converter holds a value of a call
  process         something process-wide was changed
  torn            SQL and parameters of one result disagree
"""

import asyncio
import copy
import gc
import hashlib
import importlib
import pickle
import random
import sys
import types
import weakref

import ambient
import loader
import model
import objects
import sched


STRICT = False  # equal values will not do (C10)
SALT = 0  # what a random source gives differs in a replica (C12)


class SimFault(Exception):
	pass


class SimBaseFault(BaseException):
	pass


EXC = {
	"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError,
	"TimeoutError": TimeoutError, "ImportError": ImportError, "SimFault": SimFault, "SimBaseFault": SimBaseFault, "RuntimeError": RuntimeError,
	"ValueError": ValueError, "KeyError": KeyError, "CancelledError": asyncio.CancelledError,
	"SystemExit": SystemExit, "GeneratorExit": GeneratorExit, "StopIteration": StopIteration, "IndexError": IndexError,
	"AttributeError": AttributeError, "TypeError": TypeError, "LookupError": LookupError,
	"StopAsyncIteration": StopAsyncIteration, "NotImplementedError": NotImplementedError,
	"AssertionError": AssertionError, "RecursionError": RecursionError,
	"UnicodeDecodeError": lambda m: UnicodeDecodeError("utf-8", b"\xff", 0, 1, m),
}


HIDDEN = ("KeyError", "LookupError", "IndexError", "AttributeError", "TypeError", "StopIteration", "StopAsyncIteration")


def pep479(m):
	"""What Python makes of a StopIteration that escapes inside a generator."""
	e = RuntimeError("generator raised StopIteration")
	e.__cause__ = e.__context__ = StopIteration()
	return e


EXC["GeneratorRuntimeError"] = pep479


# Parts of values that gen.py puts into no query, name or setting.
SECRETS = (b"s3cr3t", b"DROP--")


class Violation(Exception):
	def __init__(self, kind, msg):
		super().__init__(kind, msg)
		self.kind = kind
		self.msg = msg


def show(x, depth=0):
	"""A repr that never executes value code."""
	t = type(x)
	if t in (int, float, bool, bytes, types.NoneType):
		return repr(x)
	if isinstance(x, str):
		s = repr(str(x))
		return s if len(s) < 300 else s[:300] + "..."
	if isinstance(x, (list, tuple)):
		els = list(tuple.__iter__(x) if isinstance(x, tuple) else list.__iter__(x))
		body = ", ".join(show(e, depth + 1) for e in els[:12]) + (", ..." if len(els) > 12 else "")
		return ("[%s]" if isinstance(x, list) else "(%s)") % body
	if isinstance(x, dict):
		return "{%s}" % ", ".join("%s: %s" % (show(k), show(v, depth + 1)) for k, v in list(dict.items(x))[:12])
	return "<%s>" % t.__name__


def same(a, b):
	"""Equality of outputs by identity of the values they carry."""
	if a is b:
		return True
	if STRICT:
		return False
	return type(a) in (int, float, str, bytes, bool) and type(a) is type(b) and a == b


def same_out(got, want):
	if type(want) is dict:
		if not isinstance(got, dict) or len(got) != len(want):
			return False
		for k, v in want.items():
			if k not in got or not same(got[k], v):
				return False
		return True
	if not isinstance(got, list) or len(got) != len(want):
		return False
	return all(same(g, w) for g, w in zip(got, want))


class OpRun:
	"""One call in progress and everything the caller owns around it."""

	def __init__(self, eng, spec):
		self.eng = eng
		self.env = eng.env
		self.spec = spec
		self.touches = []
		self.writes = []
		self.refs = []
		self.nested = []
		self.states = []
		self.args = []
		self.attrs = []
		self.rowsnap = None
		self.hits = {}
		self.total = 0
		self.faults = [dict(f, left=True) for f in spec.get("faults", ()) if f["site"] != "instr"]
		self.raised = []
		self.faulty_sites = []
		self.quiet = 0
		self.done = False
		self.delivered = 0
		self.source_iters = 0
		self.stream = None
		self.reused = False
		self.grow = None
		self.vals = {}
		self.plain = [] if eng.track else None

	# Used while objects are built.
	def note_val(self, v):
		self.vals[id(v)] = len(self.vals)
		if self.eng.track:
			self.refs.append(weakref.ref(v))

	def note_nested(self, v):
		self.nested.append((v, list(v) if isinstance(v, list) else list(v.items())))
		if self.plain is not None:
			self.plain.append(v)

	def note_state(self, v, look):
		self.states.append((v, look, look(v)))

	def note_arg(self, obj, plain):
		self.args.append((obj, plain))
		d = getattr(obj, "__dict__", None)
		if type(d) is dict:
			self.attrs.append((obj, sorted(d)))
		if self.eng.track:
			try:
				self.refs.append(weakref.ref(obj))
			except TypeError:
				if obj != ():
					self.plain.append(obj)

	def note_rows(self, src, rows):
		self.rowsnap = (src, list(rows))

	def key(self, text):
		k = objects.Key(text)
		k._op = self
		return k

	# Called by the containers.
	def hit(self, site):
		if self.quiet or self.done:
			return
		eng = self.eng
		if self.grow is not None:
			self.grow()
			self.grow = None
			eng.count_fault("rows-appended@" + site)
		self.total += 1
		n = self.hits[site] = self.hits.get(site, 0) + 1
		eng.sim.point()
		if eng.watch is not None:
			eng.look(False, "when the caller's objects were asked (%s)" % site)
		for f in self.faults:
			if f["left"] and (f["site"] == site and n >= f["n"] or f["site"] == "any" and self.total >= f["n"]):
				if f.get("exc") == "TypeError" and site.endswith("len"):
					continue  # Python itself drops it where it only wants a hint (list.extend, tuple())
				if site.startswith("key") and f.get("exc") in HIDDEN:
					continue  # Python's own mappings take it for a missing key (ChainMap)
				f["left"] = False
				eng.fire(sched.CUR, f, site)


def leaves(v):
	if v[0] in ("t", "T", "nt", "l", "d"):
		return 1 + sum(leaves(x) for x in v[1])
	return 1


def step_bound(spec):
	"""Far more steps than any sane implementation takes for one call."""
	n = 200000
	if spec["k"] not in ("format", "many"):
		return n
	sql = spec["sql"] or ""
	marks = sum(sql.count(c) for c in ":$@%?")
	rows = spec["rows"].get("rows", ()) if spec["k"] == "many" else (spec["params"],)
	for p in rows:
		vals = p.get("vals") or [v for _, v in p.get("items", ())]
		k = sum(leaves(v) for v in vals)
		# Looking every placeholder up may take a scan over all keys.
		n += 2000 + 1000 * k + 100 * marks * (len(vals) + 10)
	for f in spec.get("faults", ()):
		if "op" in f:
			n += step_bound(f["op"])
	return n


class Engine:
	def __init__(self, scenario, kinds=None, digest=False, env=0):
		self.sc = scenario
		self.kinds = kinds
		self.viol = None
		self.other = {}
		self.stats = {"ops": 0, "ok": 0, "err": 0, "faulted": 0, "faults": {}, "rows": 0, "nested": 0, "probes": {}}
		self.track = scenario["prop"] == "C09"
		self.keep = scenario["prop"] == "C08"
		self.kept = []
		self.done_refs = []
		self.done_plain = []
		self.results = [] if digest else None
		self.env = env
		self.live = None
		self.watch = None
		self.sig = hashlib.sha1()

	# -- set-up ------------------------------------------------------------

	def run(self):
		global STRICT
		STRICT = self.sc["prop"] == "C10"
		if self.sc["prop"] != "C23":
			return self.run_()
		# The same, while the state of the process is watched.
		random.seed(self.sc["seed"] ^ SALT)
		was = sched.gc_on()
		self.watch = ambient.Watch()
		try:
			return self.run_()
		finally:
			self.watch.close()
			sched.gc_set(was)

	def look(self, full, when):
		what = self.watch.changed(full)
		if what:
			self.report("process", "%s of the process had changed %s" % (what, when))
		elif not full:
			self.probe("looked-during-a-call")

	def run_(self):
		sc = self.sc
		sched.instrument(False)
		del sched.at_fork[:], sched.lost[:]
		self.mods = {}
		self.imports = {}
		if sc.get("boot"):
			loader.forget()
			self.mod = None
		else:
			self.mod = loader.fresh()
		self.away = None
		if any(o.get("elsewhere") for ops in sc["threads"] for o in ops):
			# "Another process", where nothing has happened so far.
			here = loader.modules()
			mod = loader.fresh()
			objects.SubParams = None
			self.away = objects.subclass(mod), loader.modules()
			loader.forget()
			sys.modules.update(here)
		self.sim = sim = sched.Sim(sc["sched"])
		sim.in_main = bool(sc.get("main"))
		sim.name = "worker" if sc["seed"] % 4 == 0 else None
		self.slots = []
		for cfg in sc["insts"]:
			self.slots.append({"cfg": cfg, "conv": None, "list": None})
			if not cfg.get("late"):
				try:
					self.construct(self.slots[-1])
				except Exception as e:
					if "result" not in (self.kinds or ("result",)):
						raise
					self.report("result", "constructing %s raised %s: %s" % (cfg_text(cfg), type(e).__name__, safe_str(e)))
					self.finish_sig()
					return self
		if sc.get("live"):
			self.setup_live()
		if self.watch is not None:
			self.look(True, "after constructing converters")
			sim.on_switch = lambda th, nxt: self.look(False, "when another thread ran")
		else:
			random.seed(sc["seed"] ^ SALT)
		self.stacks = []
		for ops in sc["threads"]:
			sim.add(lambda th, ops=ops: self.thread(th, ops))
			self.stacks.append([])
		sched.fire_hook = self.fire_instr
		loader.on_import = self.importing
		if sc["trace"]:
			sched.instrument(True, bool(sc.get("boot")))
		try:
			sim.run()
		finally:
			sched.instrument(False)
			sched.CUR = None
			loader.on_import = None
		if sim.errors:
			raise RuntimeError("harness error in a simulated thread:\n" + sim.errors[0])
		if sim.abort and sim.abort != "over" and not self.viol:
			self.report("stuck", "the run never finished: %s" % (
				"every thread waits for another (deadlock)" if sim.abort == "deadlock" else
				"one call exceeded %d steps" % sim.stepcap))
		if not self.viol and self.keep:
			self.check_kept("end")
		if not self.viol and not sim.abort:
			for slot in self.slots:
				if slot["conv"] is not None:
					self.check_settings(slot["conv"], slot["cfg"], slot.get("mutated"))
		self.finish_sig()
		return self

	def construct(self, slot, mod=None, op=None):
		cfg = slot["cfg"]
		kw = {}
		if "esc" in cfg:
			kw["escape_char"] = cfg["esc"]
		if "exp" in cfg:
			kw["expand_tuples"] = cfg["exp"]
		if "strip" in cfg:
			st = cfg["strip"]
			if isinstance(st, list):
				st = [tuple(x) if isinstance(x, list) else x for x in st]
				old = self.slots[cfg["reuse"]] if "reuse" in cfg else slot
				if old["list"] is not None:
					# The caller fills the list it passed for another converter anew.
					old["list"][:] = st
					st = old["list"]
					self.mutated(st)
					self.probe("config-list-reused")
				slot["list"] = st
				if op is not None and cfg.get("stripc"):
					st = objects.SimSequence(st, op)
			kw["strip_comments"] = st
		if "quotes" in cfg:
			kw["allow_out_quotes"] = cfg["quotes"]
		if cfg.get("sub") and mod is None:
			slot["conv"] = objects.subclass(self.mod)(cfg["in"], cfg["out"], **kw)
		else:
			slot["conv"] = (mod or self.mod).SQLParams(cfg["in"], cfg["out"], **kw)

	# -- judging -----------------------------------------------------------

	def report(self, kind, msg):
		if self.kinds is not None and kind not in self.kinds:
			self.other[kind] = self.other.get(kind, 0) + 1
			return
		if self.viol is None:
			self.viol = Violation(kind, msg)
			self.sim.abort = self.sim.abort or "violation"

	def probe(self, name):
		p = self.stats["probes"]
		p[name] = p.get(name, 0) + 1

	def finish_sig(self):
		for s in self.sim.sites:
			self.sig.update(repr(s).encode())
		for d in self.sim.decider.log[:400]:
			self.sig.update(b"%d>%d" % (d[1], d[4]))
		for k in sorted(self.stats["faults"]):
			self.sig.update(("%s=%d" % (k, self.stats["faults"][k])).encode())

	# -- threads -----------------------------------------------------------

	def thread(self, th, ops):
		try:
			for spec in ops:
				if not self.thread_op(th, spec):
					return
				th.finished += 1
				if self.watch is not None:
					self.look(True, "after " + describe(spec)[:200])
					if self.viol:
						return
				self.sim.wake(th)
				self.sim.point()
		finally:
			th.finished = 1 << 30
			self.sim.wake(th)

	def thread_op(self, th, spec):
		k = spec["k"]
		if "idle" in spec:
			# Time passes, and the wall clock is set.
			self.sim.now += spec["idle"][0]
			self.sim.wall += spec["idle"][1]
			self.count_fault("clock jump")
		if k in ("format", "many"):
			self.exec_op(th, spec, None)
		else:
			self.sim.begin_op(th, spec["id"], [dict(f) for f in spec.get("faults", ()) if f["site"] == "instr"])
			try:
				getattr(self, "do_" + k)(th, spec)
			finally:
				self.sim.end_op(th)
		return not self.viol

	# -- faults ------------------------------------------------------------

	def count_fault(self, name):
		f = self.stats["faults"]
		f[name] = f.get(name, 0) + 1

	def fire(self, th, f, site):
		k = f["kind"]
		if k == "stall":
			self.count_fault("stall@" + site)
			self.sim.sleep(f["dt"])
		elif k == "await":
			# The caller's object waits for other threads to finish some calls.
			other = self.sim.threads[f["tid"]]
			if other.finished < f["count"]:
				self.count_fault("await@" + site)
			while other.finished < f["count"]:
				self.sim.wait(other)
		elif k == "reenter":
			self.count_fault("reenter@" + site)
			self.stats["nested"] += 1
			outer = self.stacks[th.tid][-1]
			self.exec_op(th, f["op"], outer)
		else:
			exc = EXC[f["exc"]]("injected fault")
			self.count_fault("%s@%s" % (f["exc"], site))
			for o in self.stacks[th.tid]:
				o.raised.append(exc)
				o.faulty_sites.append(site)
			raise exc

	def fire_instr(self, th, f):
		self.sig.update(repr(self.sim.inj_site).encode())
		self.fire(th, f, "instr")

	# -- one call ----------------------------------------------------------

	def exec_op(self, th, spec, outer):
		slot = self.slots[spec["inst"]]
		conv = slot["conv"]
		if conv is None:
			return
		op = OpRun(self, spec)
		op.quiet = 1
		many = spec["k"] == "many"
		sql = spec["sql"]
		if sql is None:
			sql = 12345
		elif spec.get("bytes"):
			sql = sql.encode("latin1")
		elif spec.get("strsub"):
			sql = objects.StrSub(sql)
		elif spec["id"] % 2 or self.track:
			# A text of its own, which dies with the call.
			sql = sql[:1] + sql[1:]
		if self.track and sys.getrefcount(sql) == 2:
			op.plain.append(sql)
		if many:
			arg, plains = objects.build_rows(spec["rows"], op)
		else:
			arg, p = objects.build_params(spec["params"], op)
			plains = [p]
		want, failing = self.model(slot["cfg"], sql, plains, many)
		if spec.get("strsub"):
			op.attrs.append((sql, []))
		if self.track and op.stream is not None:
			op.refs.append(weakref.ref(op.stream))
		op.quiet = 0
		stack = self.stacks[th.tid]
		stack.append(op)
		if outer is None:
			self.sim.stepcap = max(self.sim.stepcap, step_bound(spec))
			self.sim.begin_op(th, spec["id"], [dict(f) for f in spec.get("faults", ()) if f["site"] == "instr"])
		res = exc = None
		th.quiet += 1 if "calm" in spec else 0
		try:
			if "stack" in spec:
				res = self.call_deep(op, conv, many, sql, arg, spec["stack"])
			elif many:
				res = conv.formatmany(sql, arg)
			else:
				res = conv.format(sql, arg)
		except sched.SimAbort:
			raise
		except BaseException as e:
			exc = e
		finally:
			th.quiet -= 1 if "calm" in spec else 0
			stack.pop()
			if outer is None:
				self.sim.end_op(th)
			op.done = True
			op.quiet = 1
		if self.sim.abort:
			raise sched.SimAbort()
		self.stats["ops"] += 1
		if op.grow is not None:
			# No row was read, so no row was added.
			plains = plains[:spec["rows"]["k"]]
			want, failing = self.model(slot["cfg"], sql, plains, many)
		self.judge(op, many, sql, arg, plains, want, failing, res, exc)
		if self.viol:
			raise sched.SimAbort()
		if self.results is not None:
			self.digest(op, res, exc)
		if self.keep and exc is None:
			self.keep_result(op, spec, arg, res)
		if self.track:
			self.done_refs.append((spec["id"], op.refs))
			self.done_plain.append((spec["id"], op.plain))
		reraise = exc if (outer is not None and exc is not None and any(exc is e for e in op.raised)) else None
		op.vals = op.args = op.attrs = op.nested = op.states = op.rowsnap = op.stream = op.plain = op.raised = None
		stack = arg = plains = want = res = exc = op = sql = None
		if reraise is not None:
			try:
				raise reraise
			finally:
				reraise = None

	def model(self, cfg, sql, plains, many):
		try:
			if plains is None:
				raise model.ModelError(TypeError)
			return model.convert(cfg, sql, plains, many), None
		except model.ModelError as e:
			return None, e.classes

	def call_deep(self, op, conv, many, sql, arg, left):
		"""Run the call with only *left* stack frames to spare."""
		limit = sys.getrecursionlimit()
		state = {"ran": False}

		def down(n):
			if n > 0:
				return down(n - 1)
			state["ran"] = True
			return conv.formatmany(sql, arg) if many else conv.format(sql, arg)
		depth = 0
		f = sys._getframe()
		while f is not None:
			depth += 1
			f = f.f_back
		op.quiet = 1  # only the code under test may hit the limit
		objects.warm(arg, op.args)  # the first isinstance() of a class needs more stack
		try:
			return down(limit - depth - left - 1)
		except RecursionError as e:
			if state["ran"]:
				op.raised.append(e)
				op.faulty_sites.append("stack")
				self.count_fault("RecursionError@stack")
			raise
		finally:
			down = None

	def judge(self, op, many, sql, arg, plains, want, failing, res, exc):
		spec = op.spec
		desc = lambda: "%s(%s, %s) on %s" % (
			"formatmany" if many else "format", show(sql), describe(spec), cfg_text(self.slots[spec["inst"]]["cfg"]))
		self.forgive(op)
		if op.raised:
			self.stats["faulted"] += 1
			self.check_args(op, desc)
			if exc is None:
				self.report("fault-lost", "%s raised inside %s was swallowed; the call returned %s" % (
					type(op.raised[-1]).__name__, desc(), show(res)))
			elif not any(exc is e for e in op.raised):
				lookup = any(any(isinstance(e, k) for e in op.raised) and isinstance(exc, k) for k in (KeyError, IndexError))
				if not lookup and not regenerated(exc, op.raised):
					self.report("fault-lost", "%s raised inside %s reached the caller as %s" % (
						type(op.raised[-1]).__name__, desc(), type(exc).__name__))
			if many and self.sc["prop"] == "C06" and op.source_iters > 1:
				self.report("stream", "the row source was started %d times by %s" % (op.source_iters, desc()))
			return
		if exc is None:
			self.stats["ok"] += 1
		else:
			self.stats["err"] += 1
		if failing is not None:
			if exc is None:
				kind = "fault-lost" if self.sc["prop"] == "C05" else "result"
				self.report(kind, "%s must fail with %s but returned %s" % (
					desc(), "/".join(c.__name__ for c in failing), show(res)))
			elif not isinstance(exc, failing):
				if isinstance(exc, Exception) and not isinstance(exc, StopIteration):
					kind = "result"
				else:
					kind = "fault-lost" if self.sc["prop"] == "C05" else "result"
				self.report(kind, "%s must fail with %s but raised %s" % (
					desc(), "/".join(c.__name__ for c in failing), type(exc).__name__))
		elif exc is not None:
			self.report("result", "%s must succeed but raised %s: %s" % (desc(), type(exc).__name__, safe_str(exc)))
		else:
			why = compare(res, want, many)
			if why:
				self.report("result", "%s returned a wrong %s: got %s, want %s" % (desc(), why, show(res), show(want)))
			if op.touches:
				self.report("value-touched", "%s executed %s of a value" % (desc(), op.touches[0]))
			if many:
				self.stats["rows"] += len(plains)
		if many and plains is not None:
			self.check_stream(op, plains, failing, exc, desc)
		self.check_args(op, desc, exc is None)

	def forgive(self, op):
		"""Exceptions in finalisers (of suspended generators, say) cannot arrive."""
		for e in sched.lost:
			op.raised = [x for x in op.raised if x is not e]

	def check_stream(self, op, plains, failing, exc, desc):
		if op.source_iters > 1:
			self.report("stream", "the row source was started %d times by %s" % (op.source_iters, desc()))
		if op.spec["rows"]["c"] not in ("stream", "source", "gen", "map", "cursor", "gauge", "queue"):
			return
		n = len(plains)
		if exc is None and op.delivered != n:
			self.report("stream", "%s read %d rows of %d" % (desc(), op.delivered, n))
		if failing is not None and exc is not None and n and failing != (UnicodeError,):
			bad = self.bad_row(op, plains)
			if bad is not None and op.delivered > bad + 1:
				self.report("stream", "%s was rejected for row %d but consumed %d rows" % (desc(), bad, op.delivered))

	def bad_row(self, op, plains):
		"""The first row at which the model rejects the stream."""
		slot = self.slots[op.spec["inst"]]
		sql = op.spec["sql"]
		if sql is None:
			return None
		if op.spec.get("bytes"):
			sql = sql.encode("latin1")
		def fails(n):
			try:
				model.convert(slot["cfg"], sql, plains[:n], True)
			except model.ModelError:
				return True
			return False
		if not fails(len(plains)):
			return None
		lo, hi = 1, len(plains)  # fails(hi); a failing prefix stays failing
		while lo < hi:
			mid = (lo + hi) // 2
			if fails(mid):
				hi = mid
			else:
				lo = mid + 1
		return lo - 1

	def check_args(self, op, desc, ok=False):
		if op.writes:
			self.report("arg-changed", "%s called %s on its argument" % (desc(), op.writes[0]))
			return
		if not op.reused:
			for obj, plain in op.args:
				if not intact(obj, plain):
					self.report("arg-changed", "%s changed its argument" % desc())
					return
		for obj, names in op.attrs:
			if sorted(obj.__dict__) != names:
				self.report("arg-changed", "%s added or removed attributes of its argument: %s" % (
					desc(), sorted(obj.__dict__)))
				return
		if op.rowsnap is not None:
			src, rows = op.rowsnap
			now = list(src)
			if len(now) != len(rows) or any(a is not b for a, b in zip(now, rows)):
				self.report("arg-changed", "%s changed the list of rows" % desc())
		for v, look, snap in op.states:
			try:
				now = look(v)
			except Exception as e:
				now = e
			if now != snap:
				for kind in ("arg-changed", "value-touched") if ok else ("arg-changed",):
					self.report(kind, "%s used or changed a value of type %s" % (desc(), type(v).__name__))
				return
		for v, snap in op.nested:
			now = list(v) if isinstance(v, list) else list(v.items())
			if len(now) != len(snap) or any(
				(a is not b if isinstance(v, list) else (a[0] != b[0] or a[1] is not b[1])) for a, b in zip(now, snap)):
				self.report("arg-changed", "%s changed a value" % desc())

	# -- results kept by clients -------------------------------------------

	def containers(self, res, many):
		if not (isinstance(res, tuple) and len(res) == 2):
			return []
		out = [res[1]]
		if many and isinstance(res[1], list):
			out += list(res[1])
		return [c for c in out if isinstance(c, (list, dict))]

	def keep_result(self, op, spec, arg, res):
		many = spec["k"] == "many"
		mine = self.containers(res, many)
		if len({id(c) for c in mine}) != len(mine):
			self.report("shared-result", "one result holds the same container twice (%s)" % describe(spec))
		own = [id(a) for a, _ in op.args] + [id(arg)]
		for c in mine:
			if id(c) in own:
				self.report("shared-result", "the result is the argument itself (%s)" % describe(spec))
			for k in self.kept:
				if any(c is d for d, _ in k["c"]):
					self.report("shared-result", "calls %d and %d returned the same %s object" % (
						k["id"], spec["id"], type(c).__name__))
		entry = {"id": spec["id"], "c": [(c, snapshot(c)) for c in mine], "hold": (op.args, arg, res)}
		self.kept.append(entry)
		if spec.get("scribble_in"):
			# The caller reuses its own argument at once.
			for a in [arg] + [a for a, _ in op.args]:
				if type(a) is dict or type(a) is list:
					a.clear()
			self.probe("scribbled-argument")
			self.check_kept("when the caller reused its argument")
		how = spec.get("scribble")
		if how and mine:
			self.probe("scribbled-result")
			S = "SCRIBBLE-%d" % spec["id"]
			for n, c in enumerate(mine):
				if how == "rows" and many and n == 0:
					continue
				if how == "clear":
					c.clear()
				elif isinstance(c, list):
					c.append(S)
					if how == "fill":
						c[:] = [S] * len(c)
				else:
					c[S] = S
					if how == "fill":
						for k in list(c):
							c[k] = S
			entry["c"] = [(c, snapshot(c)) for c in mine]
		self.check_kept("after call %d" % spec["id"])

	def check_kept(self, when):
		for k in self.kept:
			for c, s in k["c"]:
				if not snap_same(c, s):
					self.report("shared-result", "the result of call %d changed by itself %s: %s" % (k["id"], when, show(c)))
					return

	# -- other operations --------------------------------------------------

	def guarded(self, th, spec, what, f):
		"""Do something other than a call that faults may interrupt; was it done?"""
		op = OpRun(self, spec)
		stack = self.stacks[th.tid]
		stack.append(op)
		try:
			f(op)
		except sched.SimAbort:
			raise
		except BaseException as e:
			self.forgive(op)
			if not op.raised:
				self.report("result", "%s raised %s: %s" % (what(), type(e).__name__, safe_str(e)))
			elif not any(e is x for x in op.raised) and not regenerated(e, op.raised):
				self.report("fault-lost", "%s raised inside %s reached the caller as %s" % (
					type(op.raised[-1]).__name__, what(), type(e).__name__))
			else:
				self.probe("interrupted-" + spec["k"])
			return False
		finally:
			op.done = True
			stack.remove(op)
			self.sim.disarm(th)
			self.forgive(op)
		if op.raised:
			self.report("fault-lost", "%s raised inside %s was swallowed" % (type(op.raised[-1]).__name__, what()))
		return True

	def do_new(self, th, spec):
		slot = self.slots[spec["inst"]]
		mod = self.mods.get(th.tid) or self.mod
		if slot["conv"] is not None or mod is None:
			return
		if self.guarded(th, spec, lambda: "constructing " + cfg_text(slot["cfg"]), lambda op: self.construct(slot, mod, op)):
			self.check_settings(slot["conv"], slot["cfg"])

	def check_settings(self, conv, cfg, mutated=False):
		"""A converter reports the settings it was given."""
		esc = cfg.get("esc") or None
		if esc is True:
			esc = model.STYLES[cfg["in"]][1]
		exp = cfg.get("exp")
		if exp is None:
			exp = model.KINDS[cfg["out"]] != "named"
		exp = bool(exp)
		for name, want in (("in_style", cfg["in"]), ("out_style", cfg["out"]), ("escape_char", esc), ("expand_tuples", exp)):
			got = setting(conv, name)
			if got != want:
				self.report("result", "%s.%s is %r" % (cfg_text(cfg), name, got))
		if not mutated:
			got = setting(conv, "strip_comments")
			want = cfg.get("strip") or None
			if want is True:
				want = model.DEFAULT_COMMENTS
			norm = lambda xs: [list(x) if isinstance(x, (list, tuple)) else x for x in xs or ()]
			if norm(got) != norm(want):
				self.report("result", "%s.strip_comments is %r" % (cfg_text(cfg), got))

	def do_settings(self, th, spec):
		slot = self.slots[spec["inst"]]
		conv = slot["conv"]
		if conv is not None:
			self.check_settings(conv, slot["cfg"], slot.get("mutated"))

	def importing(self):
		"""One of the package's modules is found, or complete; the disk may fail here."""
		th = sched.CUR
		if th is not None and th.sim is self.sim and self.stacks[th.tid]:
			op = self.stacks[th.tid][-1]
			if op.spec["k"] == "boot":
				op.hit("import")

	def do_boot(self, th, spec):
		"""Import the package, maybe while others do, maybe interrupted."""
		def f(op):
			self.mods[th.tid] = importlib.import_module("sqlparams")
			n = len(self.imports)
			self.imports[id(self.mods[th.tid])] = self.mods[th.tid]
			if n and len(self.imports) > n:
				self.probe("imported-again")
		if th.tid not in self.mods and self.guarded(th, spec, lambda: "importing sqlparams", f):
			self.probe("imported")

	def do_clone(self, th, spec):
		src = self.slots[spec["inst"]]
		dst = self.slots[spec["to"]]
		conv = src["conv"]
		if conv is None:
			return
		how = spec["how"]
		busy = any(s for s in self.stacks)
		away = bool(src.get("away") or how == "pickle" and spec.get("elsewhere"))
		made = []

		def f(op):
			if how == "copy":
				made.append(copy.copy(conv))
			elif how == "deepcopy":
				made.append(copy.deepcopy(conv))
			else:
				blob = self.at_home(src.get("away"), lambda: pickle.dumps(conv, spec.get("proto", 4)))
				for word in SECRETS:
					if word in blob:
						self.report("leaked", "the pickle of %s holds a parameter value of an earlier call: %r" % (
							cfg_text(src["cfg"]), blob[max(0, blob.index(word) - 20):][:60]))
				self.sim.point()
				made.append(self.at_home(away, lambda: pickle.loads(blob)))
		if self.guarded(th, spec, lambda: "%s of a converter %s" % (how, cfg_text(src["cfg"])), f):
			new = made[0]
			self.probe(how + ("-while-in-use" if busy else ""))
			if away and not src.get("away"):
				self.probe("loaded-elsewhere")
			dst["away"] = away
			self.check_settings(new, src["cfg"], src.get("mutated"))
			if repr(new) != repr(conv):
				self.report("result", "%s of %r is %r" % (how, conv, new))
			dst["conv"] = new

	def at_home(self, away, call):
		"""Do something where a converter lives, here or "in another process"."""
		if not away:
			return call()
		here, sub = loader.modules(), objects.SubParams
		th = sched.CUR
		th.quiet += 1
		try:
			objects.SubParams = self.away[0]
			sys.modules.update(self.away[1])
			return call()
		finally:
			sys.modules.update(here)
			objects.SubParams = sub
			th.quiet -= 1

	def do_drop(self, th, spec):
		"""Nobody keeps this converter any longer (running calls still do)."""
		self.slots[spec["inst"]]["conv"] = None
		self.probe("original-dropped")

	def do_fork(self, th, spec):
		busy = sum(1 for n, s in enumerate(self.stacks) if s and n != th.tid)
		self.sim.fork()
		self.count_fault("fork" + ("-while-in-use" if busy else ""))

	def do_badnew(self, th, spec):
		cfg = self.slots[spec["inst"]]["cfg"]
		C = self.mod.SQLParams
		how = spec["how"]
		args, kw, want = {
			"in": (("nope", cfg["out"]), {}, Exception),
			"out": ((cfg["in"], "nope"), {}, Exception),
			"type_in": ((b"named", cfg["out"]), {}, TypeError),
			"type_out": ((cfg["in"], 3), {}, TypeError),
			"type_esc": ((cfg["in"], cfg["out"]), {"escape_char": 5}, TypeError),
			"type_strip": ((cfg["in"], cfg["out"]), {"strip_comments": [7]}, TypeError),
			"late_strip": ((cfg["in"], cfg["out"]), {"strip_comments": ["SELECT", "--", "#", ";", 7]}, TypeError),
			"pair_strip": ((cfg["in"], cfg["out"]), {"strip_comments": ["SELECT", ("/*",)]}, Exception),
		}[how]
		try:
			C(*args, **kw)
		except sched.SimAbort:
			raise
		except want:
			self.count_fault("rejected-constructor")
		except BaseException as e:
			self.report("result", "SQLParams%r %r must fail with %s but raised %s" % (
				args, kw, want.__name__, type(e).__name__))
		else:
			self.report("result", "SQLParams%r %r must fail" % (args, kw))

	def do_mutcfg(self, th, spec):
		lst = self.slots[spec["inst"]]["list"]
		if lst is None:
			return
		self.probe("config-list-mutated")
		self.mutated(lst)
		how = spec["how"]
		if how == "clear":
			lst.clear()
		elif how == "append":
			lst.append("SELECT")
		else:
			lst[:] = [("(", ")"), "x"]

	def mutated(self, lst):
		for slot in self.slots:
			if slot["list"] is lst:
				slot["mutated"] = True

	def do_retcheck(self, th, spec):
		# Nested and concurrent calls still in progress are not in done_refs.
		collect(th)
		self.probe("retention-check")
		for opid, objs in self.done_plain:
			inner = {}
			for i in range(len(objs)):
				for o in [*objs[i].keys(), *objs[i].values()] if isinstance(objs[i], (dict, types.MappingProxyType)) else gc.get_referents(objs[i]):
					inner[id(o)] = inner.get(id(o), 0) + 1
			o = None
			for i in range(len(objs)):
				if sys.getrefcount(objs[i]) > 2 + inner.get(id(objs[i]), 0):
					self.report("retained", "call %d is over but its %s %s is still referenced by %s" % (
						opid, type(objs[i]).__name__, show(objs[i]), referrers(objs[i], objs)))
					raise sched.SimAbort()
			del objs[:]
		if any(isinstance(r(), type) for opid, refs in self.done_refs for r in refs):
			collect(th)  # classes of the rows that have only now been dropped
		for opid, refs in self.done_refs:
			for r in refs:
				o = r()
				if o is not None:
					self.report("retained", "call %d is over but its %s is still referenced by %s" % (
						opid, "value" if type(o) is objects.Val else type(o).__name__, referrers(o)))
					o = None
					raise sched.SimAbort()
		n = len(self.done_refs)
		if n:
			self.probe("retention-checked-calls")

	def do_grow(self, th, spec):
		"""Many calls that differ from each other; memory must level off."""
		slot = self.slots[spec["inst"]]
		conv, cfg = slot["conv"], slot["cfg"]
		what = spec["what"]
		n = spec["n"]
		kind = model.KINDS[cfg["in"]]
		mark = model.STYLES[cfg["in"]][1]
		seen = []
		failed = 0
		self.probe("growth-" + what)
		for i in range(20 * n + 1):
			if i % n == 0:
				collect(th)
				seen.append(sys.getallocatedblocks())
				# A bounded memory may fill up, but then stays as it is.
				if i > n and seen[-1] - seen[-2] <= 30:
					break
			if what == "new":
				try:
					self.mod.SQLParams(cfg["in"], cfg["out"], escape_char="e%d" % i if i % 2 else None,
						strip_comments=["--%d" % i] if i % 3 else [("(%d" % i, ")")])
				except Exception as e:
					self.report("result", "constructing a converter failed: %s" % safe_str(e))
				continue
			name = "p%d" % i
			value = tuple(range(i % 40)) if what == "tuples" else object()
			if kind == "ordinal":
				sql = "SELECT x%d = %s" % (i, "?" if cfg["in"] == "qmark" else "%s")
				row = [value]
			elif kind == "numeric":
				sql = "SELECT x%d = %s%d" % (i, mark, i + 1)
				row = {i + 1: value}
			else:
				sql = "SELECT x%d = %s" % (i, "%%(%s)s" % name if cfg["in"] == "pyformat" else mark + name)
				row = {name: value}
			if what == "types":
				row = type("Row", (type(row),), {})(row)
			if what == "bad":
				row = {} if isinstance(row, dict) else []
			elif what == "fault":
				row = objects.Failing(row)
			if spec["bytes"]:
				sql = sql.encode("latin1")
			call = lambda: conv.formatmany(sql, [row, row]) if spec["many"] else conv.format(sql, row)
			try:
				if what == "threads":
					objects.elsewhere(call)
				else:
					call()
			except Exception:
				failed += 1
			call = sql = row = value = name = None
		else:
			self.report("retained", "%s%s on {in=%r, out=%r} leave memory behind without bound: %d blocks after the last %d" % (
				{"new": "constructions", "bad": "rejected calls", "fault": "failed calls"}.get(what, "calls"),
				"" if what == "new" else " of format" + "many" * spec["many"], cfg["in"], cfg["out"], seen[-1] - seen[-2], n))

	# -- live containers ---------------------------------------------------

	def setup_live(self):
		lv = self.sc["live"]
		cfg = self.sc["insts"][0]
		kind = model.KINDS[cfg["in"]]
		op = OpRun(self, {"id": 0, "faults": []})
		op.quiet = 1
		self.live_op = op
		vals = [objects.build_value(v, op) for v in lv["init"]]
		keys = lv["keys"]
		if lv["c"] in ("list", "simseq"):
			self.live = list(vals)
			self.live_keys = list(range(len(keys)))
			if lv["c"] == "simseq":
				m = objects.SimSequence((), op)
				m._l = self.live
				self.live_view = m
		else:
			if cfg["in"] == "named_oracle":
				ck = ['"%s"' % k for k in keys]
			else:
				ck = keys
			self.live_keys = ck
			self.live = dict(zip(ck, vals))
			if lv["c"] == "simmap":
				m = objects.SimMapping({}, op)
				m._d = self.live
				self.live_view = m
		if lv["c"] in ("dict", "list"):
			self.live_view = self.live
		self.held = [[v] for v in vals]  # every value each key ever had
		self.live_changes = 0
		self.live_gaps = 0  # parameters missing right now
		mark = model.STYLES[cfg["in"]][1]
		parts = []
		for k in lv["marks"]:
			if cfg["in"] == "format":
				p = "%s"
			elif cfg["in"] == "qmark":
				p = "?"
			elif cfg["in"] == "pyformat":
				p = "%%(%s)s" % k
			elif cfg["in"] == "named_oracle":
				p = ':"%s"' % k
			else:
				p = mark + str(k)
			parts.append("[" + p + "]")
		self.live_sql = "".join(parts)
		op.quiet = 0
		self.calls_live = 0

	def do_liveset(self, th, spec):
		"""
		One update by another thread.  ``how``: set a value; move (remove the key
		and add it again, in one go); gap (the same, other threads may run in
		between); swap two parameters; tail (something else comes and goes).
		"""
		op = OpRun(self, {"id": spec["id"], "faults": []})
		op.quiet = 1
		v = objects.build_value(spec["v"], op)
		op.quiet = 0
		op.done = True
		i = spec["i"]
		how = spec.get("how", "set")
		live = self.live
		seq = isinstance(live, list)
		k = self.live_keys[i]
		if not seq and k not in live or seq and len(live) < len(self.live_keys):
			return  # in another updater's gap
		self.live_changes += 1
		if self.calls_live:
			self.probe("live-update-during-call")
			self.count_fault("update:" + how)
		if how == "set":
			self.held[i].append(v)
			live[k] = v
		elif how in ("move", "gap"):
			if seq:
				i = len(self.live_keys) - 1
				del live[i:]
			else:
				del live[k]
			if how == "gap":
				self.live_gaps += 1
				self.sim.point()
				self.sim.point()
				self.live_gaps -= 1
				self.live_changes += 1
			self.held[i].append(v)
			if seq:
				live.append(v)
			else:
				live[k] = v
		elif how == "swap":
			j = spec["j"]
			kj = self.live_keys[j]
			if j == i or not seq and kj not in live:
				return
			a, b = live[k], live[kj]
			self.held[i].append(b)
			self.held[j].append(a)
			if seq:
				live[k], live[kj] = b, a
			else:
				# Also the order of the keys changes.
				del live[k], live[kj]
				live[kj] = a
				live[k] = b
		else:
			if seq:
				live.append(v)
				self.sim.point()
				self.live_changes += 1
				# Gone again (unless an updater's gap cut it off already).
				if len(live) > len(self.live_keys):
					live.pop()
			else:
				new = {"zz": v} if not isinstance(k, int) else {9000 + i: v}
				for x in new:
					live[x] = v
				self.sim.point()
				self.live_changes += 1
				for x in new:
					live.pop(x, None)
		self.sim.point()

	def do_livefmt(self, th, spec):
		conv = self.slots[0]["conv"]
		cfg = self.slots[0]["cfg"]
		many = spec["many"]
		view = self.live_view
		self.calls_live += 1
		before = self.live_changes
		gaps = self.live_gaps
		try:
			if many:
				res = conv.formatmany(self.live_sql, [view] * spec["rep"])
			else:
				res = conv.format(self.live_sql, view)
		except sched.SimAbort:
			raise
		except Exception as e:
			self.stats["err"] += 1
			self.probe("live-call-failed")
			if self.live_changes == before and not gaps:
				# Nothing changed during the call: it had no reason to fail,
				# except rows of different shapes, which one row view cannot have.
				if not isinstance(e, (ValueError, TypeError)) or not many:
					self.report("torn", "call on an unchanging container raised %s: %s" % (type(e).__name__, safe_str(e)))
			return
		finally:
			self.calls_live -= 1
		self.stats["ops"] += 1
		self.stats["ok"] += 1
		if self.live_changes != before:
			self.probe("live-call-raced")
		outs = res[1] if many else [res[1]]
		for out in outs:
			why = self.check_pair(cfg, res[0], out)
			if why:
				self.report("torn", "%s on %s: %s; SQL %s with parameters %s" % (
					"formatmany" if many else "format", cfg_text(cfg), why, show(res[0]), show(out)))

	def check_pair(self, cfg, sql, out):
		"""Does one (SQL, parameters) pair fit together?  Message or None."""
		marks = self.sc["live"]["marks"]
		segs = []
		rest = sql
		for k in marks:
			if not rest.startswith("["):
				return "unexpected text"
			e = rest.find("]")
			segs.append(rest[1:e])
			rest = rest[e + 1:]
		if rest:
			return "unexpected text"
		keys = self.sc["live"]["keys"]
		kind = model.KINDS[cfg["out"]]
		used = set()
		pos = 0
		for k, seg in zip(marks, segs):
			held = self.held[keys.index(k)]
			if seg == "(NULL)":
				if not any(isinstance(v, tuple) and tuple.__len__(v) == 0 for v in held):
					return "(NULL) for a parameter that was never empty"
				continue
			tup = seg.startswith("(")
			body = seg[1:-1] if tup and seg.endswith(")") else seg
			slots = []
			for piece in body.split(","):
				ph = model.parse_out(cfg["out"], piece)
				if len(ph) != 1:
					if cfg["out"] != "named_oracle" or not piece.startswith(":"):
						return "bad placeholder %r" % piece
				if kind == "ordinal":
					slots.append(pos)
					pos += 1
				elif kind == "numeric":
					slots.append(int(ph[0][0]) - 1)
				else:
					name = ph[0][0]
					slots.append('"%s"' % name if ph[0][1] else name)
			got = []
			for s in slots:
				used.add(s)
				if kind == "named":
					if s not in out:
						return "placeholder %s has no value" % s
					got.append(out[s])
				else:
					if not 0 <= s < len(out):
						return "placeholder %d has no value" % (s + 1)
					got.append(out[s])
			if tup and (kind == "ordinal" or marks.count(k) == 1) and not any(
				isinstance(v, tuple) and tuple.__len__(v) == len(got)
				and all(same(a, b) for a, b in zip(tuple.__iter__(v), got)) for v in held
			):
				return "the %d placeholders of %r are not filled from one tuple of that length" % (len(got), k)
			for i, g in enumerate(got):
				# A value this parameter really had, in this place.
				ok = False
				for v in held:
					if tup:
						if isinstance(v, tuple) and tuple.__len__(v) > i and same(tuple.__getitem__(v, i), g):
							ok = True
					elif same(v, g):
						ok = True
				if not ok:
					return "the value bound to a placeholder of %r is not one it ever had" % (k,)
		n = len(out)
		if n != len(used):
			return "%d values for %d placeholders" % (n, len(used))
		return None

	def sample(self):
		"""This run, written out for the evidence file."""
		sc = self.sc
		ops = []
		for t, specs in enumerate(sc["threads"]):
			for o in specs[:3]:
				f = "; ".join("%s %s#%d" % (x.get("exc") or x["kind"], x["site"], x["n"]) for x in o.get("faults", ()))
				ops.append("T%d %s(%s, %s)%s" % (t, o["k"], show(o.get("sql", ""))[:120], describe(o)[:120], " !" + f if f else ""))
		return {"seed": sc["seed"], "converters": [cfg_text(c) for c in sc["insts"]], "calls": ops[:8],
			"policy": sc["sched"].get("pol"), "preempted_at": ["%s+%d" % x for x in self.sim.sites[:6]],
			"faults": self.stats["faults"]}

	# -- digests -----------------------------------------------------------

	def digest(self, op, res, exc):
		def canon(x):
			if type(x) is objects.Val:
				return "o%s" % op.vals.get(id(x), "?")
			if isinstance(x, tuple):
				return ["t"] + [canon(e) for e in tuple.__iter__(x)]
			if isinstance(x, list):
				return ["l"] + [canon(e) for e in x]
			if isinstance(x, dict):
				return ["d"] + [[repr(k), canon(v)] for k, v in x.items()]
			if type(x) in (int, float, bool, bytes, types.NoneType) or isinstance(x, str):
				return [type(x).__name__, repr(x)]
			return type(x).__name__
		if exc is not None:
			c = ["raised", type(exc).__name__]
		else:
			c = canon(res)
		self.results.append((op.spec["id"], str(c)))


def compare(res, want, many):
	"""What is wrong with a result, or ``None``."""
	if not isinstance(res, tuple) or len(res) != 2:
		return "kind of result"
	sql, out = res
	wsql, wout = want
	if isinstance(wsql, bytes):
		if not isinstance(sql, bytes):
			return "query type"
	elif not isinstance(sql, str):
		return "query type"
	if sql != wsql:
		return "query"
	if many:
		if not isinstance(out, list) or len(out) != len(wout):
			return "number of rows"
		for i, (g, w) in enumerate(zip(out, wout)):
			if not same_out(g, w):
				return "row %d" % i
	elif not same_out(out, wout):
		return "set of parameters"
	return None


def setting(conv, name):
	try:
		return getattr(conv, name)
	except sched.SimAbort:
		raise
	except Exception as e:
		return "out of reach: %s" % type(e).__name__


def regenerated(exc, raised):
	"""The RuntimeError Python makes of a StopIteration inside a generator (PEP 479)."""
	return type(exc) is RuntimeError and isinstance(exc.__cause__, (StopIteration, StopAsyncIteration)) and any(
		exc.__cause__ is e for e in raised)


def collect(th):
	"""Collect garbage; finalisers of the code under test run uninterrupted."""
	th.quiet += 1
	try:
		gc.collect()
	finally:
		th.quiet -= 1


def intact(obj, plain):
	tag, data = plain
	if tag == "bad":
		return True
	src = obj
	if isinstance(obj, (objects.SimMapping,)):
		src = obj._d
	elif isinstance(obj, objects.SimSequence):
		src = obj._l
	if tag == "map":
		now = list(src.items())
		if len(now) != len(data):
			return False
		if isinstance(src, dict):
			return all(a[0] is b[0] and a[1] is b[1] for a, b in zip(now, data))
		d = dict(now)
		return all(k in d and d[k] is v for k, v in data)
	now = list(src)
	return len(now) == len(data) and all(a is b for a, b in zip(now, data))


def snapshot(c):
	return list(c) if isinstance(c, list) else list(c.items())


def snap_same(c, s):
	now = snapshot(c)
	if len(now) != len(s):
		return False
	if isinstance(c, list):
		return all(a is b for a, b in zip(now, s))
	return all(a[0] == b[0] and a[1] is b[1] for a, b in zip(now, s))


def safe_str(e):
	try:
		return str(e)[:200]
	except BaseException:
		return "?"


def referrers(o, *but):
	names = []
	for r in gc.get_referrers(o)[:8]:
		if any(r is x for x in but):
			continue
		if isinstance(r, types.FrameType):
			names.append("frame " + r.f_code.co_qualname)
		else:
			names.append(type(r).__name__)
	return ", ".join(names) or "something"


def cfg_text(cfg):
	return "{" + ", ".join("%s=%r" % (k, v) for k, v in cfg.items() if k != "late") + "}"


def describe(spec):
	def val(v):
		if v[0] == "o":
			return "<value>"
		if v[0] in ("t", "T", "nt", "l", "d"):
			b = ", ".join(val(x) for x in v[1][:6]) + (", ..." if len(v[1]) > 6 else "")
			return {"l": "[%s]", "d": "{%s}"}.get(v[0], "(%s)") % b
		return repr(v[1]) if len(v) > 1 else {"n": "None"}.get(v[0], "<%s>" % v[0])

	def par(p):
		if p["c"] == "bad":
			return p["v"]
		if "items" in p:
			return p["c"] + "{" + ", ".join("%r: %s" % (k, val(v)) for k, v in p["items"][:8]) + "}"
		return p["c"] + "[" + ", ".join(val(v) for v in p["vals"][:8]) + "]"
	if spec.get("k") == "many":
		r = spec["rows"]
		if r["c"] == "bad":
			return "rows=" + r["v"]
		return "%s of %d rows %s" % (r["c"], len(r["rows"]), "; ".join(par(x) for x in r["rows"][:3]))
	return par(spec["params"]) if "params" in spec else spec.get("k", "")
