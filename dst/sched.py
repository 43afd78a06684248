"""
The deterministic scheduler.

Caller threads are real OS threads, but exactly one of them is ever released at
a time, and which one is decided here and only here, from one PRNG (or from a
recorded decision list).  A thread can be parked

* before every bytecode instruction of the code under test (``sys.monitoring``
  INSTRUCTION events on the code objects compiled from /repo's working tree),
* at every callback the library makes into a caller-supplied container,
* in a lock, sleep or wait (``threading`` locks and ``time`` are virtual).

The same events are the places where asynchronous exceptions and re-entrant
calls (signal handlers, finalisers) are injected; those are injected only where
CPython's eval loop really polls for them (function entry, after a call,
loop back-edge).
"""

import _thread
import datetime
import dis
import gc
import os
import queue
import random
import sys
import threading
import time

real_lock = _thread.allocate_lock
real_rlock = _thread.RLock
real_time = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter", "sleep", "process_time", "thread_time",
	"time_ns", "monotonic_ns", "perf_counter_ns", "process_time_ns", "thread_time_ns")}
real_calendar = {n: getattr(time, n) for n in ("localtime", "gmtime", "ctime")}
real_datetime = datetime.datetime
real_date = datetime.date
real_start = _thread.start_new_thread
real_getpid = os.getpid
real_gc = {n: getattr(gc, n) for n in ("enable", "disable", "isenabled")}
TOOL = 3
HUGE = 1 << 60

EPOCH = 1.7e9
TICK = 0.0  # seconds that pass with each reading of a clock
CUR = None  # the SimThread that is running, or None outside simulations


class SimAbort(BaseException):
	"""Unwinds every simulated thread after a deadlock or a step-cap hit."""


class SimThread:
	__slots__ = ("sim", "tid", "fn", "go", "state", "wake", "waitobj", "op", "n", "next", "npre",
		"inj", "inj_at", "armed", "base", "ident", "quiet", "finished", "aux")

	def __init__(self, sim, tid, fn):
		self.sim = sim
		self.tid = tid
		self.fn = fn
		self.go = real_lock()
		self.go.acquire()
		self.state = "run"  # run | sleep | wait | done | dead
		self.wake = 0.0
		self.waitobj = None
		self.aux = False  # a thread the code under test has started
		self.finished = 0  # top-level operations
		self.op = -1  # id of the top-level operation in progress
		self.n = 0  # events since that operation began
		self.npre = HUGE  # event number of the next preemption
		self.inj = None
		self.inj_at = HUGE
		self.next = HUGE
		self.armed = False
		self.quiet = 0


class RecordingDecider:
	"""Draws decisions from a PRNG and logs them."""

	def __init__(self, spec):
		self.rng = random.Random(spec["seed"])
		self.pol = spec["pol"]
		self.mean = spec.get("mean", 50)
		self.cbp = spec.get("cbp", 0.3)
		self.log = []
		self.pcts = list(spec.get("pts", ()))

	def gap(self, th):
		pol = self.pol
		if pol == "gap":
			return th.n + 1 + int(self.rng.expovariate(1.0 / self.mean))
		if pol == "lock":
			return th.n + self.rng.randint(1, 3)
		if pol == "pct":
			# A few preemption points, at set event counts of each operation.
			for p in self.pcts:
				if p > th.n:
					return p
			return HUGE
		return HUGE

	def idle_gap(self, th):
		return HUGE

	def at_callback(self, th):
		return self.cbp > 0 and self.rng.random() < self.cbp

	def choose(self, why, th, runnable):
		if len(runnable) == 1:
			c = runnable[0]
		else:
			c = runnable[self.rng.randrange(len(runnable))]
		if why == "p" or len(runnable) > 1:
			self.log.append([why, th.tid if th else -1, th.op if th else -1, th.n if th else 0, c.tid])
		return c


class ReplayDecider:
	"""Follows a recorded decision list; tolerates lists that were shrunk."""

	def __init__(self, dec):
		self.p = {}
		self.b = {}
		for why, tid, op, n, to in dec:
			if why == "p":
				self.p.setdefault((tid, op), {})[n] = to
			else:
				self.b[(tid, op, n)] = to
		self.log = []

	def gap(self, th):
		d = self.p.get((th.tid, th.op))
		if not d:
			return HUGE
		c = [n for n in d if n > th.n]
		return min(c) if c else HUGE

	idle_gap = gap

	def at_callback(self, th):
		return False

	def choose(self, why, th, runnable):
		key = (th.tid, th.op, th.n) if th else (-1, -1, 0)
		if why == "p":
			to = self.p.get(key[:2], {}).get(key[2])
		else:
			to = self.b.get(key)
		c = None
		for t in runnable:
			if t.tid == to:
				c = t
		if c is None:
			c = min(runnable, key=lambda t: t.tid)
		if why == "p" or len(runnable) > 1:
			self.log.append([why, key[0], key[1], key[2], c.tid])
		return c


class Sim:
	def __init__(self, spec, stepcap=200000):
		self.decider = ReplayDecider(spec["dec"]) if spec["pol"] == "replay" else RecordingDecider(spec)
		self.threads = []
		self.now = 0.0
		self.wall = 0.0  # how far the wall clock is off
		self.main = real_lock()
		self.main.acquire()
		self.steps = 0
		self.stepcap = stepcap
		self.abort = None
		self.sites = []  # (code name, offset) at which a thread was preempted
		self.on_switch = None
		self.in_main = False  # the first thread is the main thread of this process
		self.stats = {"preempt": 0, "block": 0, "sleep": 0, "events": 0}
		self.errors = []
		self.forks = 0
		self.name = None  # what the caller calls its threads

	# -- controller side --------------------------------------------------

	def add(self, fn):
		th = SimThread(self, len(self.threads), fn)
		self.threads.append(th)
		return th

	def add_aux(self, fn):
		"""A thread started in the middle of a run."""
		th = self.add(fn)
		th.aux = True
		th.op = -500 - th.tid
		th.npre = self.decider.gap(th)
		th.next = min(th.npre, self.stepcap)
		real_start(self._body, (th,))
		self.point(cb=False)
		return th

	def run(self):
		global CUR
		for th in self.threads:
			if not self.in_main or th.tid:
				real_start(self._body, (th,))
		if self.threads:
			first = self.decider.choose("s", None, list(self.threads))
			CUR = first
			first.go.release()
			if self.in_main:
				self._body(self.threads[0])
			self.main.acquire()
		CUR = None

	def _body(self, th):
		th.go.acquire()
		named = self.name is not None and not th.aux and not (self.in_main and th.tid == 0)
		try:
			if named:
				threading.current_thread().name = self.name
			if not self.abort:
				th.fn(th)
		except SimAbort:
			pass
		except BaseException as e:  # a defect of the harness, never a verdict
			import traceback
			self.errors.append("".join(traceback.format_exception(e)))
		if named:
			threading._active.pop(_thread.get_ident(), None)
		th.state = "done"
		self.wake(th)
		th.op = -2
		th.n = 0
		self._leave(th)

	def _leave(self, th):
		global CUR
		nxt = self._pick("e", th)
		if nxt is None:
			CUR = None
			self.main.release()
		else:
			CUR = nxt
			nxt.go.release()

	def _runnable(self):
		return [t for t in self.threads if t.state == "run"]

	def _pick(self, why, th):
		"""The next thread to run, advancing the clock when nobody can."""
		while True:
			r = self._runnable()
			if self.abort:
				# Unwind everybody, whatever they were waiting for.
				r = [t for t in self.threads if t.state != "done"]
				for t in r:
					t.state = "run"
				return r[0] if r else None
			if r:
				return self.decider.choose(why, th, r)
			s = [t for t in self.threads if t.state == "sleep"]
			if s:
				t = min(s, key=lambda t: (t.wake, t.tid))
				self.now = max(self.now, t.wake)
				t.state = "run"
				continue
			if any(t.state == "wait" and not t.aux for t in self.threads):
				self.abort = "deadlock"
				continue
			if any(t.state in ("dead", "wait") for t in self.threads):
				self.abort = "over"
				continue
			return None

	# -- simulated-thread side -------------------------------------------

	def _switch(self, th, nxt):
		global CUR
		if nxt is not th:
			if self.on_switch:
				self.on_switch(th, nxt)
			CUR = nxt
			nxt.go.release()
			th.go.acquire()
		if self.abort:
			raise SimAbort()

	def begin_op(self, th, op, inj=None):
		th.op = op
		th.n = 0
		th.inj = sorted(inj, key=lambda f: f["n"]) if inj else None
		th.armed = False
		th.inj_at = th.inj[0]["n"] if th.inj else HUGE
		th.npre = self.decider.gap(th)
		th.next = min(th.npre, th.inj_at, self.stepcap)

	def end_op(self, th):
		self.steps += th.n
		self.stats["events"] += th.n
		th.inj = None
		th.armed = False
		th.inj_at = th.next = HUGE
		# Between operations; the number tells which one is over.
		th.op = -100 - th.op
		th.n = 0
		th.npre = self.decider.idle_gap(th)

	def disarm(self, th):
		"""No further fault in this operation."""
		th.inj = None
		th.inj_at = HUGE
		th.next = min(th.npre, self.stepcap)

	def preempt(self, th):
		self.stats["preempt"] += 1
		nxt = self.decider.choose("p", th, [t for t in self._runnable() if t is not th] or [th])
		self._switch(th, nxt)

	def point(self, cb=True):
		"""A scheduling point in harness code (container callbacks)."""
		th = CUR
		if th is None or th.sim is not self:
			return
		if self.abort:
			raise SimAbort()
		th.n += 1
		if th.n > self.stepcap:
			self._bound(th)
		if th.n >= th.npre:
			self.preempt(th)
			th.npre = self.decider.gap(th)
			th.next = min(th.npre, th.inj_at, self.stepcap)
		elif cb and self.decider.at_callback(th):
			self.preempt(th)

	def _bound(self, th):
		if th.n > self.stepcap:
			self.abort = self.abort or "stepcap"
			raise SimAbort()

	def sleep(self, dt):
		th = CUR
		th.n += 1
		self._bound(th)
		self.stats["sleep"] += 1
		th.state = "sleep"
		th.wake = self.now + max(dt, 0.0)
		self._switch(th, self._pick("b", th))

	def wait(self, obj):
		"""Park until :meth:`wake` is called for *obj*."""
		th = CUR
		th.n += 1
		self.stats["block"] += 1
		th.state = "wait"
		th.waitobj = obj
		self._switch(th, self._pick("b", th))
		th.waitobj = None

	def fork(self):
		"""Go on in the child process: no other thread exists there."""
		for f in reversed(at_fork):
			if f[0]:
				f[0]()
		for t in self.threads:
			if t is not CUR and t.state != "done":
				t.state = "dead"
		self.forks += 1
		for f in at_fork:
			if f[1]:
				f[1]()

	def wake(self, obj):
		for t in self.threads:
			if t.state == "wait" and t.waitobj is obj:
				t.state = "run"


# ---------------------------------------------------------------------------
# Instruction events
# ---------------------------------------------------------------------------

_eligible = {}


def eligible_offsets(code):
	"""Offsets at which the eval loop has just polled for pending work."""
	s = _eligible.get(code)
	if s is None:
		s = set()
		prev = None
		for ins in dis.get_instructions(code):
			if prev is not None and (prev.opname in ("RESUME", "CALL", "CALL_FUNCTION_EX")):
				s.add(ins.offset)
			if ins.opname.startswith("JUMP_BACKWARD") and ins.opname != "JUMP_BACKWARD_NO_INTERRUPT":
				s.add(ins.argval)
			prev = ins
		s = frozenset(s)
		_eligible[code] = s
	return s


fire_hook = None  # set by the engine: fire_hook(th, fault) may raise


lost = []  # exceptions CPython dropped, because a finaliser raised them


def unraisable(u):
	if u.exc_value is not None:
		lost.append(u.exc_value)


def _on_instruction(code, off):
	th = CUR
	if th is None or th.quiet:
		return
	th.n += 1
	if th.n >= th.next:
		_slow(th, code, off)


def _slow(th, code, off):
	sim = th.sim
	if sim.abort:
		raise SimAbort()
	if th.n > sim.stepcap:
		sim._bound(th)
	if th.n >= th.inj_at and off in eligible_offsets(code):
		f = th.inj.pop(0)
		th.inj_at = th.inj[0]["n"] if th.inj else HUGE
		th.next = min(th.npre, th.inj_at, sim.stepcap)
		th.quiet += 1
		try:
			sim.inj_site = (code.co_qualname, off)
			fire_hook(th, f)
		finally:
			th.quiet -= 1
	if th.n >= th.npre:
		sim.sites.append((code.co_qualname, off))
		sim.preempt(th)
		th.npre = sim.decider.gap(th)
	th.next = min(th.npre, th.inj_at, sim.stepcap)


def _walk(code):
	yield code
	for c in code.co_consts:
		if hasattr(c, "co_code"):
			yield from _walk(c)


_instrumented = _instrumented_modules = False
_codes = []
_modcodes = []


def setup_monitoring(module_codes):
	"""Register once per process; *module_codes* are the compiled modules."""
	mon = sys.monitoring
	mon.use_tool_id(TOOL, "verif-dst")
	mon.register_callback(TOOL, mon.events.INSTRUCTION, _on_instruction)
	for m in module_codes:
		for c in _walk(m):
			(_codes if c is not m else _modcodes).append(c)


def instrument(on, modules=False):
	"""Trace functions (and, while importing, the modules' own code) or nothing."""
	global _instrumented, _instrumented_modules
	mon = sys.monitoring
	if on != _instrumented:
		ev = mon.events.INSTRUCTION if on else 0
		for c in _codes:
			mon.set_local_events(TOOL, c, ev)
		_instrumented = on
	if modules != _instrumented_modules:
		ev = mon.events.INSTRUCTION if modules else 0
		for c in _modcodes:
			mon.set_local_events(TOOL, c, ev)
		_instrumented_modules = modules


# ---------------------------------------------------------------------------
# Virtual locks and clocks
# ---------------------------------------------------------------------------

class SimLock:
	"""``threading.Lock`` and ``RLock`` for simulated threads."""

	_re = False

	def __init__(self):
		self._owner = None
		self._count = 0
		self._sim = None

	def _me(self):
		return CUR if CUR is not None else "main"

	def acquire(self, blocking=True, timeout=-1):
		me = self._me()
		if self._re and self._owner is me:
			self._count += 1
			return True
		if me == "main":
			if self._owner is not None:
				if not blocking:
					return False
				raise RuntimeError("lock left held by a finished simulated thread")
			self._owner = me
			self._count = 1
			return True
		sim = me.sim
		if self._sim is not sim:
			self._sim = sim
		sim.point(cb=False)
		deadline = None if timeout is None or timeout < 0 else sim.now + timeout
		while self._owner is not None:
			if not blocking:
				return False
			if deadline is not None:
				if sim.now >= deadline:
					return False
				sim.sleep(min(0.001, deadline - sim.now) or 0.001)
			else:
				sim.wait(self)
		self._owner = me
		self._count = 1
		return True

	__enter__ = acquire

	def release(self):
		if self._owner is None:
			if self._sim is not None and self._sim.abort:
				raise SimAbort()  # unwinding: who holds what no longer matters
			raise RuntimeError("release unlocked lock")
		if self._re and self._owner is not self._me():
			raise RuntimeError("cannot release un-acquired lock")
		self._count -= 1
		if self._count <= 0:
			self._owner = None
			if self._sim is not None:
				self._sim.wake(self)

	def __exit__(self, *a):
		self.release()

	def locked(self):
		return self._owner is not None

	def __reduce_ex__(self, proto):
		raise TypeError("cannot pickle '_thread.lock' object")

	def _at_fork_reinit(self):
		self._owner = None
		self._count = 0

	# Used by threading.Condition.
	def _is_owned(self):
		return self._owner is self._me()

	def _release_save(self):
		c = self._count
		self._count = 1
		self.release()
		return c

	def _acquire_restore(self, c):
		self.acquire()
		self._count = c


class SimRLock(SimLock):
	_re = True


def _sim_time(name):
	real = real_time[name]

	def f():
		th = CUR
		if th is None:
			return real()
		sim = th.sim
		sim.now += TICK
		t = EPOCH + sim.now + (sim.wall if name.startswith("time") else 0.0)
		return int(t * 1e9) if name.endswith("_ns") else t
	f.__name__ = name
	return f


def _sim_calendar(name):
	real = real_calendar[name]

	def f(secs=None):
		return real(time.time() if secs is None else secs)
	f.__name__ = name
	return f


class _Dates(type(datetime.date)):
	def __instancecheck__(cls, x):
		return isinstance(x, cls.real)


class SimDate(datetime.date, metaclass=_Dates):
	real = datetime.date

	@classmethod
	def today(cls):
		return real_date.fromtimestamp(time.time())


class SimDatetime(datetime.datetime, metaclass=_Dates):
	real = datetime.datetime

	@classmethod
	def now(cls, tz=None):
		return real_datetime.fromtimestamp(time.time(), tz)

	@classmethod
	def utcnow(cls):
		return real_datetime.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

	@classmethod
	def today(cls):
		return real_datetime.fromtimestamp(time.time())


def _sim_urandom(n):
	return random.randbytes(n)


def _sim_start_new_thread(function, args=(), kwargs={}):
	th = CUR
	if th is None:
		return real_start(function, args, kwargs)
	return 1000000 + th.sim.add_aux(lambda _: function(*args, **kwargs)).tid


def _sim_thread(cls):
	"""``threading.Thread`` for the threads the code under test starts."""
	start, join, alive = cls.start, cls.join, cls.is_alive

	def sim_start(self):
		if CUR is not None:
			sim = CUR.sim
			hook = self._invoke_excepthook
			self._invoke_excepthook = lambda t: None if sim.abort else hook(t)
			self._simth = len(sim.threads), sim
		start(self)

	def sim_join(self, timeout=None):
		at = self.__dict__.get("_simth")
		if at is None or CUR is None or at[1] is not CUR.sim or at[0] >= len(at[1].threads):
			return join(self, timeout)
		sim = at[1]
		th = sim.threads[at[0]]
		deadline = None if timeout is None else sim.now + timeout
		while th.state != "done":
			if deadline is None:
				sim.wait(th)
			elif sim.now >= deadline:
				return
			else:
				sim.sleep(min(0.001, deadline - sim.now) or 0.001)

	def sim_alive(self):
		at = self.__dict__.get("_simth")
		if at is None or CUR is None or at[0] >= len(at[1].threads):
			return alive(self)
		return at[1].threads[at[0]].state != "done"
	cls.start, cls.join, cls.is_alive = sim_start, sim_join, sim_alive


def _sim_sleep(dt):
	th = CUR
	if th is None:
		real_time["sleep"](dt)
	else:
		th.sim.sleep(dt)


at_fork = []  # what the code under test registered: (before, after_in_child)


def _register_at_fork(*, before=None, after_in_child=None, after_in_parent=None):
	at_fork.append((before, after_in_child))


def _sim_getpid():
	return real_getpid() + (CUR.sim.forks << 20 if CUR is not None else 0)


_gc = [True]


def gc_on():
	"""Whether the simulated process collects garbage by itself (the real one does at set times)."""
	return _gc[0]


def gc_set(on):
	_gc[0] = on


def virtualise():
	"""Put locks and clocks behind the simulator, before the SUT is imported."""
	for n in ("Lock", "_allocate_lock"):
		setattr(threading, n, SimLock)
	for n in ("RLock", "_RLock", "_CRLock"):
		setattr(threading, n, SimRLock)
	_thread.allocate_lock = SimLock
	_thread.RLock = SimRLock
	_thread.start_new_thread = _thread.start_new = threading._start_new_thread = _sim_start_new_thread
	_sim_thread(threading.Thread)
	queue.SimpleQueue = queue._PySimpleQueue
	gc.isenabled = gc_on
	gc.enable = lambda: gc_set(True)
	gc.disable = lambda: gc_set(False)
	os.register_at_fork = _register_at_fork
	os.getpid = _sim_getpid
	for n in real_time:
		setattr(time, n, _sim_sleep if n == "sleep" else _sim_time(n))
	for n in real_calendar:
		setattr(time, n, _sim_calendar(n))
	for c, n in ((SimDate, "date"), (SimDatetime, "datetime")):
		c.__name__ = c.__qualname__ = n
		c.__module__ = "datetime"
	datetime.datetime = SimDatetime
	datetime.date = SimDate
	os.urandom = random._urandom = _sim_urandom
