"""
C13: the documentation generator (prebuild.py) on a simulated disk.

A scenario is a list of steps: run the generator (with I/O faults and crashes),
edit or damage files, move the clock.  The generator is executed from /repo's
working tree inside a scratch directory; every file operation it makes goes
through ``SimRaw`` and the patched ``os`` functions below, which count, delay,
shorten, refuse or cut them off, and freeze the disk at a crash.
"""

import builtins
import contextlib
import errno
import hashlib
import io
import locale
import os
import random
import shutil
import sys
import tempfile

import loader

real_open = builtins.open
real = {n: getattr(os, n) for n in (
	"replace", "rename", "remove", "unlink", "fsync", "truncate", "open", "write", "close", "ftruncate", "link", "symlink",
	"rmdir", "mkdir")}
INPUTS = ("README.rst.in", "CHANGES.rst")
OUTPUTS = ("README.rst", "README-dist.rst")


class SimCrash(BaseException):
	"""The machine stops here: nothing after this reaches the disk."""


class Escape(Exception):
	"""The generator tried to write outside its directory."""


class Disk:
	def __init__(self, root):
		self.root = root
		self.ops = 0
		self.frozen = False
		self.faults = []
		self.fired = []
		self.written = 0
		self.cap = None
		self.trace = []
		self.active = False
		self.first_error = None
		self.locale = "utf-8"

	def inside(self, path):
		try:
			p = os.path.abspath(os.fspath(path))
		except TypeError:
			return False
		if isinstance(p, bytes):
			p = os.fsdecode(p)
		return p == self.root or p.startswith(self.root + os.sep)

	def begin(self, faults):
		self.ops = 0
		self.frozen = False
		self.faults = [dict(f) for f in faults]
		self.fired = []
		self.written = 0
		self.cap = None
		self.first_error = None
		for f in self.faults:
			if f["kind"] == "cap":
				self.cap = f["n"]

	def op(self, name, path):
		"""One I/O operation; may fail.  Returns a fault that shortens it."""
		if self.frozen:
			raise SimCrash()
		self.ops += 1
		self.trace.append((name, os.path.basename(str(path))))
		for f in self.faults:
			if f.get("done") or f["kind"] == "cap":
				continue
			if f.get("on") not in (None, name) or self.count(f) < f["n"]:
				continue
			k = f["kind"]
			if k == "short":
				if name not in ("read", "write"):
					continue
				f["done"] = True
				self.fire("short@" + name)
				return f
			if name == "close" and k == "crash" and f.get("torn"):
				continue
			f["done"] = True
			if k == "crash":
				if f.get("torn") and name == "write":
					return f  # part of the data gets there first
				self.crash(name)
			if k == "KeyboardInterrupt":
				self.fire("KeyboardInterrupt@" + name)
				raise KeyboardInterrupt("injected")
			self.fire("%s@%s" % (k, name))
			e = OSError(getattr(errno, k), os.strerror(getattr(errno, k)), str(path))
			raise e
		return None

	def count(self, f):
		f["seen"] = f.get("seen", 0) + 1
		return f["seen"]

	def crash(self, name):
		self.fire("crash@" + name)
		self.frozen = True
		raise SimCrash()

	def fire(self, what):
		self.fired.append(what)


disk = None


class SimRaw(io.RawIOBase):
	"""A raw file whose every operation is the simulator's to decide."""

	def __init__(self, path, mode, opener=None):
		super().__init__()
		self._d = disk
		self._path = path
		self.name = path
		self._w = any(c in mode for c in "wax+")
		self._r = "r" in mode or "+" in mode
		if not isinstance(path, int):
			self._d.op("open-w" if self._w else "open", path)
		self._fh = io.FileIO(path, mode.replace("b", "").replace("t", ""), opener=opener)
		self.mode = self._fh.mode

	def readable(self):
		return self._r

	def writable(self):
		return self._w

	def seekable(self):
		return True

	def seek(self, *a):
		return self._fh.seek(*a)

	def tell(self):
		return self._fh.tell()

	def truncate(self, *a):
		self._d.op("truncate", self._path)
		return self._fh.truncate(*a)

	def fileno(self):
		return self._fh.fileno()

	def readinto(self, buf):
		f = self._d.op("read", self._path)
		if f and len(buf) > 1:
			return self._fh.readinto(memoryview(buf)[:max(1, f.get("len", 1))])
		return self._fh.readinto(buf)

	def write(self, data):
		d = self._d
		f = d.op("write", self._path)
		b = bytes(data)
		if f and f["kind"] == "crash":
			self._fh.write(b[:f.get("len", 0) % (len(b) + 1)])
			d.crash("write")
		if f and len(b) > 1:
			b = b[:max(1, f.get("len", 1) % len(b))]
		if d.cap is not None and d.written + len(b) > d.cap:
			room = d.cap - d.written
			if room <= 0:
				d.fire("ENOSPC@full")
				raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), str(self._path))
			b = b[:room]
			d.fire("short@full")
		n = self._fh.write(b)
		d.written += n
		return n

	def close(self):
		if self.closed:
			return
		try:
			if not self._d.frozen:
				self._d.op("close", self._path)
		finally:
			self._fh.close()
			super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
	if disk is None or not disk.active or not (isinstance(file, int) or disk.inside(file)):
		if disk is not None and disk.active and any(c in mode for c in "wax+") and not isinstance(file, int):
			raise Escape(str(file))
		return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
	raw = SimRaw(file, mode, opener)
	if buffering == 0:
		return raw
	size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
	if "+" in mode:
		buf = io.BufferedRandom(raw, size)
	elif any(c in mode for c in "wax"):
		buf = io.BufferedWriter(raw, size)
	else:
		buf = io.BufferedReader(raw, size)
	if "b" in mode:
		return buf
	if encoding in (None, "locale"):
		encoding = disk.locale
	t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
	t.mode = mode
	return t


def wrap_os(name):
	f = real[name]

	def g(*a, **k):
		d = disk
		if d is None or not d.active:
			return f(*a, **k)
		if name == "open":
			flags = a[1] if len(a) > 1 else k.get("flags", 0)
			w = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
			if not d.inside(a[0]):
				if w:
					raise Escape(str(a[0]))
				return f(*a, **k)
			d.op("open-w" if w else "open", a[0])
			return f(*a, **k)
		if name == "close":
			return f(*a, **k)
		if name == "write":
			if a[0] > 2:
				x = d.op("write", "fd")
				if x and x["kind"] == "crash":
					f(a[0], a[1][:x.get("len", 0) % (len(a[1]) + 1)])
					d.crash("write")
				if x and len(a[1]) > 1:
					return f(a[0], a[1][:max(1, x.get("len", 1) % len(a[1]))])
			return f(*a, **k)
		for p in a[:2] if name in ("replace", "rename", "link", "symlink") else a[:1]:
			if not isinstance(p, int) and not d.inside(p):
				raise Escape(str(p))
		d.op("rename" if name in ("replace", "rename") else name, a[0])
		return f(*a, **k)
	g.__name__ = name
	return g


@contextlib.contextmanager
def patched(d, argv):
	global disk
	disk = d
	saved = (builtins.open, io.open, sys.argv, sys.stdout, sys.stderr, os.getcwd(), sys.unraisablehook, sys.path[:])
	wrapped = {n: wrap_os(n) for n in real}
	builtins.open = io.open = sim_open
	locales = (locale.getencoding, locale.getpreferredencoding)
	locale.getencoding = lambda: d.locale
	locale.getpreferredencoding = lambda do_setlocale=True: d.locale
	for n, g in wrapped.items():
		setattr(os, n, g)
	sys.argv = argv
	sys.stdout = io.StringIO()
	sys.stderr = io.StringIO()
	sys.unraisablehook = lambda u: None
	os.chdir(d.root)
	d.active = True
	try:
		yield
	finally:
		d.active = False
		builtins.open, io.open, sys.argv, sys.stdout, sys.stderr = saved[:5]
		locale.getencoding, locale.getpreferredencoding = locales
		for n, f in real.items():
			setattr(os, n, f)
		os.chdir(saved[5])
		sys.unraisablehook = saved[6]
		sys.path[:] = saved[7]
		disk = None


_code = None


def run_generator(root, faults, encoding="utf-8", script=False):
	"""One execution: ``(disk, "ok" | "failed" | "crashed", text)``."""
	global _code
	path = os.path.join(loader.REPO, "prebuild.py")
	if _code is None:
		with real_open(path, "rb") as fh:
			_code = fh.read()
	d = Disk(root)
	d.begin(faults)
	d.locale = encoding
	me = os.path.join(root, "prebuild.py")
	ns = {"__name__": "__main__" if script else "prebuild", "__file__": me, "__builtins__": builtins}
	code = compile(_code, me, "exec", dont_inherit=True)
	with patched(d, [me]):
		try:
			exec(code, ns)
			rc = None if script else ns["main"]()
			end = ("ok", "") if not rc else ("failed", "exit status %r" % (rc,))
		except SimCrash:
			end = ("crashed", "")
		except SystemExit as e:
			end = ("ok", "") if not e.code else ("failed", "exit status %r" % (e.code,))
		except Escape as e:
			end = ("escape", str(e))
		except BaseException as e:
			end = ("failed", "%s: %s" % (type(e).__name__, e))
		if d.frozen and end[0] != "escape":
			end = ("crashed", "")
	return d, end[0], end[1]


def put(root, name, text, when):
	p = os.path.join(root, name)
	if text is None:
		with contextlib.suppress(FileNotFoundError):
			real["unlink"](p)
		return
	with real_open(p, "wb") as fh:
		fh.write(text.encode("utf-8", "surrogateescape"))
	os.utime(p, (when, when))


def get(root, name):
	try:
		with real_open(os.path.join(root, name), "rb") as fh:
			return fh.read()
	except FileNotFoundError:
		return None


class Eng:
	"""The counters check.py expects of a finished run."""

	class S:
		pass

	def __init__(self, sc):
		self.sc = sc
		self.stats = {"runs_ok": 0, "runs_failed": 0, "runs_crashed": 0, "io_ops": 0, "faults": {}, "probes": {}}
		self.sim = Eng.S()
		self.sim.stats = {"events": 0, "preempt": 0, "block": 0, "sleep": 0}
		self.sim.now = 0.0
		self.sig = hashlib.sha1()

	def sample(self):
		return {"seed": self.sc["seed"], "steps": [
			{k: (v if not isinstance(v, str) or len(v) < 60 else v[:57] + "...") for k, v in s.items()}
			for s in self.sc["steps"]][:8], "faults": self.stats["faults"]}


def valid(b):
	if b is None:
		return False
	try:
		b.decode("utf-8")
	except UnicodeDecodeError:
		return False
	return True


def norm(b):
	return b.decode("utf-8").replace("\r\n", "\n").replace("\r", "\n")


def prescribed(inp):
	"""README.rst as README.rst.in prescribes it: roles that only Sphinx knows are replaced, targets follow."""
	text = norm(inp)
	for role, name, new in (("class", "dict", "*dict*"), ("class", "tuple", "*tuple*"), ("class", ".SQLParams", "`SQLParams`_"),
			("meth", ".SQLParams.format", "`SQLParams.format`_"), ("meth", ".SQLParams.formatmany", "`SQLParams.formatmany`_"),
			("mod", "sqlparams", "*sqlparams*")):
		text = text.replace(":%s:`%s`" % (role, name), new)
	url = "https://python-sql-parameters.readthedocs.io/en/latest/sqlparams.html#sqlparams."
	return text + "\n" + "".join(".. _`%s`: %s%s\n" % (x, url, x) for x in ("SQLParams", "SQLParams.format", "SQLParams.formatmany"))


def simulate(sc):
	import check
	top = tempfile.mkdtemp(prefix="verif-c13-")
	root = os.path.realpath(top)
	e = Eng(sc)
	try:
		why = steps(sc, root, e)
	finally:
		shutil.rmtree(root, ignore_errors=True)
	return check.Outcome("docs" if why else None, why, None, e)


def reference(inp, chg):
	"""What a generator run on a healthy disk without old outputs writes."""
	root = os.path.realpath(tempfile.mkdtemp(prefix="verif-c13r-"))
	try:
		for n, b in zip(INPUTS, (inp, chg)):
			with real_open(os.path.join(root, n), "wb") as fh:
				fh.write(b)
		d, end, msg = run_generator(root, [])
		return end, msg, [get(root, n) for n in OUTPUTS], d.ops
	finally:
		shutil.rmtree(root, ignore_errors=True)


def steps(sc, root, e):
	now = 1.7e9
	if sc.get("locale", "utf-8") != "utf-8":
		probe(e, "locale-" + sc["locale"])
	put(root, INPUTS[0], sc["inp"], now)
	put(root, INPUTS[1], sc["changes"], now)
	put(root, OUTPUTS[0], sc["readme"], now + sc.get("skew", 0))
	put(root, OUTPUTS[1], sc["dist"], now + sc.get("skew", 0))
	for n, st in enumerate(sc["steps"]):
		now += st.get("dt", 1.0)
		do = st["do"]
		if do == "edit":
			put(root, st["file"], st["text"], now + st.get("skew", 0))
			probe(e, "input-edited" if st["text"] is not None else "input-removed")
			continue
		if do == "damage":
			b = get(root, st["file"])
			if b is None:
				continue
			k = int(st["at"] * len(b))
			how = st["how"]
			if st.get("line"):
				k = b.rfind(b"\n", 0, k) + 1
			b = {"truncate": b[:k], "zero": b[:k] + b"\0" * (len(b) - k), "garbage": b[:k] + b"\xff\xfe junk" + b[k:],
				"hole": b[:k] + b"\0" * 40 + b[k + 40:], "extend": b + b"stale tail\n" * 3, "empty": b"", "delete": None}[how]
			if b is None:
				real["unlink"](os.path.join(root, st["file"]))
			else:
				with real_open(os.path.join(root, st["file"]), "wb") as fh:
					fh.write(b)
				t = now + st.get("skew", 0)
				os.utime(os.path.join(root, st["file"]), (t, t))
			count(e, "damage-%s@%s" % (how, "output" if st["file"] in OUTPUTS else "input"))
			continue
		before = {x: get(root, x) for x in INPUTS}
		old = {x: get(root, x) for x in OUTPUTS}
		d, end, msg = run_generator(root, st.get("faults", ()), sc.get("locale", "utf-8"), sc.get("script"))
		e.stats["io_ops"] += d.ops
		e.sim.stats["events"] += d.ops
		e.sim.now = now - 1.7e9
		e.stats["runs_" + end] = e.stats.get("runs_" + end, 0) + 1
		for f in d.fired:
			count(e, f)
		e.sig.update(repr((end, d.fired, d.trace)).encode())
		# Files written in this run carry this run's time.
		for x in os.listdir(root):
			b = get(root, x) if os.path.isfile(os.path.join(root, x)) else None
			if x not in INPUTS and b is not None and b != old.get(x):
				os.utime(os.path.join(root, x), (now, now))
		if end == "escape":
			return "step %d: the generator wrote outside its directory: %s" % (n, msg)
		for x in INPUTS:
			if get(root, x) != before[x]:
				return "step %d: the generator changed its input %s (%s)" % (n, x, end)
		ok_inputs = all(valid(before[x]) for x in INPUTS)
		if end == "ok" and not ok_inputs:
			bad = [x for x in INPUTS if not valid(before[x])]
			return "step %d: success reported although %s is missing or corrupt" % (n, bad[0])
		if end == "ok":
			rend, rmsg, ref, _ = reference(before[INPUTS[0]], before[INPUTS[1]])
			if rend != "ok":
				return "step %d: a run succeeded where a run on a fresh disk fails: %s" % (n, rmsg)
			got = [get(root, x) for x in OUTPUTS]
			if None in got:
				return "step %d: success reported%s, but %s is missing" % (
					n, " after " + ", ".join(d.fired) if d.fired else "", OUTPUTS[got.index(None)])
			for x, g, r in zip(OUTPUTS, got, ref):
				if g != r:
					return "step %d: success reported%s, but %s is %s" % (
						n, " after " + ", ".join(d.fired) if d.fired else "", x, diff(g, r))
			if norm(got[1]) != norm(got[0]) + "\n\n" + norm(before[INPUTS[1]]):
				return "step %d: README-dist.rst is not README.rst followed by CHANGES.rst" % n
			want = prescribed(before[INPUTS[0]])
			if norm(got[0]) != want:
				return "step %d: README.rst is not what README.rst.in prescribes: %s" % (n, diff(norm(got[0]), want))
			if any(v not in (None, r) for v, r in zip(old.values(), ref)):
				probe(e, "stale-output-replaced")
		elif end == "failed" and ok_inputs and not d.fired:
			return "step %d: the generator failed on a healthy disk: %s" % (n, msg)
		elif end == "crashed":
			probe(e, "crashed-mid-run")
			torn(root, st, before, now, e)
	return None


def torn(root, st, before, now, e):
	"""What was not synced may be lost: each file keeps only part of its data."""
	for x in sorted(os.listdir(root)):
		if x in INPUTS or x not in st.get("lost", {}):
			continue
		b = get(root, x)
		if b is None:
			continue
		k = int(st["lost"][x] * len(b))
		with real_open(os.path.join(root, x), "wb") as fh:
			fh.write(b[:k])
		os.utime(os.path.join(root, x), (now, now))
		count(e, "lost-write@" + x)


def diff(g, r):
	if g is None:
		return "missing"
	n = next((i for i, (a, b) in enumerate(zip(g, r)) if a != b), min(len(g), len(r)))
	return "%d bytes instead of %d, wrong from byte %d" % (len(g), len(r), n)


def count(e, what):
	e.stats["faults"][what] = e.stats["faults"].get(what, 0) + 1


def probe(e, what):
	e.stats["probes"][what] = e.stats["probes"].get(what, 0) + 1


# ---------------------------------------------------------------------------

WORDS = ("The :class:`.SQLParams` class", "*sqlparams* is", ":mod:`sqlparams`", ":meth:`.SQLParams.format`",
	":meth:`.SQLParams.formatmany`", "a :class:`dict` and a :class:`tuple`", "caf\u00e9", "\u2603 snow", "=====", "-----",
	"``code``", ".. _`link`: https://x.org/", "6.2.0 (2024-01-25)", "- `Issue #1`_", "\U0001f40d", "", "\ttab", "trailing  ",
	"\x0c", "next\x85line", "\u2028para\u2029", "\x1c\x1d\x1e", "\x1a", "\ufeffbom", "\x00\x00", "nul \x00 inside", "e\u0301", "{x} %s $y", "..")


def text(r, big=0.05):
	n = r.choice([0, 1, 3, 8, 20]) if r.random() > big else r.randint(400, 6000)
	nl = r.choice(["\n", "\n", "\n", "\n", "\n", "\n", "\r\n", "\r\n", "\r"])
	s = nl.join("%s %d" % (r.choice(WORDS), i) for i in range(n))
	if r.random() < 0.03:
		s = "\ufeff" + s
	return s + (nl if n and r.random() < 0.8 else "")


def generate(seed):
	r = random.Random(seed)
	sc = {"v": 1, "prop": "C13", "seed": seed, "inp": text(r), "changes": text(r),
		"readme": None if r.random() < 0.3 else text(r), "dist": None if r.random() < 0.3 else text(r),
		"skew": r.choice([0, 0, -100, 100, 1e6]), "steps": []}
	for _ in range(r.randint(1, 5)):
		u = r.random()
		if u < 0.55:
			st = {"do": "run", "dt": r.choice([1, 60])}
			fs = []
			for _ in range(r.choice([0, 1, 1, 1, 2, 3])):
				v = r.random()
				if v < 0.35:
					fs.append({"kind": "crash", "n": r.randint(1, 30), "on": r.choice([None, None, "write", "close", "open-w", "rename"]),
						"torn": r.random() < 0.6, "len": r.randint(0, 3000)})
					if fs[-1]["on"]:
						fs[-1]["n"] = r.randint(1, 4)
				elif v < 0.5:
					fs.append({"kind": "cap", "n": r.choice([0, 1, 10, 200, 2000, 20000])})
				elif v < 0.7:
					fs.append({"kind": "short", "n": r.randint(1, 6), "on": r.choice(["read", "write"]), "len": r.randint(1, 50)})
				elif v < 0.93:
					on = r.choice(["read", "write", "close", "open", "open-w", "rename", None])
					fs.append({"kind": r.choice({"read": ["EIO", "ESTALE"], "write": ["EIO", "ENOSPC", "EDQUOT"],
						"close": ["EIO", "ENOSPC", "EDQUOT"], "open": ["EMFILE", "EACCES", "EIO"],
						"open-w": ["EMFILE", "EACCES", "EROFS", "ENOSPC"], "rename": ["EACCES", "EIO"], None: ["EIO"]}[on]),
						"n": r.randint(1, 3), "on": on})
					if fs[-1]["on"] is None:
						fs[-1]["n"] = r.randint(1, 30)
				else:
					fs.append({"kind": "KeyboardInterrupt", "n": r.randint(1, 25)})
			if fs:
				st["faults"] = fs
			st["lost"] = {x: r.random() for x in OUTPUTS if r.random() < 0.4}
			sc["steps"].append(st)
		elif u < 0.75:
			sc["steps"].append({"do": "edit", "file": r.choice(INPUTS), "text": text(r), "dt": 60,
				"skew": r.choice([0, 0, -1e5, 1e5])})
		elif u < 0.82:
			st = {"do": "damage", "file": r.choice(INPUTS), "how": r.choice(["garbage", "delete", "hole", "zero", "truncate"]), "at": r.random(), "line": r.random() < 0.5}
			sc["steps"].append(st)
			sc["steps"].append({"do": "run"})
			sc["steps"].append({"do": "edit", "file": st["file"], "text": text(r), "dt": 60})
		else:
			sc["steps"].append({"do": "damage", "file": r.choice(OUTPUTS),
				"how": r.choice(["truncate", "zero", "garbage", "extend", "empty", "delete"]), "at": r.random(),
				"skew": r.choice([0, 0, 1e6])})
	sc["steps"].append({"do": "run", "dt": 60})
	sc["script"] = r.random() < 0.5
	sc["locale"] = r.choice(["utf-8", "utf-8", "utf-8", "latin-1", "ascii", "cp1252"])
	return sc
