"""
Caller-side objects: opaque values, parameter containers and row sources.

Every object is built from a JSON spec, so a scenario is plain data.  Containers
report each call the library makes into them to the operation that owns them
(``op.hit(site)``): that is where the simulator preempts, stalls, faults or
re-enters.  Builders return the object to pass and a *plain* copy for the model.
"""

import _thread
import array
import collections
import collections.abc as abc
import datetime
import decimal
import enum
import fractions
import io
import pathlib
import sys
import threading
import types
import weakref
import uuid

import sched


class Val:
	"""An opaque value: any use beyond passing it on is recorded (and faults)."""

	__slots__ = ("_vs", "__weakref__")

	def __init__(self, log):
		object.__setattr__(self, "_vs", log)

	def __getattribute__(self, name):
		if name in ("__class__", "_vs", "__weakref__"):
			return object.__getattribute__(self, name)
		_touch(self, "attribute " + name)


class PoisonError(Exception):
	pass


def _touch(v, what):
	log = object.__getattribute__(v, "_vs")
	log.append(what)
	raise PoisonError(what)


def _poison(name):
	def m(self, *a, **k):
		_touch(self, name)
	m.__name__ = name
	return m


for _n in ("__eq__ __ne__ __lt__ __le__ __gt__ __ge__ __hash__ __bool__ __len__ __iter__ __getitem__ __contains__ "
		"__bytes__ __int__ __index__ __float__ __add__ __radd__ __mod__ __rmod__ __call__ "
		"__copy__ __deepcopy__ __reduce__ __reduce_ex__ __getstate__ __next__ __reversed__ __sizeof__ __dir__ "
		"__setattr__ __delattr__ __setitem__ __delitem__ __enter__ __exit__ __await__ __fspath__ __complex__").split():
	setattr(Val, _n, _poison(_n))


class Tup(tuple):
	"""A tuple subclass whose iteration and length go through the simulator."""

	def __new__(cls, items, op):
		t = super().__new__(cls, items)
		t._op = op
		return t

	def __iter__(self):
		self._op.hit("tuple_iter")
		return super().__iter__()

	def __len__(self):
		self._op.hit("tuple_len")
		return super().__len__()

	def __repr__(self):
		self._op.hit("repr")
		return "<tuple>"


class Color(enum.Enum):
	RED = 1
	BLUE = "blue"


class Level(enum.IntEnum):
	LOW = 0
	HIGH = 1


class Text(str):
	pass


class Number(int):
	pass


class Record:
	def __init__(self, n):
		self.n = n

	def __call__(self):
		raise PoisonError("called")


# Values of well-known types, which a careless change might want to adapt.
EXOTIC = {
	"decimal": lambda n: decimal.Decimal(n),
	"fraction": lambda n: fractions.Fraction(n, 3),
	"datetime": lambda n: datetime.datetime.fromtimestamp(n, datetime.timezone.utc),
	"date": lambda n: datetime.date.fromordinal(700000 + n),
	"timedelta": lambda n: datetime.timedelta(n),
	"uuid": lambda n: uuid.UUID(int=n),
	"enum": lambda n: (Color.RED, Color.BLUE)[n % 2],
	"intenum": lambda n: (Level.LOW, Level.HIGH)[n % 2],
	"text": lambda n: Text("text%d" % n),
	"number": lambda n: Number(n),
	"range": lambda n: range(n % 4),
	"bytearray": lambda n: bytearray(b"%d" % n),
	"memoryview": lambda n: memoryview(b"%d" % n),
	"set": lambda n: {n},
	"frozenset": lambda n: frozenset((n,)),
	"generator": lambda n: (i for i in (n,)),
	"iterator": lambda n: iter([n]),
	"function": lambda n: lambda: n,
	"class": lambda n: (int, Color, Record)[n % 3],
	"record": lambda n: Record(n),
	"path": lambda n: pathlib.PurePosixPath("/tmp/%d" % n),
	"ellipsis": lambda n: ...,
	"complex": lambda n: complex(n, 1),
	"nan": lambda n: float(("nan", "inf", "-inf")[n % 3]),
	"decimals": lambda n: decimal.Decimal(("NaN", "Infinity", "-Infinity", "sNaN", "-0", "1E+400")[n % 6]),
	"zero": lambda n: (-0.0, 0, 0.0, 0j, False, decimal.Decimal(0))[n % 6],
	"void": lambda n: ([], {}, set(), "", b"", range(0), bytearray(), frozenset())[n % 8],
	"text8": lambda n: ("NULL", "null", "None", "'", "\\", "%", "a" * 70, " ")[n % 8],
	"bytes8": lambda n: (b"NULL", b"\0", b"\xff\xfe", b"a" * 300)[n % 4],
	"limits": lambda n: (2 ** 31, -2 ** 31 - 1, 2 ** 63, -2 ** 63 - 1, 1e308, 5e-324)[n % 6],
	"long": lambda n: ("x" * (4000 + n), b"y" * (8001 + n), "é" * 33000, 7 ** 300, "a b\n" * 2000, bytearray(70000))[n % 6],
	"times": lambda n: (datetime.datetime.max, datetime.date.min, datetime.time(0), datetime.timedelta(0))[n % 4],
	"big": lambda n: 10 ** 30 + n,
	"dict_keys": lambda n: {n: n}.keys(),
	"deque": lambda n: collections.deque([n]),
	"od": lambda n: collections.OrderedDict(a=n),
	"ns": lambda n: types.SimpleNamespace(n=n),
	"exception": lambda n: ValueError(n),
	"array": lambda n: array.array("i", [n]),
	"surrogate": lambda n: "\udc80%d" % n,
	"nul": lambda n: "a\0b",
	"compose": lambda n: ("e\u0301", "\u212b", "\ufb01", "\u1100\u1161", "\ufeffx", "a\r\nb", "\u017f", " pad ", "\u200b", "x\n")[n % 10],
	"file": lambda n: io.BytesIO(b"%d" % n),
}

# What a value of each of these types looks like as long as nobody used it.
STATE = {
	set: lambda v: sorted(v), bytearray: bytes, collections.deque: list, collections.OrderedDict: lambda v: list(v.items()),
	array.array: list, types.SimpleNamespace: lambda v: sorted(vars(v).items()), Record: lambda v: sorted(vars(v).items()),
	types.GeneratorType: lambda v: (v.gi_frame is not None and v.gi_frame.f_lasti, v.gi_running), type(iter([])): lambda v: v.__length_hint__(),
	io.BytesIO: lambda v: (v.closed or v.tell()), memoryview: lambda v: v.nbytes, ValueError: lambda v: (v.args, v.__traceback__, vars(v)),
}

# Keys no parameter can have.
ODD_KEYS = {
	"tail": 'a"', "head": '"a', "quote": '"', "empty": '""', "none": None, "nostr": "", "int": 5000, "float": 2.5, "bytes": b"x",
	"tuple": ("a",), "space": "a b", "colon": ":a", "neg": -3, "negs": "-1", "plus": "+1", "spaced": "1 ", "under": "1_0", "dot": "1.0",
	"paren": "%(a)s", "dollar": "$1", "fset": frozenset((1,)), "nan": float("nan"), "type": int, "quotes": '"a" "b"', "nul": "a\0",
	"label": "_1", "label0": "_0", "slot": "a__0_sqlp", "slots": "_1_0",
}

Pair = collections.namedtuple("Pair", "a b")


class SimMapping(abc.Mapping):
	"""A read-only mapping backed by the simulator."""

	def __init__(self, items, op):
		self._d = dict(items)
		self._op = op

	def __getitem__(self, k):
		self._op.hit("getitem")
		return self._d[k]

	def __iter__(self):
		self._op.hit("iter")
		for k in self._d:
			self._op.hit("iter_next")
			yield k

	def __len__(self):
		self._op.hit("len")
		return len(self._d)

	def __contains__(self, k):
		self._op.hit("contains")
		return k in self._d

	def items(self):
		self._op.hit("items")
		return SimItems(self)

	def __repr__(self):
		self._op.hit("repr")
		return "<mapping>"


class SimItems:
	def __init__(self, m):
		self.m = m

	def __iter__(self):
		m = self.m
		for k, v in m._d.items():
			m._op.hit("items_next")
			yield k, v

	def __len__(self):
		return len(self.m._d)


class SimSequence(abc.Sequence):
	def __init__(self, items, op):
		self._l = list(items)
		self._op = op

	def __getitem__(self, i):
		self._op.hit("getitem")
		return self._l[i]

	def __len__(self):
		self._op.hit("len")
		return len(self._l)

	def __repr__(self):
		self._op.hit("repr")
		return "<sequence>"


class Shown:
	"""Nothing the library knows, except how to show it."""

	def __init__(self, op):
		self._op = op

	def __repr__(self):
		self._op.hit("repr")
		return "<something>"


class Key(str):
	"""A key that asks the simulator how it compares."""

	def __eq__(self, other):
		self._op.hit("key_eq")
		return str.__eq__(self, other)

	def __ne__(self, other):
		self._op.hit("key_eq")
		return str.__ne__(self, other)

	def __hash__(self):
		self._op.hit("key_hash")
		return str.__hash__(self)


def _record(cls, names):
	def wrap(n):
		base = getattr(cls, n)

		def f(self, *a, **k):
			w = getattr(self, "_writes", None)
			if w is not None:
				w.append(n)
			return base(self, *a, **k)
		f.__name__ = n
		return f
	return {n: wrap(n) for n in names}


def _rendered(name):
	def m(self, *a):
		# Rendering is noted, but works: an error message may well show the value.
		object.__getattribute__(self, "_vs").append(name)
		return "<rendered value>"
	m.__name__ = name
	return m


for _n in ("__str__", "__repr__", "__format__"):
	setattr(Val, _n, _rendered(_n))


# dict and list whose every mutation is logged, even one that is undone later.
WatchDict = type("WatchDict", (dict,), _record(dict, (
	"__setitem__", "__delitem__", "clear", "pop", "popitem", "setdefault", "update", "__ior__")))
WatchList = type("WatchList", (list,), _record(list, (
	"__setitem__", "__delitem__", "append", "clear", "extend", "insert", "pop", "remove", "reverse", "sort",
	"__iadd__", "__imul__")))


def _exchanged(cls):
	"""A container whose parts are not to be exchanged."""
	def __setattr__(self, name, value):
		w = self.__dict__.get("_writes")
		if w is not None:
			w.append("setting of " + name)
		self.__dict__[name] = value
	return type("Watch" + cls.__name__, (cls,), {"__setattr__": __setattr__})


WatchUserDict = _exchanged(collections.UserDict)
WatchUserList = _exchanged(collections.UserList)
WatchChainMap = _exchanged(collections.ChainMap)


class LiveDict(dict):
	"""A plain dict another simulated thread may update between accesses."""


class Stream:
	"""A one-pass row source: the rows of a cursor, a file, a queue."""

	def __init__(self, make, n, op, reuse):
		self.make = make
		self.n = n
		self.op = op
		self.i = 0
		self.reuse = reuse
		self.cur = None
		self.ended = 0

	def __iter__(self):
		return self

	def __next__(self):
		self.op.hit("next")
		if self.i >= self.n:
			self.ended += 1
			raise StopIteration
		row = self.make(self.i)
		self.i += 1
		self.op.delivered = self.i
		if self.reuse and self.cur is not None and type(row) is type(self.cur):
			# The source refills one buffer for every row.
			c = self.cur
			if isinstance(c, dict):
				dict.clear(c)
				dict.update(c, row)
				return c
			if isinstance(c, list):
				list.__setitem__(c, slice(None), row)
				return c
		self.cur = row
		return row


class Cursor(Stream):
	"""A row source that looks like a database cursor."""

	arraysize = 1
	rowcount = -1
	description = (("a", None, None, None, None, None, None),)

	def fetchone(self):
		try:
			return self.__next__()
		except StopIteration:
			return None

	def fetchmany(self, size=1):
		out = []
		while len(out) < size:
			row = self.fetchone()
			if row is None:
				break
			out.append(row)
		return out

	def fetchall(self):
		return self.fetchmany(1 << 60)


class Gauge(Stream):
	"""A row source that says how many rows it expects to hold, and is wrong."""

	def __length_hint__(self):
		return (0, 1, self.n + 7, self.n - 1)[self.n % 4]


class Queue(Stream):
	"""A row source whose length is what it holds by now: nothing."""

	def __len__(self):
		return 0 if self.i == 0 else min(1, self.n - self.i)


class StreamSource:
	"""An iterable whose every ``iter()`` would start the stream afresh."""

	def __init__(self, stream, op):
		self.stream = stream
		self.op = op

	def __iter__(self):
		self.op.hit("source_iter")
		self.op.source_iters += 1
		if self.op.source_iters > 1:
			self.stream.i = 0
		return self.stream


class StrSub(str):
	pass


SubParams = None


def subclass(mod):
	"""A caller's own subclass of the converter (found by pickle as well)."""
	global SubParams
	if SubParams is None or SubParams.__base__ is not mod.SQLParams:
		SubParams = type("SubParams", (mod.SQLParams,), {"__module__": __name__})
	return SubParams


def own(v):
	"""An equal object that nobody else refers to, if there can be one."""
	t = type(v)
	if t is str or t is bytes:
		return v[:1] + v[1:]
	if t is int or t is float:
		return t(repr(v)) if t is float or abs(v) < 10 ** 600 else v + 1 - 1
	return v


def build_value(spec, op):
	v = build_value_(spec, op)
	if op.plain is not None and spec[0] != "o" and sys.getrefcount(v) == 2:
		op.plain.append(v)
	return v


def build_value_(spec, op):
	k = spec[0]
	if k == "o":
		v = Val(op.touches)
		op.note_val(v)
		return v
	if k in ("i", "s", "f", "B"):
		return own(spec[1])
	if k == "n":
		return None
	if k == "b":
		return spec[1].encode("latin1")
	if k == "t":
		return tuple(build_value(x, op) for x in spec[1])
	if k == "T":
		return Tup([build_value(x, op) for x in spec[1]], op)
	if k == "nt":
		return Pair(build_value(spec[1][0], op), build_value(spec[1][1], op))
	if k == "l":
		v = [build_value(x, op) for x in spec[1]]
		op.note_nested(v)
		return v
	if k == "d":
		v = {i: build_value(x, op) for i, x in enumerate(spec[1])}
		op.note_nested(v)
		return v
	if k == "N":
		return object()
	if k == "x":
		v = EXOTIC[spec[1]](spec[2] % 100000)
		if type(v) in STATE:
			op.note_state(v, STATE[type(v)])
		return v
	raise ValueError(spec)


def plain_tuple(v):
	return tuple(tuple.__iter__(v))


_row_types = {}


def row_type(n):
	"""A named tuple class for rows of *n* columns."""
	if n not in _row_types:
		_row_types[n] = collections.namedtuple("Row%d" % n, ["f%d" % i for i in range(n)])
	return _row_types[n]


def own_class(base, op):
	"""A class made for one row, as some drivers make one for each query; all have the same name."""
	cls = type("Row", (base,), {})
	if op.eng.track:
		op.refs.append(weakref.ref(cls))
	return cls


def near(what):
	"""Of a class of its own that has the methods of a sequence or a mapping, but is neither."""
	names = {"ring": ("append", "appendleft", "pop", "popleft", "rotate", "index", "count", "insert"),
		"record": ("keys", "values", "items", "get", "__contains__", "__iter__")}[what]
	d = {n: lambda self, *a: iter(()) for n in names}
	d.update(__len__=lambda self: 9, __getitem__=lambda self, i: 5)
	return type("Near", (), d)()


def build_params(spec, op):
	"""``(object, plain)`` for one set of parameters."""
	c = spec["c"]
	if c == "bad":
		obj = Shown(op) if spec["v"] == "shown" else near(spec["v"]) if spec["v"] in ("ring", "record") else {
			"none": None, "int": 7, "str": "ab", "bytes": b"ab", "set": {1, 2}, "gen": iter(())}[spec["v"]]
		return obj, ("bad", obj)
	if "items" in spec:
		items = []
		for k, v in spec["items"]:
			if isinstance(k, list):  # ["b", text]: a bytes key; ["k", name]: an odd one; ["h", text]: one with methods
				k = ODD_KEYS[k[1]] if k[0] == "k" else op.key(k[1]) if k[0] == "h" else k[1].encode("latin1")
			elif (op.env & 2 or op.plain is not None) and isinstance(k, str):
				k = "".join([*k])  # equal, but not the interned object
			if op.plain is not None and sys.getrefcount(k) == 2:
				op.plain.append(k)
			items.append((k, build_value(v, op)))
		if op.env and not spec.get("keep"):
			# Another insertion order of the same parameters.
			r = op.env % max(1, len(items))
			items = (items[r:] + items[:r])[::-1 if op.env & 1 else 1]
		plain = ("map", items)
		if c == "dict":
			obj = dict(items)
		elif c == "watchdict":
			obj = WatchDict(items)
			obj._writes = op.writes
		elif c == "rowdict":
			obj = own_class(dict, op)(items)
		elif c == "rowmap":
			obj = own_class(collections.UserDict, op)()
			obj.data.update(items)
		elif c == "od":
			obj = collections.OrderedDict(items)
		elif c == "mp":
			obj = types.MappingProxyType(dict(items))
		elif c == "simmap":
			obj = SimMapping(items, op)
		elif c == "dd":
			obj = collections.defaultdict(object, items)
		elif c == "counter":
			obj = collections.Counter(dict(items))
		elif c == "ud":
			obj = WatchUserDict()
			obj.data = WatchDict(items)
			obj.data._writes = op.writes
			obj._writes = op.writes
		elif c == "cm":
			h = len(items) // 2
			obj = WatchChainMap(WatchDict(items[h:]), WatchDict(items[:h]))
			obj.maps = WatchList(obj.maps)
			for part in (*obj.maps, obj.maps, obj):
				part._writes = op.writes
		else:
			raise ValueError(c)
	else:
		vals = [build_value(v, op) for v in spec["vals"]]
		plain = ("seq", vals)
		if c == "list":
			obj = list(vals)
		elif c == "watchlist":
			obj = WatchList(vals)
			obj._writes = op.writes
		elif c == "rowlist":
			obj = own_class(list, op)(vals)
		elif c == "rowseq":
			obj = own_class(collections.UserList, op)(vals)
		elif c == "rowtuple":
			obj = own_class(tuple, op)(vals)
		elif c == "tuple":
			obj = tuple(vals)
		elif c == "simseq":
			obj = SimSequence(vals, op)
		elif c == "ul":
			obj = WatchUserList()
			obj.data = WatchList(vals)
			obj.data._writes = op.writes
			obj._writes = op.writes
		elif c == "deque":
			obj = collections.deque(vals)
		elif c == "ntup":
			obj = row_type(len(vals))(*vals)
		elif c == "range":
			obj = range(vals[0], vals[0] + len(vals)) if vals else range(0)
		elif c == "array":
			obj = array.array("B", vals)
		elif c == "bytearray":
			obj = bytearray(vals)
		elif c == "memoryview":
			obj = memoryview(bytes(vals))
		else:
			raise ValueError(c)
	op.note_arg(obj, plain)
	return obj, plain


def build_rows(spec, op):
	"""``(source object, [plain, ...])`` for ``formatmany``."""
	c = spec["c"]
	if c == "bad":
		return Shown(op) if spec["v"] == "shown" else {"int": 5, "none": None, "str": "ab"}[spec["v"]], None
	lazy = c in ("stream", "source", "gen", "map", "cursor", "gauge", "queue")
	built = [build_params(r, op) for r in spec["rows"]]
	rows = [b[0] for b in built]
	plains = [b[1] for b in built]
	if c == "glist":
		# The list of rows grows as soon as the first row is read.
		src = list(rows[:spec["k"]])

		def grow():
			src.extend(rows[spec["k"]:])
		op.grow = grow
		return src, plains
	if not lazy:
		if c == "list":
			src = list(rows)
		elif c == "watchlist":
			src = WatchList(rows)
			src._writes = op.writes
		elif c == "tuple":
			src = tuple(rows)
		elif c == "iter":
			src = iter(list(rows))
		elif c == "dictvalues":
			src = {i: r for i, r in enumerate(rows)}.values()
		elif c == "deque":
			src = collections.deque(rows)
		elif c == "ul":
			src = collections.UserList(rows)
		else:
			raise ValueError(c)
		if c in ("list", "watchlist", "deque"):
			op.note_rows(src, rows)
		return src, plains
	if c == "gen":
		def g():
			for r in rows:
				op.hit("next")
				op.delivered += 1
				yield r
			op.hit("next")
		return g(), plains
	if c == "map":
		def f(r):
			op.hit("next")
			op.delivered += 1
			return r
		return map(f, rows), plains
	kind = {"cursor": Cursor, "gauge": Gauge, "queue": Queue}.get(c, Stream)
	st = kind(lambda i: rows[i], len(rows), op, spec.get("reuse"))
	if spec.get("reuse"):
		op.reused = True
	op.stream = st
	return (StreamSource(st, op) if c == "source" else st), plains


class Failing:
	"""Rows for the memory test: fails when read."""

	def __new__(cls, row):
		return (_FailingDict if isinstance(row, dict) else _FailingList)(row)


class _FailingDict(dict):
	def __getitem__(self, k):
		raise OSError(5, "injected fault")


class _FailingList(list):
	def __getitem__(self, k):
		raise OSError(5, "injected fault")


def elsewhere(call):
	"""Make a call in a thread of its own that ends with it."""
	over = sched.real_lock()
	over.acquire()

	def body():
		try:
			call()
		finally:
			threading._active.pop(_thread.get_ident(), None)
			over.release()
	sched.real_start(body, ())
	over.acquire()


ABCS = [getattr(abc, n) for n in abc.__all__ if n != "ByteString"]


def warm(arg, args):
	"""Fill the abstract base classes' caches for these arguments' classes."""
	for cls in {type(arg)} | {type(a) for a, _ in args} | {str, bytes, tuple, Tup}:
		for a in ABCS:
			issubclass(cls, a)
