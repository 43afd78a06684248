"""
C23: what belongs to the whole process, and what of it changed.

``state()`` lists the settings and shared facilities that any part of a program
can see; a library has no business changing them, not even for a moment.
"""

import _abc
import _signal
import atexit
import builtins
import codecs
import collections.abc
import contextvars
import copyreg
import decimal
import faulthandler
import gc
import locale
import logging
import numbers
import os
import random
import resource
import signal
import socket
import sys
import threading
import time
import tracemalloc
import warnings

import sched

_SIGNALS = [signal.SIGINT, signal.SIGALRM, signal.SIGTERM, signal.SIGUSR1, signal.SIGPIPE, signal.SIGCHLD]


def _decimal():
	c = decimal.getcontext()
	return c.prec, c.rounding, c.Emax, c.Emin, c.clamp, [s for s, v in c.traps.items() if v], [s for s, v in c.flags.items() if v]


def _umask():
	m = os.umask(0o77)
	os.umask(m)
	return m


def _abcs():
	return [len(_abc._get_dump(c)[0]) for c in ABCS]


def _context():
	return [(v.name, id(x)) for v, x in contextvars.copy_context().items() if v.name != "decimal_context"]


ABCS = [collections.abc.Sequence, collections.abc.Mapping, collections.abc.Iterable, collections.abc.MutableSequence,
	collections.abc.MutableMapping, collections.abc.Sized, collections.abc.Collection, collections.abc.Set, numbers.Number]


def _warnings():
	return [id(f) for f in warnings.filters], id(warnings.showwarning), id(warnings.formatwarning), warnings.defaultaction


# Looked at whenever another thread, or the caller's own code, could look.
QUICK = {
	"garbage collection": lambda: sched.gc_on(),
	"recursion limit": sys.getrecursionlimit,
	"switch interval": sys.getswitchinterval,
	"trace function": lambda: (sys.gettrace(), sys.getprofile()),
	"warning filters": _warnings,
	"standard streams": lambda: (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
	"hooks": lambda: (id(sys.excepthook), id(sys.displayhook), id(sys.unraisablehook), id(threading.excepthook), id(builtins.__import__)),
	"int digits limit": sys.get_int_max_str_digits,
	"locale": lambda: locale.setlocale(locale.LC_ALL),
	"working directory": os.getcwd,
	"signal handlers": lambda: [_signal.getsignal(s) for s in _SIGNALS],
	"timers": lambda: (_signal.getitimer(0)[0] > 0, _signal.getitimer(1)[0] > 0),
	"default timeout": socket.getdefaulttimeout,
	"time zone": lambda: time.tzname,
	"fault handler": faulthandler.is_enabled,
	"decimal context": _decimal,
	"environment": lambda: dict(getattr(os.environ, "_data", os.environ)),
}
# Looked at when a call has ended.
FULL = dict(QUICK, **{
	"collector": lambda: (gc.get_threshold(), gc.get_debug(), list(gc.callbacks)),
	"module search": lambda: (list(sys.path), list(sys.meta_path), list(sys.path_hooks)),
	"signal mask": lambda: signal.pthread_sigmask(signal.SIG_BLOCK, ()),
	"timer intervals": lambda: [signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL)],
	"random generator": lambda: hash(random.getstate()),
	"logging": lambda: (logging.root.level, list(logging.root.handlers), logging.root.manager.disable, logging.raiseExceptions,
		id(logging.getLoggerClass()), id(logging.getLogRecordFactory())),
	"builtins": lambda: hash(tuple(map(id, vars(builtins).values()))),
	"codec errors": lambda: [id(codecs.lookup_error(x)) for x in ("strict", "ignore", "replace", "surrogateescape", "backslashreplace")],
	"pickle registry": lambda: len(copyreg.dispatch_table),
	"open files": lambda: len(os.listdir("/proc/self/fd")),
	"thread hooks": lambda: (threading.gettrace(), threading.getprofile(), threading.stack_size()),
	"file mode mask": _umask,
	"exit functions": lambda: atexit._ncallbacks(),
	"threads": lambda: len([t for t in threading._active.values() if not isinstance(t, threading._DummyThread)]),
	"memory tracing": tracemalloc.is_tracing,
	"resource limits": lambda: [resource.getrlimit(x) for x in (resource.RLIMIT_NOFILE, resource.RLIMIT_STACK, resource.RLIMIT_AS, resource.RLIMIT_CORE)],
	"priority": lambda: os.getpriority(os.PRIO_PROCESS, 0),
	"abstract classes": _abcs,
	"context variables": _context,
	"monitoring tools": lambda: [sys.monitoring.get_tool(i) for i in range(6)],
	"asyncgen hooks": lambda: (tuple(sys.get_asyncgen_hooks()), sys.get_coroutine_origin_tracking_depth()),
})
# These take longer: looked at every fourth time.
DEAR = ["random generator", "builtins", "module search", "signal mask", "logging", "thread hooks"]


class Paper:
	"""A standard output that keeps what is written to it."""

	encoding = "utf-8"
	errors = "strict"

	def __init__(self):
		self.text = []

	def write(self, s):
		self.text.append(s)
		return len(s)

	def flush(self):
		pass

	def isatty(self):
		return False


class Watch:
	"""The state of the process before a run, to compare with."""

	def __init__(self):
		self.out = sys.stdout, sys.stderr
		sys.stdout = sys.stderr = self.paper = Paper()
		# A timer of the application, far off.
		signal.setitimer(signal.ITIMER_REAL, 1e6, 3.0)
		self.base = {k: f() for k, f in FULL.items()}
		self.looks = 0

	def changed(self, full):
		"""What differs now, or ``None``."""
		self.looks += 1
		for k, f in (FULL if full else QUICK).items():
			if f() != self.base[k]:
				return k
		if not full and self.looks % 4 == 0:
			for k in DEAR:
				if FULL[k]() != self.base[k]:
					return k
		if self.paper.text:
			return "what is written to the standard streams (%r)" % "".join(self.paper.text)[:80]
		return None

	def close(self):
		signal.setitimer(signal.ITIMER_REAL, 0)
		sys.stdout, sys.stderr = self.out
