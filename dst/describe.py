"""Texts for the evidence files."""

_COMMON = ("One case is one simulated run: a seeded scenario (converter settings, caller threads, calls, containers, "
	"faults) executed under a seeded scheduler. A run is non-trivial when at least one context switch, injected fault or "
	"rare-condition probe really happened in it; two are distinct when their seed-derived scenario or their sequence of "
	"preemption sites, scheduling decisions and fired faults differs. ")

RULE = {
	"C01": _COMMON + "Caller threads share one or two converters; every return value is compared with a reference model.",
	"C02": _COMMON + "Converters with neighbouring settings are built, misbuilt, reconfigured by mutating the caller's "
		"list and used at the same time.",
	"C03": _COMMON + "Calls re-enter converters from container callbacks, row sources and arbitrary poll points of "
		"their own bytecode.",
	"C04": _COMMON + "Bad calls, faulted calls and calls killed at a poll point are followed by clean calls.",
	"C05": _COMMON + "Exceptions are raised inside the caller's containers, row sources and at poll points.",
	"C06": _COMMON + "Row sources stall, refill one buffer, fail early, deliver bad rows and are long.",
	"C07": _COMMON + "Arguments record every mutating call and are compared with a snapshot afterwards.",
	"C08": _COMMON + "Callers keep every result and argument and scribble over some of them.",
	"C09": _COMMON + "After good, bad and killed calls, weak references to every argument, value and row are checked.",
	"C10": _COMMON + "Parameter values raise and record when anything is done with them.",
	"C11": _COMMON + "Other threads update the parameter container while a call reads it.",
	"C12": _COMMON + "The same batch runs in differently configured interpreters and the result digests are compared.",
	"C21": _COMMON + "Converters are copied, pickled, dropped and forked while calls on them run, fail and wait.",
	"C22": _COMMON + "Imports of the package and constructions of converters race, are interrupted and tried again.",
	"C23": _COMMON + "Histories of C02 to C06, C21 and C22 run while the settings and shared facilities of the process are watched.",
	"C13": _COMMON + "One case is a sequence of generator runs on a simulated disk with crashes and I/O faults.",
}

REAL = {
	"C13": "prebuild.py from /repo's working tree (unmodified), CPython's io text and buffer layers",
}
STUB = {
	"C13": "the disk: raw file I/O, rename, unlink and fsync go to a simulated disk that loses, tears, shortens and "
		"refuses operations",
}
ASSUMPTIONS = {
	"*": [
		"Threads switch only at bytecode boundaries of the code under test, at callbacks into caller objects and at "
		"locks, as in CPython with the GIL; C code is atomic.",
		"Asynchronous exceptions and signal handlers arrive only where CPython's eval loop polls for them.",
		"Sampling: a quiet batch is evidence over the seeds explored, not a proof.",
	],
	"C13": ["The working directory holds README.rst.in and CHANGES.rst, as in a checkout.",
		"Sampling: a quiet batch is evidence over the seeds explored, not a proof."],
}
