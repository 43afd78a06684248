"""
Is one seed one exactly repeatable execution?  python3 selftest.py [N]

Runs N seeds of every profile in processes that differ in hash seed, in the
order of the runs and in what ran before, and compares complete execution
fingerprints: every scheduling decision, preemption site, fault, event count and
outcome.  Exit 1 if any fingerprint differs.
"""

import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def fingerprints(prop, n, order):
	import check
	from props import PROPS
	out = {}
	seq = list(range(n))
	if order == "reversed":
		seq.reverse()
	elif order == "odd-first":
		seq = seq[1::2] + seq[::2]
	for i in seq:
		sc = check.generate(prop, check.run_seed(7, prop, i))
		h = hashlib.sha1(json.dumps(sc, sort_keys=True).encode())
		if prop == "C13":
			o = check.simulate(prop, sc, PROPS[prop]["kinds"])
			e = o.eng
		else:
			import engine
			check.setup()
			e = engine.Engine(sc, PROPS[prop]["kinds"], digest=prop not in ("C11",))
			e.run()
			h.update(repr((e.sim.decider.log, e.sim.sites, e.sim.steps, e.sim.now, e.results,
				e.viol and e.viol.args)).encode("utf-8", "backslashreplace"))
		h.update(repr((sorted(e.stats["faults"].items()), sorted(e.stats["probes"].items()), e.sim.stats)).encode())
		h.update(e.sig.digest())
		out[i] = h.hexdigest()
	return [out[i] for i in range(n)]


def main():
	if len(sys.argv) > 2:
		print(json.dumps(fingerprints(sys.argv[2], int(sys.argv[1]), sys.argv[3])))
		sys.stdout.flush()
		os._exit(0)
	import check
	from props import PROPS
	n = int(sys.argv[1]) if len(sys.argv) > 1 else 300
	bad = 0
	for prop in PROPS:
		ps = [subprocess.Popen([sys.executable, "-B", __file__, str(n), prop, order], stdout=subprocess.PIPE,
			env=check.env_for_child(hs)) for order, hs in (
				("forward", "0"), ("forward", "12345"), ("reversed", "99"), ("odd-first", "7"))]
		fs = [json.loads(p.communicate()[0]) for p in ps]
		d = [i for i in range(n) if len({f[i] for f in fs}) > 1]
		print("%s: %d runs x %d processes, %d not repeatable%s" % (prop, n, len(ps), len(d), " %s" % d[:5] if d else ""),
			flush=True)
		bad += len(d)
	return 1 if bad else 0


if __name__ == "__main__":
	sys.exit(main())
