"""Checks that this sandbox can run the simulator; builds nothing."""

import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
	if sys.version_info < (3, 12):
		raise SystemExit("Python 3.12 or later is needed (sys.monitoring)")
	for n in sorted(os.listdir(HERE)):
		if n.endswith(".py"):
			with open(os.path.join(HERE, n)) as fh:
				compile(fh.read(), n, "exec")
	import check
	import props
	for p in props.PROPS:
		sc = check.generate(p, check.run_seed(0, p, 0))
		if p != "C12":
			check.simulate(p, sc, ())
	print("setup: simulator runs")
	sys.stdout.flush()
	os._exit(0)


if __name__ == "__main__":
	main()
