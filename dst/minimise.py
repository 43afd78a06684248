"""
Shrinks a failing scenario: threads, operations, faults, preemptions, rows,
parameters, SQL text and settings, while the same kind of violation persists.
"""

import time

from gen import clone


def minimise(prop, sc, out, run, deadline, budget=1500):
	kind = out.kind
	if prop == "C13":
		return shrink_list_scenario(sc, out, run, deadline)
	base = clone(sc)
	if out.dec is not None:
		base["sched"] = {"pol": "replay", "dec": out.dec}
	left = [budget]

	def attempt(c):
		if left[0] <= 0 or time.monotonic() > deadline:
			return None
		left[0] -= 1
		try:
			o = run(c)
		except BaseException:
			return None
		return o if o.kind == kind else None

	o = attempt(base)
	if o is None:
		return None
	best = [base, o]

	def take(c):
		r = attempt(c)
		if r is None:
			return False
		if r.dec is not None and c.get("sched", {}).get("pol") == "replay":
			c = dict(c, sched={"pol": "replay", "dec": r.dec})
		best[0], best[1] = c, r
		return True

	changed = True
	rounds = 0
	while changed and rounds < 4 and left[0] > 0:
		rounds += 1
		changed = False
		for step in (drop_threads, drop_ops, drop_faults, drop_dec, simple_flags, drop_rows, drop_items, cut_sql,
				simple_values, drop_cfg):
			if step(best, take):
				changed = True
	return best[0], best[1]


def cut(seq, n, k):
	return seq[:n] + seq[n + k:]


def ddmin(get, put, best, take):
	"""Remove chunks of a list addressed by get/put."""
	did = False
	size = max(1, len(get(best[0])) // 2)
	while True:
		i = 0
		while i < len(get(best[0])):
			c = clone(best[0])
			put(c, cut(get(c), i, size))
			if take(c):
				did = True
			else:
				i += size
		if size == 1:
			return did
		size = max(1, size // 2)


def drop_threads(best, take):
	did = False
	for t in range(len(best[0]["threads"])):
		if best[0]["threads"][t]:
			c = clone(best[0])
			c["threads"][t] = []
			did |= take(c)
	return did


def drop_ops(best, take):
	did = False
	for t in range(len(best[0]["threads"])):
		if best[0]["threads"][t]:
			did |= ddmin(lambda s: s["threads"][t], lambda s, v: s["threads"].__setitem__(t, v), best, take)
	return did


def each_op(sc):
	for t, ops in enumerate(sc["threads"]):
		for i, o in enumerate(ops):
			yield from nested(o)


def nested(o):
	yield o
	for f in o.get("faults", ()):
		if f.get("op"):
			yield from nested(f["op"])


def over_ops(best, take, variants):
	"""Try each variant of each operation (the scenario may change as we go)."""
	did = False
	k = 0
	while True:
		ops = list(each_op(best[0]))
		if k >= len(ops):
			return did
		j = 0
		while True:
			c = clone(best[0])
			op = list(each_op(c))[k] if k < len(list(each_op(c))) else None
			if op is None:
				break
			vs = variants(op)
			if j >= len(vs):
				break
			vs[j](op)
			if take(c):
				did = True
			else:
				j += 1
			if j > 400:
				break
		k += 1


def drop_faults(best, take):
	def variants(op):
		n = len(op.get("faults", ()))
		return [lambda o, i=i: o["faults"].pop(i) for i in range(n)]
	return over_ops(best, take, variants)


def drop_dec(best, take):
	if best[0]["sched"].get("pol") != "replay" or not best[0]["sched"]["dec"]:
		return False
	return ddmin(lambda s: s["sched"]["dec"], lambda s, v: s["sched"].__setitem__("dec", v), best, take)


def simple_flags(best, take):
	def variants(op):
		vs = []
		for k in ("idle", "bytes", "strsub", "scribble_in", "scribble", "stack"):
			if op.get(k):
				vs.append(lambda o, k=k: o.pop(k))
		if op.get("k") == "many" and op["rows"].get("c") not in ("list", "bad"):
			vs.append(lambda o: o["rows"].update(c="list"))
		return vs
	return over_ops(best, take, variants)


def drop_rows(best, take):
	def variants(op):
		if op.get("k") != "many" or "rows" not in op["rows"]:
			return []
		n = len(op["rows"]["rows"])
		vs = []
		size = n // 2
		while size >= 1:
			vs += [lambda o, i=i, z=size: o["rows"].__setitem__("rows", cut(o["rows"]["rows"], i, z))
				for i in range(0, n, size)]
			size //= 2
		return vs
	return over_ops(best, take, variants)


def param_specs(op):
	if op.get("k") == "many":
		return op["rows"].get("rows", [])
	return [op["params"]] if "params" in op else []


def drop_items(best, take):
	def variants(op):
		vs = []
		for j, p in enumerate(param_specs(op)[:6]):
			for key in ("items", "vals"):
				n = len(p.get(key, ()))
				if n > 40:
					vs.append(lambda o, j=j, key=key, n=n: param_specs(o)[j].__setitem__(key, param_specs(o)[j][key][:n // 2]))
				for i in range(min(n, 40)):
					if key == "items" or i == n - 1:
						vs.append(lambda o, j=j, key=key, i=i: param_specs(o)[j][key].pop(i))
			if p["c"] not in ("dict", "list", "bad"):
				vs.append(lambda o, j=j: param_specs(o)[j].__setitem__("c", "dict" if "items" in param_specs(o)[j] else "list"))
		return vs
	return over_ops(best, take, variants)


def cut_sql(best, take):
	def variants(op):
		s = op.get("sql")
		if not s:
			return []
		vs = []
		size = len(s) // 2
		while size >= 1:
			vs += [lambda o, i=i, z=size: o.__setitem__("sql", cut(o["sql"], i, z)) for i in range(0, len(s), size)]
			size //= 2
		return vs
	# The same text is often shared by several operations: first cut them together.
	did = False
	texts = sorted({o["sql"] for o in each_op(best[0]) if o.get("sql")}, key=len, reverse=True)
	for text in texts[:3]:
		size = max(1, len(text) // 2)
		while size >= 1:
			i = 0
			while i < len(text):
				c = clone(best[0])
				new = cut(text, i, size)
				for o in each_op(c):
					if o.get("sql") == text:
						o["sql"] = new
				if take(c):
					did = True
					text = new
				else:
					i += size
			size //= 2
	return over_ops(best, take, variants) or did


def simple_values(best, take):
	def variants(op):
		vs = []
		for j, p in enumerate(param_specs(op)[:4]):
			for key in ("items", "vals"):
				for i, v in enumerate(p.get(key, ())[:12]):
					vv = v[1] if key == "items" else v
					if vv[0] in ("t", "T", "nt") and len(vv[1]) > 1:
						def f(o, j=j, key=key, i=i):
							q = param_specs(o)[j][key]
							x = q[i][1] if key == "items" else q[i]
							x[1].pop()
						vs.append(f)
		return vs
	return over_ops(best, take, variants)


def drop_cfg(best, take):
	did = False
	for n in range(len(best[0]["insts"])):
		for k in ("esc", "strip", "exp", "quotes"):
			if k in best[0]["insts"][n]:
				c = clone(best[0])
				del c["insts"][n][k]
				did |= take(c)
	if best[0].get("trace") and not best[0]["sched"].get("dec"):
		did |= take(dict(clone(best[0]), trace=False))
	return did


def shrink_list_scenario(sc, out, run, deadline):
	"""For scenarios that are a list of steps under the key ``steps``."""
	best = [clone(sc), out]

	def take(c):
		if time.monotonic() > deadline:
			return False
		try:
			o = run(c)
		except BaseException:
			return False
		if o.kind != out.kind:
			return False
		best[0], best[1] = c, o
		return True
	if not take(clone(sc)):
		return None
	ddmin(lambda s: s["steps"], lambda s, v: s.__setitem__("steps", v), best, take)
	for i in range(len(best[0]["steps"])):
		while best[0]["steps"][i].get("faults"):
			c = clone(best[0])
			c["steps"][i]["faults"].pop()
			if not take(c):
				break
	for k in ("inp", "changes", "readme", "dist"):
		while len(best[0].get(k) or "") > 1:
			s = best[0][k]
			if take(dict(clone(best[0]), **{k: s[:len(s) // 2]})):
				continue
			if take(dict(clone(best[0]), **{k: s[len(s) // 2:]})):
				continue
			break
	return best[0], best[1]
