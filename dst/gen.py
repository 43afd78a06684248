"""
Seeded generation of scenarios: converters, caller threads, their operations,
the faults inside them and the scheduling policy.  Pure data, pure function of
(profile, seed).  Uses the reference model only to learn which parameters a
generated text needs.
"""

import random

import model
import objects

STYLES = sorted(model.STYLES)
EXOTIC = sorted(objects.EXOTIC)
ODD_KEYS = sorted(objects.ODD_KEYS)
ODD_TEXTS = {k for k in objects.ODD_KEYS.values() if isinstance(k, str)}
NAMED = [s for s in STYLES if model.KINDS[s] == "named"]
NUMERIC = [s for s in STYLES if model.KINDS[s] == "numeric"]
ORDINAL = [s for s in STYLES if model.KINDS[s] == "ordinal"]

NAMES = ["a", "b", "id", "name", "x1", "_u", "Age", "longer_name", "n2", "Zz", "items", "get", "data"]
UNAMES = ["\u212b", "\ufb01x", "\u017fa", "\u0131d", "\u0130", "\u01c5", "n\u00e9", "stra\u00dfe", "x\u00ff", "caf\u00c9_1", "s\u00e0", "k\u4e2d", "d\u0663"]
LITS = [
	"SELECT ", " FROM t", " WHERE ", " AND ", " = ", ", ", "x", " OR y IN ", "(", ")", ";", "\n", "\t", "  ",
	"'it''s'", "::int", "12:30:45", "'a%'", "%", "%%", "100% ", "$$", "@@v", "??", "::", " -- note :a ?\n",
	"/* :b $1 */", "\r\n", "'2020-01-01 10:20'", "\"q\"", "%d", "e@x.org", " \\", "\\n", "[", "]", "{0}", "{param}",
	"{}", "NULL", "'12:00'", "\\1", "\\g<0>", "->>", "#>", "s", "1", "_", ":", "$", "@", "?", "%(", "%s ", ":= ",
]
ULITS = ["é", "ÿ", "ß"]  # latin-1: legal in str and bytes queries
WLITS = ["\u2603", "\U0001f600", "\u0663"]  # str queries only
COMMENTS = [
	"-- c :a ?\n", "  -- c $1\n", "/* m :b\n :a */\n", "/* m */ SELECT 1", "\t/* x */\r\n", "# h :a\n", "-- end",
	"/* open :a", "-- crlf\r\n", "/**/", "--\n", "/* a */ /* b */\n", "<!-- z -->\n", "// k :x\n",
]


INTS = ("range", "array", "bytearray", "memoryview")
STYLE_POOL = [["/*", "*/"], "--", "#", ["<!--", "-->"], "//", "%%", ";;", "REM ", ["{-", "-}"], ["(*", "*)"], "--[", "|", "\\", "^",
	["$$", "$$"], "-", "é", ["'", "'"], ["/*", "#/"], ["{-", "}"], ["(*", ")"], ["<!--", ">"], "---", "R"]


class G:
	def __init__(self, seed):
		self.r = random.Random(seed)
		self.uid = 0
		self.cap = 4000  # values per call

	def p(self, x):
		return self.r.random() < x

	def pick(self, xs):
		return xs[self.r.randrange(len(xs))]

	def size(self, small=3, big=0.04, huge=0.004):
		"""Heavy-tailed sizes: sizes decide which code paths run."""
		u = self.r.random()
		if u < huge:
			return self.r.randint(60, 150)
		if u < huge + big:
			return self.r.randint(9, 30)
		return self.r.randint(0, small)

	# -- configuration -----------------------------------------------------

	def cfg(self, ins=None, outs=None):
		c = {"in": ins or self.pick(STYLES), "out": outs or self.pick(STYLES)}
		u = self.r.random()
		if u < 0.3:
			c["esc"] = True
		elif u < 0.42:
			c["esc"] = self.pick(["\\", "!", "!!", "^", "|", "A", "a", "é", "É", "", False])
		u = self.r.random()
		if u < 0.35:
			c["exp"] = True
		elif u < 0.45:
			c["exp"] = False
		u = self.r.random()
		if u < 0.15:
			c["strip"] = True
		elif u < 0.25:
			if self.p(0.7):
				c["strip"] = self.r.sample(STYLE_POOL[:5], self.r.randint(0, 3))
			else:
				c["strip"] = self.r.sample(STYLE_POOL, self.r.randint(1, 7))
		if self.p(0.25):
			c["quotes"] = True
		if self.p(0.06):
			c["sub"] = True
		if self.p(0.03):
			# Anything true or false will do.
			c[self.pick(["exp", "quotes"])] = self.pick([1, 0, "no", ""])
		return c

	def twin(self, c):
		"""Make the settings nearly, or seemingly, those they were."""
		esc, st = c.get("esc"), c.get("strip")
		if isinstance(esc, str) and esc.swapcase() != esc:
			c["esc"] = esc.swapcase()
		elif esc is True and self.p(0.5):
			c["esc"] = model.STYLES[c["in"]][1]
		elif isinstance(st, list) and len(st) > 1:
			c["strip"] = self.pick([st[::-1], st[1:] + st[:1], st[:-1], sum([x if isinstance(x, list) else [x] for x in st], [])])
		elif st is True:
			c["strip"] = self.pick([[["/*", "*/"], "--"], ["--"], ["--", ["/*", "*/"]]])
		elif "strip" in c:
			c["strip"] = self.pick([None, False, True])
		else:
			c["esc"] = self.pick(["A", "a", "é", "É"])

	# -- SQL ---------------------------------------------------------------

	def param_text(self, cfg, names):
		style = cfg["in"]
		kind, mark = model.STYLES[style]
		if kind == "ordinal":
			return "%s" if style == "format" else "?"
		if kind == "numeric":
			return mark + str(self.pick(names))
		n = self.pick(names)
		if style == "pyformat":
			return "%(" + n + ")s"
		if style == "named_oracle":
			u = self.r.random()
			if u < 0.35:
				return ':"' + n + '"'
			return ":" + self.pick([n, n.upper(), n.lower()])
		return mark + n

	def comment(self, cfg):
		st = cfg.get("strip")
		if not isinstance(st, list) or not st or self.p(0.5):
			if self.p(0.7):
				return self.pick(COMMENTS)
			st = STYLE_POOL
		x = self.pick(st)
		pre = self.pick(["", "", " ", "\t "])
		if isinstance(x, list):
			return pre + x[0] + self.pick([" m ", ":a\n?", ""]) + x[1] + self.pick(["\n", "\r\n", "", " x"])
		return pre + x + self.pick([" c :a", "", " ? $1"]) + self.pick(["\n", "\n", "\r\n", ""])

	def sql(self, cfg, nparams=None, plainlits=False):
		kind, mark = model.STYLES[cfg["in"]]
		n = self.size(4) if nparams is None else nparams
		if kind == "numeric":
			top = max(1, self.r.randint(1, max(1, n)))
			names = list(range(1, top + 1))
			if self.p(0.05):
				names.append(self.pick(["01", "007", 12, 25]))
			if self.p(0.05):
				# Number 0: only a mapping can have it, no sequence does.
				names.append(self.pick([0, 0, "00"]))
		else:
			names = self.r.sample(NAMES, min(len(NAMES), self.r.randint(1, max(1, min(n, 8)))))
			if n > 8:
				names = ["p%d" % i for i in range(self.r.randint(5, n))]
			if self.p(0.06):
				names += self.r.sample(UNAMES, 2)
			if self.p(0.02):
				names.append("l" * self.pick([29, 31, 64, 65, 129, 300]))
		lits = LITS + (["é"] if cfg["in"] == "named_oracle" else ULITS)
		if self.p(0.08):
			lits = lits + WLITS
		esc = cfg.get("esc")
		esc = mark if esc is True else esc
		if esc and esc.swapcase() != esc and self.p(0.5):
			esc = esc.swapcase()
		parts = []
		if self.p(0.3):
			parts.append("SELECT ")
		for i in range(n):
			for _ in range(self.r.randint(1, 2)):
				parts.append(" " if plainlits else self.pick(lits))
			if esc and self.p(0.25):
				parts.append(self.pick([esc + mark, esc + mark + self.pick(["a", "1", "s", "(a)s"]), esc, esc + esc]))
			if (cfg.get("strip") is not None and self.p(0.3)) or self.p(0.03):
				parts.append("\n" + self.comment(cfg))
			parts.append(self.pick([" ", "=", "(", ",", "\n", ""]) + self.param_text(cfg, names))
		if n == 0 or self.p(0.6):
			parts.append(self.pick([" ", ";", "\n", ") "]) + self.pick(lits))
		if cfg.get("strip") is not None and self.p(0.2):
			parts.append("\n" + self.comment(cfg))
		if self.p(0.004):
			# A long stretch of text.
			x = self.pick(["x", "y = 1 AND\n", "-- c\n", "  ", "(1, 'b'),"])
			parts.insert(self.r.randint(0, len(parts)), " " + x * (self.pick([260, 1030, 4100, 17000]) // len(x)) + "\n")
		return "".join(parts)

	# -- values and parameters --------------------------------------------

	secrets = False

	def value(self, simple=False):
		if self.secrets and self.p(0.4):
			self.uid += 1
			return ["s", "s3cr3t%d" % self.uid] if self.p(0.7) else ["b", "s3cr3t%d" % self.uid]
		u = self.r.random()
		if u < 0.55 and not simple:
			return ["o"]
		self.uid += 1
		if not simple and self.p(0.12):
			return ["x", self.pick(EXOTIC), self.uid]
		u = self.r.random()
		if u < 0.3:
			return ["i", self.pick([0, 1, 2, -1, 7, 1000 + self.uid])]
		if u < 0.55:
			return ["s", self.pick(["", "a", "alpha", "name", "s3cr3t%d" % self.uid, "'; DROP--%d" % self.uid, ":a", "?", "%s", "x{0}"])]
		if u < 0.65:
			return ["n"]
		if u < 0.73:
			return ["B", self.p(0.5)]
		if u < 0.8:
			return ["f", self.pick([1.0, 0.0, 2.5])]
		if u < 0.87:
			return ["b", self.pick(["", "bin%d" % self.uid, ":a"])]
		if u < 0.93 or simple:
			return ["l", [self.value(True) for _ in range(self.r.randint(0, 2))]]
		return ["d", [self.value(True)]]

	def tup(self, n=None, flat=False):
		if n is None:
			n = self.size(3)
		if n == 2 and self.p(0.1):
			return ["nt", [self.value(), self.value()]]
		if self.p(0.12):
			# All of one kind: equal, of one type, or all false.
			u = self.r.random()
			if u < 0.35:
				els = [self.value()] * n
			elif u < 0.6:
				els = [self.pick([["i", 0], ["n"], ["B", False], ["s", ""], ["f", 0.0], ["b", ""], ["l", []]])] * n
			elif u < 0.8:
				x = self.pick(EXOTIC)
				els = [["x", x, i] for i in range(n)]
			else:
				els = [["i", i] for i in range(n)][::self.pick([1, -1])]
			return ["t", clone(els)]
		els = [self.value() for _ in range(n)]
		if n and not flat and self.p(0.05):
			els[self.r.randrange(n)] = ["t", [self.value() for _ in range(self.r.randint(0, 2))]]
		return ["T" if self.p(0.12) else "t", els]

	def shape(self, expand):
		"""None for a scalar, else a tuple length."""
		if self.p(0.45 if expand else 0.2):
			if self.p(0.002):
				return self.pick([255, 256, 257, 999, 1000, 1001, 2101])
			return self.size(3)
		return None

	def of_shape(self, sh):
		return self.value() if sh is None else self.tup(sh)

	def lookalike(self, n):
		"""No tuple, but something with *n* elements."""
		return self.pick([["l", [["o"] for _ in range(n)]], ["d", [["o"] for _ in range(n)]], ["s", "uvwxyz"[:n]], ["b", "uvwxyz"[:n]]])

	def keys_of(self, cfg, text):
		"""Distinct logical in-parameters of a text, in order."""
		need = []
		n = 0
		for name, quoted in model.params_needed(cfg, text):
			if model.KINDS[cfg["in"]] == "ordinal":
				k = n
				n += 1
			elif model.KINDS[cfg["in"]] == "numeric":
				k = int(name)
			elif cfg["in"] == "named_oracle" and not quoted:
				k = name.upper()
			else:
				k = name
			if k not in need:
				need.append(k)
		return need

	def layout(self, cfg, text, cont=None):
		"""
		How the parameters of one query are laid out: container kind, concrete
		keys, and each key's shape.  Rows of one ``formatmany`` share a layout.
		"""
		if self.p(self.exact):
			return self.exact_layout(cfg, text)
		return self.loose_layout(cfg, text, cont)

	exact = 0.04

	def exact_layout(self, cfg, text):
		"""
		Just what the query needs, in its order, in a plain container: the
		parameters already look like a result.
		"""
		need = self.keys_of(cfg, text)
		sh = self.pick([None, None, None, 1, 0])
		lay = {"need": need, "shapes": {k: sh for k in need}, "exact": True, "extra": []}
		if model.KINDS[cfg["in"]] == "named":
			lay.update(c=self.pick(["dict", "dict", "dict", "od", "mp"]), keys=[[k, k] for k in need])
			if cfg["in"] == "named_oracle" and (cfg.get("quotes") or any(k != k.upper() for k in need)):
				lay["keys"] = [[k, '"' + k + '"'] for k in need]
		else:
			lay.update(c=self.pick(["list", "list", "tuple"]),
				n=(max(need) if model.KINDS[cfg["in"]] == "numeric" else len(need)) if need else 0)
		return lay

	def near_names(self, cfg, need):
		"""Other parameters whose names are easily mistaken for those of the query."""
		k = self.pick(sorted(need))
		oracle = cfg["in"] == "named_oracle"
		norm = lambda x: (x[1:-1] if x[:1] == '"' else x.upper()) if oracle else x
		taken = set(need)
		out = []
		for x in self.r.sample([k.lower(), k.upper(), k.title(), k.swapcase(), '"%s"' % k.lower(), '"%s"' % k.swapcase(), '"%s"' % k,
				"_" + k, k + "_", k[:-1] or "q", ":" + k, "@" + k, k + " ", k.replace("_", "")], 3):
			if norm(x) not in taken and x not in ODD_TEXTS:
				taken.add(norm(x))
				out.append(x)
		return out

	def loose_layout(self, cfg, text, cont=None):
		kind = model.KINDS[cfg["in"]]
		need = self.keys_of(cfg, text)
		expand = cfg.get("exp")
		if expand is None:
			expand = model.KINDS[cfg["out"]] != "named"
		shapes = {k: self.shape(expand) for k in need}
		lay = {"need": need, "shapes": shapes}
		if kind == "named":
			keys = []
			for k in need:
				if cfg["in"] == "named_oracle":
					if k == k.upper() and self.p(0.6):
						keys.append([k, self.pick([k, k.lower(), k.title()])])
					else:
						keys.append([k, '"' + k + '"'])
				else:
					keys.append([k, k])
			extra = ["unused%d" % i for i in range(self.r.randint(0, 2))]
			if need and self.p(0.2):
				extra += self.near_names(cfg, need)
			lay["keys"] = keys
			lay["extra"] = extra
			self.r.shuffle(lay["keys"])
			lay["c"] = cont or self.pick(["dict", "watchdict", "od", "mp", "simmap", "simmap", "ud", "cm", "dd", "counter", "rowdict", "rowmap"])
		elif self.p(0.3) or (kind == "numeric" and need and (max(need) > 200 or (0 in need and self.p(0.9)))):
			lay["keys"] = [[k, self.pick([k, str(k)]) if self.p(0.9) else ["b", str(k)]] for k in need]
			lay["extra"] = self.r.sample([9999, "zz", "8888"], self.r.randint(0, 2))
			self.r.shuffle(lay["keys"])
			lay["c"] = cont if cont in ("dict", "watchdict", "simmap", "od", "mp") else self.pick(
				["dict", "watchdict", "od", "mp", "simmap", "ud", "dd", "counter", "rowdict", "rowmap"])
		else:
			lay["n"] = (max(need) if kind == "numeric" else len(need)) if need else 0
			lay["n"] += self.pick([0, 0, 0, 1, 2])
			lay["c"] = cont if cont in ("list", "watchlist", "simseq", "tuple") else self.pick(
				["list", "watchlist", "tuple", "simseq", "simseq", "ul", "deque", "ntup", "rowlist", "rowseq", "rowtuple"])
			if not cont and self.p(0.05):
				# Sequences of numbers.
				lay["c"] = self.pick(INTS)
				lay["shapes"] = dict.fromkeys(shapes)
		return lay

	def fill(self, cfg, lay, vals=None):
		"""One concrete set of parameters for a layout."""
		sh = lay["shapes"]
		if "keys" in lay:
			hooks = lay.get("hooks")
			if hooks is None:
				# (An OrderedDict hides what its keys raise while it is iterated.)
				hooks = lay["hooks"] = self.p(0.07) and not lay.get("exact") and lay["c"] != "od"
			items = [[["h", ck] if hooks and isinstance(ck, str) and self.p(0.7) else ck, self.of_shape(sh[k])] for k, ck in lay["keys"]]
			items += [[k, self.value()] for k in lay["extra"]]
			if self.p(0.06) and not lay.get("exact"):
				for k in self.r.sample(ODD_KEYS, self.r.randint(1, 3)):
					items.insert(self.r.randint(0, len(items)), [["k", k], self.of_shape(self.shape(True))])
			return {"c": lay["c"], "items": items}
		base = 1 if model.KINDS[cfg["in"]] == "numeric" else 0
		if lay["c"] in INTS and lay["n"] < 100:
			k = self.r.randint(0, 100)
			return {"c": lay["c"], "vals": [["i", k + i if lay["c"] == "range" else self.r.randint(0, 255)] for i in range(lay["n"])]}
		return {"c": "list" if lay["c"] in INTS else lay["c"], "vals": [self.of_shape(sh.get(i + base)) for i in range(lay["n"])]}

	def rows_spec(self, cfg, lay, n, srcs=None):
		c = self.pick(srcs or ["list", "watchlist", "tuple", "iter", "dictvalues", "deque", "ul", "gen", "map",
			"stream", "stream", "source", "source", "cursor", "gauge", "queue"])
		s = {"c": c}
		if c in ("stream", "source", "cursor", "gauge", "queue"):
			if self.p(0.4):
				s["reuse"] = True
				if lay["c"] in ("od", "mp", "simmap", "ud", "cm", "dd", "counter", "rowdict", "rowmap"):
					lay["c"] = "dict"
				elif lay["c"] in ("simseq", "ul", "deque", "tuple", "ntup", "rowlist", "rowseq", "rowtuple") + INTS:
					lay["c"] = "list"
		s["rows"] = [self.fill(cfg, lay) for _ in range(n)]
		if model.KINDS[cfg["in"]] != "named" and self.p(0.1):
			# Rows of both kinds, mappings and sequences.
			s["rows"] = [self.other_kind(cfg, r, s.get("reuse")) if self.p(0.5) else r for r in s["rows"]]
		elif n > 1 and 0 in lay["need"] and "keys" in lay and model.KINDS[cfg["in"]] == "numeric" and self.p(0.6):
			# A row that cannot have number 0.
			k = self.r.randrange(1, n)
			s["rows"][k] = self.other_kind(cfg, s["rows"][k], s.get("reuse"))
		return s

	def other_kind(self, cfg, p, plain):
		base = 1 if model.KINDS[cfg["in"]] == "numeric" else 0
		if "vals" in p:
			items = [[self.pick([i + base, str(i + base)]), v] for i, v in enumerate(p["vals"])]
			return {"c": "dict" if plain else self.pick(["dict", "simmap", "od"]), "items": items}
		by = {}
		for k, v in p["items"]:
			if isinstance(k, list) and k[0] == "k":
				continue
			n = k[1] if isinstance(k, list) else str(k)
			if n.isdigit() and int(n) >= base:
				by[int(n) - base] = v
		if by and max(by) > 200:
			return p
		vals = [by.get(i) or self.value() for i in range(max(by) + 1 if by else 0)]
		return {"c": "list" if plain else self.pick(["list", "tuple", "simseq"]), "vals": vals}

	# -- operations --------------------------------------------------------

	def op(self, sc, i, cfg, text, many=None, byt=None, lay=None, nrows=None, srcs=None, cont=None):
		lay = lay or self.layout(cfg, text, cont)
		o = {"id": self.next_id(), "inst": i, "sql": text}
		if byt is None:
			byt = self.p(0.25)
		try:
			text.encode("latin1")
		except UnicodeError:
			byt = False
		if byt:
			o["bytes"] = True
		elif self.p(0.05):
			o["strsub"] = True
		if many is None:
			many = self.p(0.4)
		if many:
			o["k"] = "many"
			n = nrows if nrows is not None else self.pick([1, 1, 2, 2, 3, 5]) if self.p(0.95) else self.r.randint(10, 60)
			if nrows is None and self.p(0.003):
				n = self.r.randint(100, 1100)
			self.bound(lay, max(1, n) if nrows is not None else 1)
			if nrows is None:
				n = max(1, min(n, self.cap // self.weight(lay)))
			o["rows"] = self.rows_spec(cfg, lay, n, srcs)
		else:
			o["k"] = "format"
			self.bound(lay, 1)
			o["params"] = self.fill(cfg, lay)
		return o

	def weight(self, lay):
		return sum(max(1, n or 0) for n in lay["shapes"].values()) + len(lay.get("extra", ())) + 1

	def bound(self, lay, n):
		"""Keep a call within the size cap by shortening its tuples."""
		sh = lay["shapes"]
		for most in (40, 8, 2):
			if self.weight(lay) * n <= self.cap:
				return
			for k in sh:
				if sh[k] and sh[k] > most:
					sh[k] = most

	def next_id(self):
		self.uid += 1
		self.ids = getattr(self, "ids", 0) + 1
		return self.ids

	def break_op(self, cfg, o):
		"""Make the operation fail in the caller's own way (bad input)."""
		o = clone(o)
		o["id"] = self.next_id()
		kinds = ["missing", "badparams", "badsql"]
		if o["k"] == "many":
			kinds += ["badrow", "badrow", "shape", "shape", "badrows", "empty"]
		k = self.pick(kinds)
		rows = o["rows"].get("rows") if o["k"] == "many" else None
		if rows is not None:
			o["rows"].pop("reuse", None)
		bad = {"c": "bad", "v": self.pick(["none", "int", "str", "bytes", "set", "ring", "record", "shown", "shown"])}
		need = self.keys_of(cfg, o["sql"])
		if k == "missing" and need:
			tgt = rows[self.r.randrange(len(rows))] if rows else o.get("params")
			if tgt and tgt["c"] in ("dd", "counter"):
				tgt["c"] = "dict"  # these make up what is missing
			if tgt and tgt["c"] in INTS:
				tgt["c"] = "list"
			if tgt and "items" in tgt:
				# Drop one needed key (the needed ones come first).
				n = len(need)
				if tgt["items"]:
					tgt["items"].pop(self.r.randrange(min(n, len(tgt["items"]))))
			elif tgt:
				tgt["vals"] = tgt["vals"][:self.r.randrange(max(1, len(tgt["vals"])))]
		elif k == "badparams":
			if rows:
				rows[0] = bad
			elif "params" in o:
				o["params"] = bad
		elif k == "badsql":
			o["sql"] = None
			o.pop("bytes", None)
			o.pop("strsub", None)
		elif k == "badrow" and rows and len(rows) > 1:
			rows[self.r.randrange(1, len(rows))] = bad
		elif k == "shape" and rows and len(rows) > 1:
			r = rows[self.r.randrange(1, len(rows))]
			if r["c"] in INTS:
				r["c"] = "list"
			vs = r["items"] if "items" in r else r["vals"]
			tups = [j for j, v in enumerate(vs) if (v[1] if "items" in r else v)[0] in ("t", "T")]
			if tups:
				j = self.pick(tups)
				vv = (vs[j][1] if "items" in r else vs[j])[1]
				n = len(vv)
				new = self.pick([["t", vv + [["i", 5]]], ["t", vv[:-1]] if vv else ["t", [["o"]]], ["i", 3],
					# Not a tuple, yet of the right length.
					["l", clone(vv)], ["s", "xyzw"[:n] if n < 5 else "x" * n], ["b", "y" * n], ["d", clone(vv)],
					["o"], ["n"], ["t", vv * 2], ["T", vv + [["o"]]], ["t", []]])
				if "items" in r:
					vs[j][1] = new
				else:
					vs[j] = new
		elif k == "badrows":
			o["rows"] = {"c": "bad", "v": self.pick(["int", "none", "str", "shown"])}
		elif k == "empty":
			o["rows"]["rows"] = []
		o["broken"] = k
		return o

	def pool(self, sc, i, cfg, n, **kw):
		"""
		Operations that look alike: the same text with other shapes, other types,
		str/bytes twins and format/formatmany twins.  Anything remembered between
		calls under too small a key shows up here.
		"""
		ops = []
		texts = [self.sql(cfg) for _ in range(max(1, n // 3))]
		while len(ops) < n:
			u = self.r.random()
			if ops and u < 0.12:
				o = clone(self.pick(ops))
				o["id"] = self.next_id()
			elif ops and u < 0.2 and not kw.get("many"):
				o = self.pick(ops)
				if o["sql"] is None:
					continue
				byt = not o.get("bytes")
				o = self.op(sc, i, cfg, o["sql"], byt=byt, **kw)
			else:
				o = self.op(sc, i, cfg, self.pick(texts), **kw)
			ops.append(o)
		return ops

	def ambiguous(self, cfg, p):
		"""Give some parameters under several keys; replicas keep their order."""
		if "items" not in p or model.KINDS[cfg["in"]] == "named" and cfg["in"] != "named_oracle":
			return
		have = [repr(k) for k, _ in p["items"]]
		for k, _ in list(p["items"]):
			if not self.p(0.6) or isinstance(k, list) and k[0] in "kh":
				continue
			if cfg["in"] == "named_oracle":
				n = k.strip('"')
				ks = [n, n.upper(), n.lower(), n.title(), n.swapcase(), '"' + n.upper() + '"', '"' + n + '"']
			else:
				n = k[1] if isinstance(k, list) else str(k)
				if not n.isdigit():
					continue
				ks = ["0" + n, "00" + n, int(n), str(int(n)), ["b", n], ["b", "0" + n]]
			for new in self.r.sample(ks, self.r.randint(1, 3)):
				if repr(new) not in have:
					have.append(repr(new))
					p["items"].insert(self.r.randint(0, len(p["items"])), [new, self.of_shape(self.shape(True))])
		p["keep"] = True

	# -- faults ------------------------------------------------------------

	EXCS = ["GeneratorRuntimeError", "KeyboardInterrupt", "MemoryError", "OSError", "TimeoutError", "SimFault", "SimFault", "SimBaseFault",
		"RuntimeError", "ValueError", "KeyError", "CancelledError", "SystemExit", "GeneratorExit"]
	# Exceptions with which Python's own protocols end loops or look-ups.
	PROTO = ["StopIteration", "IndexError", "AttributeError", "TypeError", "LookupError", "StopAsyncIteration",
		"UnicodeDecodeError", "NotImplementedError", "AssertionError", "RecursionError"]
	ASYNC = ["KeyboardInterrupt", "MemoryError", "SimBaseFault", "SystemExit", "TimeoutError", "CancelledError"]

	def est_events(self, o):
		"""A rough event count of one operation, to place injections inside it."""
		t = len(model.params_needed({"in": "named", "out": "qmark"}, o["sql"] or "")) if o["sql"] else 0
		n = sum((o["sql"] or "").count(c) for c in ":$@%?") if o["sql"] else 0
		rows = len(o["rows"].get("rows", ())) if o["k"] == "many" else 1
		return 90 + 60 * n + rows * (25 + 25 * n) + t

	def cb_sites(self, o):
		sites = []
		ps = o["rows"].get("rows", []) if o["k"] == "many" else [o["params"]]
		for p in ps[:1]:
			if p["c"] == "simmap":
				sites += ["getitem", "items_next", "any"]
			elif p["c"] == "simseq":
				sites += ["getitem", "any"]
			if any(isinstance(k, list) and k[0] == "h" for k, _ in p.get("items", ())):
				sites += ["key_eq", "key_eq", "key_hash", "any"]
		if o["k"] == "many" and o["rows"]["c"] in ("gen", "map", "stream", "source", "cursor", "gauge", "queue"):
			sites += ["next", "next", "any"]
			if o["rows"]["c"] == "source":
				sites.append("source_iter")
		if '["T"' in repr(o).replace("'", '"'):
			sites += ["tuple_iter", "tuple_len"]
		return sites

	def fault(self, o, kinds=("raise", "instr")):
		k = self.pick(kinds)
		sites = self.cb_sites(o)
		if k == "raise" and sites:
			s = self.pick(sites)
			rows = len(o["rows"].get("rows", ())) if o["k"] == "many" else 1
			hi = rows + 1 if s == "next" else 1 + self.size(6)
			exc = self.pick(self.EXCS if self.p(0.65) else self.PROTO)
			if s.startswith("key"):
				exc = self.pick(self.EXCS)
			if exc == "StopIteration" and s in ("next", "items_next", "iter_next", "any"):
				exc = "IndexError"  # there it is the regular end, or turned into RuntimeError by Python
			return {"kind": "raise", "site": s, "n": self.r.randint(1, max(1, hi)), "exc": exc}
		return {"kind": "raise", "site": "instr", "n": self.r.randint(1, self.est_events(o)), "exc": self.pick(self.ASYNC)}

	def stall(self, o):
		sites = self.cb_sites(o)
		if not sites:
			return None
		return {"kind": "stall", "site": self.pick(sites), "n": self.r.randint(1, 4),
			"dt": round(self.r.expovariate(1 / 5.0), 3)}

	def await_(self, sc, t, o):
		"""An access that waits for calls of a later thread (so nobody waits in a circle)."""
		sites = self.cb_sites(o)
		if not sites or t + 1 >= len(sc["threads"]):
			return None
		u = self.r.randint(t + 1, len(sc["threads"]) - 1)
		return {"kind": "await", "site": self.pick(sites), "n": self.r.randint(1, 3), "tid": u,
			"count": self.r.randint(1, max(1, len(sc["threads"][u])))}

	def awaits(self, sc):
		if len(sc["threads"]) > 1 and self.p(0.3):
			for t, ops in enumerate(sc["threads"]):
				for o in ops:
					if o["k"] in ("format", "many") and not o.get("broken") and not o.get("faults") and self.p(0.5):
						f = self.await_(sc, t, o)
						if f:
							o["faults"] = [f]

	# -- schedules ---------------------------------------------------------

	def sched(self, seed):
		u = self.r.random()
		s = {"seed": seed}
		if u < 0.4:
			s.update(pol="gap", mean=self.pick([3, 8, 20, 60, 150, 400]), cbp=self.pick([0, 0.2, 0.6]))
		elif u < 0.7:
			n = self.r.randint(1, 4)
			s.update(pol="pct", pts=sorted(self.r.randint(1, self.pick([60, 300, 900])) for _ in range(n)),
				cbp=self.pick([0, 0, 0.3]))
		elif u < 0.85:
			s.update(pol="lock", cbp=0)
		else:
			s.update(pol="cb", cbp=self.pick([0.5, 1.0]))
		return s


def clone(x):
	if isinstance(x, dict):
		return {k: clone(v) for k, v in x.items()}
	if isinstance(x, list):
		return [clone(v) for v in x]
	return x


# ---------------------------------------------------------------------------
# Profiles
# ---------------------------------------------------------------------------

def base(prop, seed, g):
	return {"v": 1, "prop": prop, "seed": seed, "insts": [], "threads": [], "trace": True,
		"sched": g.sched(seed ^ 0x5DEECE66D)}


def shared_threads(g, sc, nthreads, nops, insts=1, **kw):
	"""Caller threads that share one or two converters and similar queries."""
	pools = []
	for i in range(insts):
		cfg = g.cfg()
		if i and g.p(0.3):
			# There and back again.
			cfg = {"in": sc["insts"][0]["out"], "out": sc["insts"][0]["in"]}
		sc["insts"].append(cfg)
		pools.append(g.pool(sc, i, cfg, max(2, nops), **kw))
	for t in range(nthreads):
		ops = []
		for _ in range(g.r.randint(1, nops)):
			o = clone(g.pick(g.pick(pools)))
			o["id"] = g.next_id()
			ops.append(o)
		sc["threads"].append(ops)
	return pools


def soak(g, sc, nops, threads=1, **kw):
	"""
	A long history on one or two converters: more distinct queries than any
	bounded table holds, with old ones coming back in other shapes.
	"""
	g.cap = 40
	sc["trace"] = False
	sc["sched"] = {"seed": sc["seed"], "pol": "cb", "cbp": g.pick([0.0, 0.1])}
	base = len(sc["insts"])
	for _ in range(g.pick([1, 1, 2])):
		sc["insts"].append(g.cfg())
	old = []
	for t in range(threads):
		ops = []
		for _ in range(nops // threads):
			u = g.r.random()
			if old and u < 0.3:
				# Mostly the very old and the very recent ones.
				n = len(old)
				i, text = old[min(n - 1, int(n * g.r.random() ** 3))] if g.p(0.6) else old[-1 - int(n * g.r.random() ** 4)]
			else:
				i = base + g.r.randrange(len(sc["insts"]) - base)
				text = g.sql(sc["insts"][i], g.pick([0, 1, 1, 2])) + "/*%d*/" % g.next_id()
				old.append((i, text))
			ops.append(g.op(sc, i, sc["insts"][i], text, **kw))
		sc["threads"].append(ops)
	return sc


def crowd(g, sc, T, faults=False):
	"""
	As many different queries as a bounded table may hold, then calls that need
	room in it.  The first ones are not interleaved.
	"""
	g.cap = 40
	sc["trace"] = True
	if sc["sched"]["pol"] == "cb":
		sc["sched"].update(pol="gap", mean=g.pick([3, 10, 30, 100]))
	cfg = g.cfg()
	i = len(sc["insts"])
	sc["insts"].append(cfg)
	many = g.pick([True, False, None])
	texts = []

	def one(calm):
		text = g.sql(cfg, g.pick([0, 1, 1, 2])) + "/*%d*/" % g.next_id()
		texts.append(text)
		o = g.op(sc, i, cfg, text, many=many, byt=False, nrows=g.pick([1, 1, 2]))
		if calm:
			o["calm"] = True
		return o
	n = g.pick([4, 8, 10, 16, 20, 32, 50, 64, 100, 128, 256])
	first = [one(True) for _ in range(n + g.pick([-1, 0, 0, 0, 1]))]
	for t in range(T):
		ops = first[t::T]
		for _ in range(g.r.randint(2, 5)):
			o = one(False) if g.p(0.7) else g.op(sc, i, cfg, g.pick(texts[:3] + texts[-3:]), many=many, byt=False, nrows=g.pick([1, 1, 2]))
			if faults and g.p(0.5):
				bad = clone(o)
				bad["id"] = g.next_id()
				bad["faults"] = [{"kind": "raise", "site": "instr", "n": g.r.randint(1, g.est_events(o)), "exc": g.pick(g.ASYNC)}]
				ops.append(bad)
			ops.append(o)
		sc["threads"].append(ops)
	return sc


def gen_C01(seed):
	"""Threads on shared converters; stalls, no errors except bad input."""
	g = G(seed)
	sc = base("C01", seed, g)
	if g.p(0.003):
		return soak(g, sc, g.pick([400, 1500, 3000]), g.pick([1, 2]))
	if g.p(0.015):
		return crowd(g, sc, g.pick([2, 2, 3, 4]))
	if g.p(0.12):
		sc["trace"] = False
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": 0.5}
		shared_threads(g, sc, g.r.randint(2, 6), g.r.randint(4, 12), g.pick([1, 1, 2]))
	else:
		shared_threads(g, sc, g.pick([2, 2, 2, 3, 4]), g.pick([1, 2, 3, 4]), g.pick([1, 1, 1, 2]))
	for ops in sc["threads"]:
		for n, o in enumerate(ops):
			if g.p(0.08):
				ops[n] = g.break_op(sc["insts"][o["inst"]], o)
			elif g.p(0.15):
				f = g.stall(o)
				if f:
					o["faults"] = [f]
	g.awaits(sc)
	return sc


def gen_C02(seed):
	"""Converters built, misbuilt and used concurrently, each in its own way."""
	g = G(seed)
	sc = base("C02", seed, g)
	# Neighbours differ in one setting, so a setting that leaks is visible.
	proto = g.cfg()
	n = g.pick([2, 3, 4, 6]) if g.p(0.995) else g.r.randint(100, 600)
	if n > 6:
		g.cap = 40
		sc["trace"] = False
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": 0.0}
	cfgs = []
	for i in range(n):
		c = clone(proto)
		for _ in range(g.r.randint(1, 2)):
			k = g.pick(["in", "out", "esc", "exp", "strip", "quotes", "all", "twin", "back"])
			alt = g.cfg()
			if k == "all":
				c = alt
			elif k == "twin":
				g.twin(c)
			elif k == "back":
				c["in"], c["out"] = c["out"], c["in"]
			elif k == "in" and g.p(0.5):
				# Same marker character, another style.
				c["in"] = g.pick([s for s in STYLES if model.STYLES[s][1] == model.STYLES[c["in"]][1]])
			elif k == "quotes":
				c["quotes"] = not c.get("quotes")
			elif k == "exp":
				c["exp"] = not c.get("exp", model.KINDS[c["out"]] != "named")
			elif k in alt:
				c[k] = alt[k]
			else:
				c.pop(k, None)
		cfgs.append(c)
		if n > 6 and g.p(0.05):
			proto = g.cfg()  # drift
	sc["insts"] = [dict(c, late=True) if g.p(0.5) else c for c in cfgs]
	T = g.pick([1, 2, 2, 3])
	sc["threads"] = [[] for _ in range(T)]
	lists = [i for i, c in enumerate(cfgs) if isinstance(c.get("strip"), list)]
	if T == 1 and len(lists) > 1 and n <= 6:
		for a, b in zip(lists, lists[1:]):
			if sc["insts"][b].get("late") and g.p(0.7):
				sc["insts"][b]["reuse"] = a
				if g.p(0.5):
					cfgs[b]["strip"] = sc["insts"][b]["strip"] = g.r.sample(STYLE_POOL, len(cfgs[a]["strip"]))
	texts = [g.sql(c, g.pick([0, 1, 2]) if n > 6 else None) for c in cfgs]
	late = [i for i, c in enumerate(sc["insts"]) if c.get("late")]
	for i in late:
		# The builder uses its converter before anyone else can know it.
		ops = sc["threads"][g.r.randrange(T)]
		ops.append({"id": g.next_id(), "k": "new", "inst": i})
		for _ in range(g.r.randint(1, 3)):
			ops.append(g.op(sc, i, cfgs[i], g.pick(texts), cont=None))
		if cfgs[i].get("strip") not in (None, True) and g.p(0.6):
			ops.append({"id": g.next_id(), "k": "mutcfg", "inst": i, "how": g.pick(["clear", "append", "swap"])})
			ops.append(g.op(sc, i, cfgs[i], g.pick(texts)))
	early = [i for i in range(n) if i not in late]
	for ops in sc["threads"]:
		for _ in range(g.r.randint(1, 4) if n <= 6 else n):
			u = g.r.random()
			if u < 0.15:
				ops.insert(g.r.randint(0, len(ops)), {"id": g.next_id(), "k": "badnew", "how": g.pick(
					["in", "out", "type_in", "type_out", "type_esc", "type_strip", "late_strip", "pair_strip"]), "inst": g.r.randrange(n)})
			elif early and u < 0.25:
				i = g.pick(early)
				ops.append({"id": g.next_id(), "k": "mutcfg", "inst": i, "how": g.pick(["clear", "append", "swap"])})
			elif early:
				i = g.pick(early)
				ops.append(g.op(sc, i, cfgs[i], g.pick(texts) if g.p(0.5) else g.sql(cfgs[i])))
	# A text written for one style is legal for every other: whatever it needs
	# under that configuration was supplied by op().
	return sc


def nested_op(g, sc, depth=0):
	i = g.r.randrange(len(sc["insts"]))
	cfg = sc["insts"][i]
	pools = sc.setdefault("_pool", {})
	if pools.get(i) and g.p(0.5):
		o = clone(g.pick(pools[i]))
		o["id"] = g.next_id()
		o.pop("faults", None)
	else:
		o = g.op(sc, i, cfg, g.sql(cfg))
	if g.p(0.12):
		o = g.break_op(cfg, o)
	elif depth < 2 and g.p(0.3):
		sites = g.cb_sites(o)
		if sites:
			o["faults"] = [{"kind": "reenter", "site": g.pick(sites), "n": g.r.randint(1, 3),
				"op": nested_op(g, sc, depth + 1)}]
	return o


def deep(g, sc):
	"""One call in another in another ..., on one converter of its own kind."""
	by = {}
	for st in STYLES:
		by.setdefault(model.KINDS[st], []).append(st)
	cfg = g.cfg(g.pick(by[g.pick(sorted(by))]), g.pick(by[g.pick(sorted(by))]))
	i = len(sc["insts"])
	sc["insts"].append(cfg)
	texts = [g.sql(cfg, g.pick([1, 2, 3, 5])) for _ in range(g.pick([1, 2, 4, 35]))]
	inner = None
	sure = g.p(0.8)
	for _ in range(g.pick([4, 6, 9, 12, 18, 35])):
		text = g.pick(texts)
		for cont in ("simmap", "simseq") * 8:
			lay = g.loose_layout(cfg, text, cont)
			if lay["c"] == cont:
				break
		o = g.op(sc, i, cfg, text, lay=lay, nrows=g.pick([1, 2, 3]))
		sites = g.cb_sites(o)
		if inner is not None and sites:
			# At the last access that there is, if it comes to that many.
			n = max(1, len(g.keys_of(cfg, text)))
			o["faults"] = [{"kind": "reenter", "site": "any" if sure else g.pick(sites), "n": g.r.randint(1, n + 1 if sure else 2 * n), "op": inner}]
		inner = o
	ops = g.pick(sc["threads"])
	ops.insert(g.r.randint(0, len(ops)), inner)


def gen_C03(seed):
	"""Calls that re-enter their own converter from inside."""
	g = G(seed)
	sc = base("C03", seed, g)
	T = g.pick([1, 1, 1, 2])
	sc["trace"] = g.p(0.75)
	pools = shared_threads(g, sc, T, g.pick([1, 2, 3]), g.pick([1, 1, 2]))
	sc["_pool"] = {i: p for i, p in enumerate(pools)}
	if not sc["trace"]:
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": 0.3}
	if g.p(0.05):
		deep(g, sc)
	for ops in sc["threads"]:
		for o in ops:
			if o.get("faults"):
				continue
			fs = []
			sites = g.cb_sites(o)
			if g.p(0.08):
				# Where the library shows what it does not like.
				bad = g.break_op(sc["insts"][o["inst"]], o)
				o.clear()
				o.update(bad, faults=[{"kind": "reenter", "site": "repr", "n": 1, "op": nested_op(g, sc)}])
				continue
			for _ in range(g.r.randint(1, 2)):
				if sites and (g.p(0.6) or not sc["trace"]):
					fs.append({"kind": "reenter", "site": g.pick(sites), "n": g.r.randint(1, 5), "op": nested_op(g, sc)})
				elif sc["trace"]:
					fs.append({"kind": "reenter", "site": "instr", "n": g.r.randint(1, g.est_events(o)),
						"op": nested_op(g, sc)})
			o["faults"] = fs
	del sc["_pool"]
	return sc


def gen_C04(seed):
	"""Failing and interrupted calls, each followed by clean probes."""
	g = G(seed)
	sc = base("C04", seed, g)
	if g.p(0.015):
		return crowd(g, sc, g.pick([1, 1, 2]), True)
	u = g.r.random()
	sc["trace"] = u < 0.75
	T = g.pick([1, 1, 2, 3]) if sc["trace"] else 1
	insts = g.pick([1, 1, 2])
	long = (not sc["trace"]) and g.p(0.06)
	if long:
		g.cap = 60
	pools = []
	for i in range(insts):
		cfg = g.cfg()
		sc["insts"].append(cfg)
		pools.append(g.pool(sc, i, cfg, g.r.randint(2, 5)))
	for t in range(T):
		ops = []
		for _ in range(g.r.randint(150, 400) if long else g.r.randint(1, 3)):
			i = g.r.randrange(insts)
			o = clone(g.pick(pools[i]))
			o["id"] = g.next_id()
			bad = clone(o)
			bad["id"] = g.next_id()
			v = g.r.random()
			if v < 0.3:
				bad = g.break_op(sc["insts"][i], bad)
				if g.p(0.3):
					bad["faults"] = [{"kind": "raise", "site": "repr", "n": 1, "exc": g.pick(g.EXCS)}]
			elif v < 0.42 and not sc["trace"]:
				bad["stack"] = g.r.randint(1, 14)
			else:
				bad["faults"] = [g.fault(bad, ("raise", "instr", "instr") if sc["trace"] else ("raise",))]
			ops.append(bad)
			if g.p(0.7):
				ops.append(o)  # the same call again, unharmed
			if g.p(0.5):
				q = clone(g.pick(pools[i]))
				q["id"] = g.next_id()
				ops.append(q)
			if long and g.p(0.5):
				q = g.op(sc, i, sc["insts"][i], g.sql(sc["insts"][i], g.r.randint(0, 3)) + "/*%d" % g.next_id())
				ops.append(q)
		sc["threads"].append(ops)
	return sc


def gen_C05(seed):
	"""Faults raised inside the caller's objects and at any instruction."""
	g = G(seed)
	sc = base("C05", seed, g)
	sc["trace"] = g.p(0.7)
	T = g.pick([1, 1, 1, 2])
	insts = 1
	cfg = g.cfg()
	sc["insts"].append(cfg)
	kind = model.KINDS[cfg["in"]]
	for t in range(T):
		ops = []
		for _ in range(g.r.randint(1, 3)):
			cont = ("simmap" if kind == "named" else g.pick(["simmap", "simseq", "simseq"])) if g.p(0.75) else None
			srcs = ["gen", "map", "stream", "source"] if g.p(0.8) else None
			o = g.op(sc, 0, cfg, g.sql(cfg, max(1, g.size(4)) if g.p(0.9) else 0), srcs=srcs, cont=cont)
			u = g.r.random()
			if u < 0.12:
				o = g.break_op(cfg, o)
				if g.p(0.4):
					o["faults"] = [{"kind": "raise", "site": "repr", "n": 1, "exc": g.pick(g.EXCS)}]
			elif u < 0.18 and not sc["trace"]:
				o["stack"] = g.r.randint(1, 14)
			else:
				o["faults"] = [g.fault(o, ("raise", "raise", "instr") if sc["trace"] else ("raise",))]
				if g.p(0.15):
					f = g.stall(o)
					if f:
						o["faults"].append(f)
			ops.append(o)
		sc["threads"].append(ops)
	return sc


def gen_C06(seed):
	"""Row streams: stalls, refilled buffers, early failures, long streams."""
	g = G(seed)
	sc = base("C06", seed, g)
	big = g.p(0.06)
	sc["trace"] = not big and g.p(0.5)
	if not sc["trace"]:
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": g.pick([0.0, 0.3])}
	T = 1 if big else g.pick([1, 1, 2, 3])
	cfg = g.cfg()
	sc["insts"].append(cfg)
	for t in range(T):
		ops = []
		for _ in range(1 if big else g.r.randint(1, 3)):
			n = (g.r.randint(200, 1500) if g.p(0.75) else g.r.randint(3000, 12000)) if big else g.pick([1, 2, 3, 4, 6, 9])
			if big and g.p(0.04):
				n = g.pick([16385, 17000, 33000, 66000])
			if not big and g.p(0.05):
				n = g.r.randint(20, 130)
			if big:
				g.cap = 8000
			text = g.sql(cfg, g.r.randint(0, 3) if big else None)
			lay = g.layout(cfg, text)
			o = g.op(sc, 0, cfg, text, many=True, lay=lay, nrows=n,
				srcs=["gen", "map", "stream", "stream", "source", "source", "cursor", "gauge", "queue", "iter", "list", "list"])
			u = g.r.random()
			fs = []
			rs = o["rows"].get("rows", ())
			if o["rows"]["c"] == "list" and len(rs) > 1 and rs[0]["c"] in ("simmap", "simseq") and g.p(0.7):
				o["rows"].update(c="glist", k=g.r.randint(1, len(rs) - 1))
			if u < 0.25:
				o = g.break_op(cfg, o)
			elif u < 0.45:
				if g.cb_sites(o):
					fs.append(g.fault(o, ("raise",)))
			for _ in range(g.pick([0, 0, 1, 2])):
				f = g.stall(o) if not o.get("broken") else None
				if f:
					fs.append(f)
			if fs:
				o["faults"] = fs
			ops.append(o)
		sc["threads"].append(ops)
	g.awaits(sc)
	return sc


def gen_C07(seed):
	"""Everything above, with the caller's objects under watch."""
	g = G(seed)
	sc = base("C07", seed, g)
	sc["trace"] = g.p(0.6)
	if not sc["trace"]:
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": 0.3}
	T = g.pick([1, 1, 2])
	cfg = g.cfg()
	sc["insts"].append(cfg)
	kind = model.KINDS[cfg["in"]]
	for t in range(T):
		ops = []
		for _ in range(g.r.randint(1, 4)):
			cont = g.pick(["watchdict", "dict", None] if kind == "named" else ["watchdict", "watchlist", "list", None])
			o = g.op(sc, 0, cfg, g.sql(cfg), cont=cont)
			u = g.r.random()
			if u < 0.25:
				o = g.break_op(cfg, o)
			elif u < 0.55:
				o["faults"] = [g.fault(o, ("raise", "instr") if sc["trace"] else ("raise",))]
			ops.append(o)
		sc["threads"].append(ops)
	return sc


def gen_C08(seed):
	"""Clients that keep, scribble over and compare what they were given."""
	g = G(seed)
	g.exact = 0.2
	sc = base("C08", seed, g)
	sc["trace"] = g.p(0.6)
	if not sc["trace"]:
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": 0.3}
	T = g.pick([1, 1, 2, 3])
	for i in range(g.pick([1, 1, 2])):
		sc["insts"].append(g.cfg())
	pools = []
	for i, cfg in enumerate(sc["insts"]):
		pool = []
		for _ in range(g.r.randint(1, 4)):
			u = g.r.random()
			text = g.sql(cfg, 0 if u < 0.2 else g.r.randint(6, 20) if u < 0.35 else None)
			lay = g.layout(cfg, text)
			if g.p(0.15):
				lay["shapes"] = {k: 0 for k in lay["shapes"]}
			pool.append(g.op(sc, i, cfg, text, lay=lay))
		pools.append(pool)
	for t in range(T):
		ops = []
		for _ in range(g.r.randint(2, 5)):
			o = clone(g.pick(g.pick(pools)))
			o["id"] = g.next_id()
			if g.p(0.6):
				o["scribble"] = g.pick(["clear", "append", "fill", "rows"])
			if g.p(0.3):
				o["scribble_in"] = True
			ops.append(o)
		sc["threads"].append(ops)
	return sc


def growth(g, seed):
	sc = base("C09", seed, g)
	sc["trace"] = False
	sc["sched"] = {"seed": seed, "pol": "cb", "cbp": 0.3}
	sc["insts"] = [g.cfg()]
	what = g.pick(["good", "good", "tuples", "bad", "fault", "new", "threads", "types"])
	sc["threads"] = [[{"id": g.next_id(), "k": "grow", "inst": 0, "what": what, "n": {"new": 700, "threads": 300, "types": 300}.get(what, 1500),
		"many": g.p(0.5), "bytes": g.p(0.3)}]]
	return sc


def gen_C09(seed):
	"""Histories of good, bad and interrupted calls, then a retention check."""
	g = G(seed)
	if g.p(0.01):
		return growth(g, seed)
	sc = gen_C04(seed) if g.p(0.5) else gen_C05(seed)
	sc["prop"] = "C09"
	g.ids = 10000000
	for ops in sc["threads"]:
		del ops[12:]
		for o in ops:
			if g.p(0.4):
				o.pop("faults", None)
				o.pop("stack", None)
		for pos in sorted({g.r.randint(0, len(ops)), len(ops)}, reverse=True):
			ops.insert(pos, {"id": g.next_id(), "k": "retcheck"})
	return sc


def gen_C10(seed):
	"""Values that fault when looked at."""
	g = G(seed)
	g.value_bias = True
	sc = base("C10", seed, g)
	if g.p(0.002):
		return soak(g, sc, g.pick([400, 1500]))
	sc["trace"] = g.p(0.3)
	if not sc["trace"]:
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": 0.3}
	shared_threads(g, sc, g.pick([1, 1, 2]), g.pick([2, 3, 4]), 1)
	for ops in sc["threads"]:
		for o in ops:
			if g.p(0.15):
				f = g.stall(o)
				if f:
					o["faults"] = [f]
	return sc


def gen_C11(seed):
	"""A live parameter container, updated by other threads during the call."""
	g = G(seed)
	sc = base("C11", seed, g)
	cfg = g.cfg()
	cfg.pop("esc", None)
	cfg.pop("strip", None)
	if g.p(0.75):
		cfg["exp"] = True
	sc["insts"].append(cfg)
	kind = model.KINDS[cfg["in"]]
	nk = g.r.randint(1, 3)
	if kind == "named":
		keys = g.r.sample(["a", "b", "name"], nk)
	elif kind == "numeric":
		keys = list(range(1, nk + 1))
	else:
		keys = list(range(nk))
	seqp = kind != "named" and g.p(0.7)
	sc["live"] = {"c": g.pick(["list", "simseq"]) if seqp else g.pick(["dict", "simmap"]) if kind == "named" else "dict",
		"keys": keys, "init": [g.of_shape(g.shape(True)) for _ in keys]}
	n = None
	if g.p(0.35):
		# Everything ever there has as many elements, tuple or not.
		n = g.pick([1, 2, 2, 3])
		sc["live"]["init"] = [g.tup(n) for _ in keys]
	same = n
	marks = []
	for n in range(nk if kind == "ordinal" else g.r.randint(1, 5)):
		k = keys[n] if kind == "ordinal" else g.pick(keys)
		marks.append(k)
	sc["live"]["marks"] = marks
	for t in range(g.pick([1, 1, 2])):
		sc["threads"].append([{"id": g.next_id(), "k": "livefmt", "inst": 0, "many": g.p(0.75 if same else 0.35), "rep": g.r.randint(1, 2 if g.p(0.7) else 5)}
			for _ in range(g.r.randint(1, 2))])
	for t in range(g.pick([1, 1, 2])):
		ops = []
		for _ in range(g.r.randint(1, 6)):
			o = {"id": g.next_id(), "k": "liveset", "i": g.r.randrange(nk),
				"v": g.of_shape(g.pick([None, 0, 1, 2, 2, 3, 4])) if g.p(0.8) else g.lookalike(g.pick([0, 1, 2, 2, 3]))}
			if same:
				o["v"] = g.tup(same) if g.p(0.5) else g.lookalike(same)
			if g.p(0.35):
				o["how"] = g.pick(["move", "move", "gap", "swap", "tail"])
				if o["how"] == "swap":
					o["j"] = g.r.randrange(nk)
			ops.append(o)
		sc["threads"].append(ops)
	s = sc["sched"]
	if sc["live"]["c"] in ("simmap", "simseq") and g.p(0.6):
		# Every access to the container is a place to update it.
		sc["trace"] = False
		s.update(pol="cb", cbp=g.pick([0.3, 0.6, 0.9]))
		return sc
	if s["pol"] == "cb":
		s.update(pol="gap", mean=40)
	if s["pol"] == "gap":
		s["mean"] = g.pick([5, 20, 60, 100, 200])
	return sc


def gen_C12(seed):
	"""A deterministic batch, replayed by differently configured interpreters."""
	g = G(seed)
	sc = base("C12", seed, g)
	if g.p(0.003):
		return soak(g, sc, g.pick([400, 1500]))
	sc["trace"] = False
	sc["sched"] = {"seed": seed, "pol": "cb", "cbp": 0.3}
	shared_threads(g, sc, g.pick([1, 1, 2]), g.pick([2, 4]), g.pick([1, 2]))
	for ops in sc["threads"]:
		for n, o in enumerate(ops):
			if g.p(0.1):
				ops[n] = g.break_op(sc["insts"][o["inst"]], o)
			elif g.p(0.2):
				for p in o["rows"].get("rows", ()) if o["k"] == "many" else [o["params"]]:
					g.ambiguous(sc["insts"][o["inst"]], p)
	return sc


def gen_C21(seed):
	"""Converters copied, pickled and forked at any moment."""
	g = G(seed)
	g.secrets = True
	sc = base("C21", seed, g)
	sc["trace"] = g.p(0.6)
	if not sc["trace"]:
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": g.pick([0.3, 0.8])}
	T = g.pick([1, 2, 2, 3])
	pools = shared_threads(g, sc, T, g.pick([1, 2, 3]), g.pick([1, 1, 2]))
	for ops in sc["threads"]:
		for n, o in enumerate(ops):
			u = g.r.random()
			if u < 0.1:
				ops[n] = g.break_op(sc["insts"][o["inst"]], o)
			elif u < 0.3:
				o["faults"] = [g.fault(o, ("raise", "instr") if sc["trace"] else ("raise",))]
			elif u < 0.45:
				f = g.stall(o)
				if f:
					o["faults"] = [f]
	n = len(pools)
	for _ in range(g.r.randint(1, 3)):
		ops = g.pick(sc["threads"])
		src = g.r.randrange(len(sc["insts"]))
		cfg = dict(sc["insts"][src], late=True)
		to = len(sc["insts"])
		sc["insts"].append(cfg)
		pools.append(pools[src])
		at = g.r.randint(0, len(ops))
		new = [{"id": g.next_id(), "k": "clone", "inst": src, "to": to, "how": g.pick(["copy", "deepcopy", "pickle", "pickle"]),
			"proto": g.r.randint(0, 5)}]
		if new[0]["how"] == "pickle" and g.p(0.3):
			new[0]["elsewhere"] = True
		for _ in range(g.r.randint(1, 3)):
			if g.p(0.75):
				o = clone(g.pick(pools[src]))
				o["id"] = g.next_id()
				o["inst"] = to
			else:
				o = g.op(sc, to, cfg, g.sql(cfg))
			new.append(o)
		if g.p(0.25):
			new.insert(g.r.randint(1, len(new)), {"id": g.next_id(), "k": "drop", "inst": src})
		ops[at:at] = new
	if T > 1 and g.p(0.5):
		# Afterwards only this thread lives on, in the child process.
		ops = g.pick(sc["threads"])
		i = g.r.randrange(n)
		ops += [{"id": g.next_id(), "k": "fork"}]
		for _ in range(g.r.randint(1, 3)):
			o = clone(g.pick(pools[i]))
			o["id"] = g.next_id()
			ops.append(o)
		if g.p(0.3):
			sc["insts"].append(dict(g.cfg(), late=True))
			to = len(sc["insts"]) - 1
			ops += [{"id": g.next_id(), "k": "new", "inst": to}, g.op(sc, to, sc["insts"][to], g.sql(sc["insts"][to]))]
	return sc


def interrupt(g, most, cb=False):
	u = g.r.random()
	if cb and u < 0.4:
		return {"kind": "raise", "site": g.pick(["getitem", "any", "len"]), "n": g.r.randint(1, 3), "exc": g.pick(
			[x for x in g.EXCS if x != "GeneratorExit"])}
	return {"kind": "raise", "site": "instr", "n": g.r.randint(1, most), "exc": g.pick(g.ASYNC)}


def interrupted_import(g):
	if g.p(0.4):
		return {"kind": "raise", "site": "import", "n": g.r.randint(1, 13), "exc": g.pick(
			g.ASYNC + ["OSError", "ImportError", "SimFault", "RuntimeError"])}
	return interrupt(g, g.pick([600, 1100, 3200, 3200]))


def gen_C22(seed):
	"""Racing, interrupted and repeated imports and constructions."""
	g = G(seed)
	sc = base("C22", seed, g)
	boot = g.p(0.4)
	if boot:
		sc["boot"] = True
	if sc["sched"]["pol"] == "cb":
		sc["sched"].update(pol="gap", mean=g.pick([5, 30, 100, 300]))
	T = g.pick([1, 2, 2, 3, 4])
	proto = g.cfg()
	shared = []
	for t in range(T):
		ops = []
		if boot:
			for _ in range(g.pick([0, 0, 1, 2])):
				ops.append({"id": g.next_id(), "k": "boot", "faults": [interrupted_import(g)]})
			ops.append({"id": g.next_id(), "k": "boot"})
		for _ in range(g.pick([1, 1, 2])):
			i = len(sc["insts"])
			c = clone(proto) if g.p(0.6) else g.cfg()
			if g.p(0.4):
				k = g.pick(["in", "out", "esc", "exp", "strip", "quotes"])
				alt = g.cfg()
				c.pop(k, None)
				c.update({k: alt[k]} if k in alt else {})
			if isinstance(c.get("strip"), list) and g.p(0.4):
				c["stripc"] = True
			sc["insts"].append(dict(c, late=True))
			for _ in range(g.pick([0, 0, 1, 2])):
				ops.append({"id": g.next_id(), "k": "new", "inst": i, "faults": [interrupt(g, 420, c.get("stripc"))]})
			o = {"id": g.next_id(), "k": "new", "inst": i}
			if c.get("stripc") and g.p(0.5):
				o["faults"] = [{"kind": "stall", "site": "getitem", "n": g.r.randint(1, 2), "dt": 1.0}]
			ops.append(o)
			text = g.sql(c)
			for _ in range(g.pick([1, 2, 3])):
				ops.append(g.op(sc, i, c, text if g.p(0.7) else g.sql(c)))
			if g.p(0.2):
				ops.append({"id": g.next_id(), "k": "settings", "inst": i})
		sc["threads"].append(ops)
	return sc


def gen_C23(seed):
	"""Any of the other kinds of history; what is watched is the process around it."""
	r = random.Random(seed ^ 0x7F4A7C15)
	inner = r.choice(["C02", "C03", "C04", "C04", "C05", "C05", "C06", "C21", "C22", "C22"])
	sc = GENERATORS[inner](seed)
	sc["prop"] = "C23"
	return sc


GENERATORS = {k[4:]: v for k, v in list(globals().items()) if k.startswith("gen_C")}


def values_in(o):
	"""How many values a call moves (and with it, how long it takes)."""
	if o["k"] not in ("format", "many"):
		return 0
	n = sum(map((o["sql"] or "").count, ":$@%?"))
	for p in o["rows"].get("rows", ()) if o["k"] == "many" else [o["params"]]:
		for v in [v for _, v in p["items"]] if "items" in p else p.get("vals", ()):
			n += len(v[1]) if v[0] in ("t", "T") else 1
		n += 2
	return n + sum(values_in(f["op"]) for f in o.get("faults", ()) if f.get("op"))


def lighten(sc):
	"""Runs too long to follow instruction by instruction switch at callbacks only."""
	if sum(values_in(o) for ops in sc["threads"] for o in ops) < 3000:
		return
	sc["trace"] = False
	sc["sched"] = {"seed": sc["sched"]["seed"], "pol": "cb", "cbp": 0.3}
	for ops in sc["threads"]:
		for o in ops:
			if "faults" in o and o["k"] in ("format", "many"):
				o["faults"] = [f for f in o["faults"] if f.get("site") != "instr"]


def renumber(o, ids):
	o["id"] = ids[0] = ids[0] + 1
	for f in o.get("faults", ()):
		if f.get("op"):
			renumber(f["op"], ids)


def hot(sc, r, most):
	"""The same few calls over and over, in any order."""
	ids = [20000000]
	for ops in sc["threads"]:
		calls = [o for o in ops if o["k"] in ("format", "many")]
		if not calls:
			continue
		n = r.choice([20, 70, 140, 300])
		big = sum(len(repr(o)) for o in calls) / len(calls)
		n = int(min(n, most, 300000 / big))
		more = []
		clean = r.random() < 0.5
		while len(more) < n:
			one = r.choice(calls[:4])
			for _ in range(r.choice([1, 1, 1, 3, 9, 20, 40, 150])):
				o = clone(one)
				if clean or r.random() < 0.7:
					o.pop("faults", None)
					o.pop("stack", None)
				renumber(o, ids)
				more.append(o)
		at = max(i for i, o in enumerate(ops) if o is calls[-1])
		ops[at:at] = more[:n]


def heat(prop, seed):
	"""
	One query used so often that a program might begin to treat it specially,
	with now and then other shapes of parameters.
	"""
	g = G(seed)
	sc = base(prop, seed, g)
	sc["trace"] = False
	sc["sched"] = {"seed": seed, "pol": "cb", "cbp": g.pick([0.0, 0.1])}
	cfg = g.cfg()
	sc["insts"].append(cfg)
	for _ in range(g.pick([1, 1, 2])):
		text = g.sql(cfg, g.r.randint(1, 4))
		many = g.pick([True, False, None])
		usual = g.layout(cfg, text)
		if g.p(0.7):
			usual["shapes"] = dict.fromkeys(usual["shapes"], g.pick([None, None, 2, 0]))
		old = [g.op(sc, 0, cfg, text, many=many, lay=usual)]
		other = [g.op(sc, 0, cfg, text, many=many) for _ in range(5)]
		ops = []
		for _ in range(g.pick([1, 2, 2, 3])):
			for _ in range(g.pick([5, 12, 20, 40, 70, 130])):
				ops.append(g.pick(old))
			for _ in range(g.r.randint(1, 4)):
				ops.append(g.pick(other))
		ids = [10000 * (1 + len(sc["threads"]))]
		ops = [clone(o) for o in ops[:60 if prop == "C08" else 300]]
		for o in ops:
			renumber(o, ids)
			if prop in ("C04", "C05", "C09") and g.p(0.05) and g.cb_sites(o):
				o["faults"] = [g.fault(o, ("raise",))]
			elif prop == "C08" and g.p(0.3):
				o["scribble"] = g.pick(["clear", "append", "fill", "rows"])
		if prop == "C09":
			ops.append({"id": ids[0] + 1, "k": "retcheck"})
		sc["threads"].append(ops)
	return sc


def storm(seed):
	"""
	One call that fails in one way, again and again, as long as it takes to use
	up whatever the failures use up; then the same call unharmed.
	"""
	g = G(seed)
	sc = base("C04", seed, g)
	sc["trace"] = g.p(0.3)
	if not sc["trace"]:
		sc["sched"] = {"seed": seed, "pol": "cb", "cbp": g.pick([0.0, 0.1])}
	cfg = g.cfg()
	sc["insts"].append(cfg)
	named = model.KINDS[cfg["in"]] == "named"
	text = g.sql(cfg, g.r.randint(1, 2 if sc["trace"] else 3))
	o = g.op(sc, 0, cfg, text, many=g.p(0.6), nrows=g.r.randint(1, 3), cont="simmap" if named else g.pick(["simmap", "simseq"]),
		srcs=["gen", "map", "stream", "source", "cursor"])
	how = g.pick(["raise", "raise", "raise", "broken", "instr"] if sc["trace"] else ["raise", "raise", "raise", "raise", "broken"])
	bad = g.break_op(cfg, o) if how == "broken" else clone(o)
	f = None
	if how == "raise":
		f = g.fault(bad, ("raise",))
		f["n"] = g.pick([1, 1, 2])
		if g.p(0.6):
			f["exc"] = g.pick(g.ASYNC)
	exc = g.pick(g.ASYNC)
	ids = [10000]
	ops = []
	for i in range(g.pick([20, 40, 70]) if sc["trace"] else g.pick([20, 40, 70, 110, 140, 270])):
		x = clone(bad)
		renumber(x, ids)
		if how == "instr":
			x["faults"] = [{"kind": "raise", "site": "instr", "n": g.r.randint(1, g.est_events(o)), "exc": exc}]
		elif f:
			x["faults"] = [dict(f)]
		ops.append(x)
	for x in (o, o, g.op(sc, 0, cfg, g.sql(cfg))):
		x = clone(x)
		renumber(x, ids)
		ops.append(x)
	sc["threads"].append(ops)
	x = clone(o)
	renumber(x, [20000])
	sc["threads"].append([x])
	return sc


HEAT = ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C21")


def generate(prop, seed):
	if prop in HEAT and random.Random(seed ^ 0x1D872B41).random() < 0.006:
		return heat(prop, seed)
	if prop == "C04" and random.Random(seed ^ 0x51ED270B).random() < 0.012:
		sc = storm(seed)
		sc["main"] = (seed >> 9) % 5 < 2
		return sc
	sc = GENERATORS[prop](seed)
	r = random.Random(seed ^ 0x2545F491)
	sc["main"] = (seed >> 9) % 5 < 2
	if sc["trace"] and prop not in ("C11", "C22", "C23"):
		lighten(sc)
	if not sc["trace"] and sum(map(len, sc["threads"])) < 40 and r.random() < 0.05 and prop not in ("C02", "C11", "C22", "C23"):
		hot(sc, r, 60 if prop == "C08" else 300)
	if r.random() < 0.2:
		# Between calls the clocks go on, and the wall clock is sometimes set.
		for ops in sc["threads"]:
			for o in ops[:50]:
				if r.random() < 0.4:
					o["idle"] = [r.choice([0, 0.5, 30, 301, 3700, 90000, 4e6]), r.choice([0, 0, 0, -5, 3600, -90000, -1.5e9])]
	return sc
