"""
Executable reference model of sqlparams, written from its documentation.

It shares nothing with the implementation: no regular expressions, no
per-style classes, one left-to-right scanner and one row converter.  It is the
sequential specification every simulated call is compared with: one call, alone,
on a converter nobody else has ever used.

Plain parameters are given to the model as ``("map", [(key, value), ...])``,
``("seq", [value, ...])`` or ``("bad", obj)`` (neither mapping nor sequence).
"""


class ModelError(Exception):
	"""The call must fail; *classes* are the acceptable exception classes."""

	def __init__(self, *classes):
		super().__init__(classes)
		self.classes = classes


# style -> (kind, marker character)
STYLES = {
	"format": ("ordinal", "%"),
	"qmark": ("ordinal", "?"),
	"named": ("named", ":"),
	"named_dollar": ("named", "$"),
	"named_oracle": ("named", ":"),
	"named_sqlserver": ("named", "@"),
	"pyformat": ("named", "%"),
	"numeric": ("numeric", ":"),
	"numeric_dollar": ("numeric", "$"),
}
KINDS = {k: v[0] for k, v in STYLES.items()}
DEFAULT_COMMENTS = [["/*", "*/"], "--"]


def render(style, name):
	"""One out-style placeholder."""
	kind, mark = STYLES[style]
	if style == "format":
		return "%s"
	if style == "qmark":
		return "?"
	if style == "pyformat":
		return "%(" + name + ")s"
	return mark + str(name)


def _ident_end(s, i):
	"""End of the identifier that starts at *i*, or *i* if there is none."""
	if i < len(s) and (s[i] == "_" or "a" <= s[i] <= "z" or "A" <= s[i] <= "Z"):
		j = i + 1
		while j < len(s) and (s[j] == "_" or s[j].isalnum()):
			j += 1
		return j
	return i


def _match_param(style, s, i):
	"""``(end, name, quoted)`` of the in-style parameter at *i*, or ``None``."""
	kind, mark = STYLES[style]
	if s[i] != mark or (i > 0 and s[i - 1] == mark):
		return None
	if style == "qmark":
		return None if s[i + 1:i + 2] == "?" else (i + 1, None, False)
	if style == "format":
		return (i + 2, None, False) if s[i + 1:i + 2] == "s" else None
	if style == "pyformat":
		if s[i + 1:i + 2] != "(":
			return None
		j = _ident_end(s, i + 2)
		if j == i + 2 or s[j:j + 2] != ")s":
			return None
		return (j + 2, s[i + 2:j], False)
	if kind == "numeric":
		j = i + 1
		while j < len(s) and s[j].isdecimal():
			j += 1
		return (j, s[i + 1:j], False) if j > i + 1 else None
	if style == "named_oracle" and s[i + 1:i + 2] == '"':
		j = _ident_end(s, i + 2)
		if j > i + 2 and s[j:j + 1] == '"':
			return (j + 1, s[i + 2:j], True)
		return None
	j = _ident_end(s, i + 1)
	return (j, s[i + 1:j], False) if j > i + 1 else None


def scan(cfg, s):
	"""Split SQL text into ``("lit", text)`` and ``("par", name, quoted)``."""
	style = cfg["in"]
	mark = STYLES[style][1]
	double = mark != "%" and STYLES[cfg["out"]][1] == "%"
	esc = cfg.get("esc")
	if esc is True:
		esc = mark
	toks = []
	i = 0
	while i < len(s):
		if double and s[i] == "%":
			toks.append(("lit", "%%"))
			i += 1
		elif esc and s.startswith(esc + mark, i):
			toks.append(("lit", mark))
			i += len(esc) + 1
		else:
			m = _match_param(style, s, i)
			if m:
				toks.append(("par", m[1], m[2]))
				i = m[0]
			else:
				toks.append(("lit", s[i]))
				i += 1
	return toks


def strip(cfg, s):
	styles = cfg.get("strip")
	if styles is True:
		styles = DEFAULT_COMMENTS
	for st in styles or ():
		out = []
		pos = 0  # copied up to here
		line = 0  # a position where a line starts
		while True:
			end = None
			q = line
			while q < len(s) and s[q] in " \t":
				q += 1
			if isinstance(st, str):
				if s.startswith(st, q):
					nl = s.find("\n", q + len(st))
					end = len(s) if nl < 0 else nl + 1
			elif s.startswith(st[0], q):
				e = s.find(st[1], q + len(st[0]))
				if e >= 0:
					end = e + len(st[1])
					if s[end:end + 1] == "\n":
						end += 1
					elif s[end:end + 2] == "\r\n":
						end += 2
			if end is not None:
				out.append(s[pos:line])
				pos = end
				if end and s[end - 1:end] == "\n":
					line = end
					if line >= len(s):
						break
					continue
				nl = s.find("\n", end)
			else:
				nl = s.find("\n", line)
			if nl < 0 or nl + 1 >= len(s):
				break
			line = nl + 1
		out.append(s[pos:])
		s = "".join(out)
	return s


def _unquote(key):
	if not isinstance(key, str) or key in ('"', '') or (key[0] == '"') != (key[-1] == '"'):
		return None  # no parameter's name
	if len(key) > 1 and key[0] == '"' and key[-1] == '"':
		return key[1:-1]
	return key.upper()


class _Row:
	"""Parameter lookup in one row."""

	def __init__(self, cfg, plain):
		self.kind = KINDS[cfg["in"]]
		self.tag, self.data = plain
		self.oracle = cfg["in"] == "named_oracle"
		if self.tag == "bad" or (self.kind == "named" and self.tag != "map"):
			raise ModelError(TypeError)
		if self.tag == "map" and self.kind != "named":
			base = 1 if self.kind == "numeric" else 0
			norm = {}
			for k, v in self.data:
				if isinstance(k, int) or (isinstance(k, (str, bytes)) and k.isdigit()):
					norm[int(k) - base] = v
			self.data = norm

	def find(self, key, quoted):
		"""``(handle, value)`` for an in-parameter named in the SQL."""
		if self.kind == "named":
			for k, v in self.data:
				if (_unquote(k) == key) if self.oracle else (k == key):
					return k, v
			raise ModelError(KeyError)
		return key, self.get(key)

	def get(self, handle):
		if self.kind == "named":
			for k, v in self.data:
				if k == handle:
					return v
			raise ModelError(KeyError)
		if self.tag == "map":
			if handle in self.data:
				return self.data[handle]
			raise ModelError(LookupError)
		if 0 <= handle < len(self.data):
			return self.data[handle]
		raise ModelError(LookupError)


def convert(cfg, sql, rows, many):
	"""
	What ``format`` (*many* false, one row) or ``formatmany`` must return:
	``(sql, params)`` or ``(sql, [params, ...])``; raises ModelError.
	"""
	if not isinstance(sql, (str, bytes)):
		raise ModelError(TypeError)
	text = sql.decode("latin1") if isinstance(sql, bytes) else sql
	text = strip(cfg, text)
	if not rows:
		raise ModelError(ValueError)  # formatmany() of an empty source
	in_kind = KINDS[cfg["in"]]
	out_kind = KINDS[cfg["out"]]
	expand = cfg.get("exp")
	if expand is None:
		expand = out_kind != "named"
	quote = cfg["out"] == "named_oracle" and bool(cfg.get("quotes"))
	first = _Row(cfg, rows[0])
	out = []
	plan = []  # (handle, None | count, [slot, ...]) in order of appearance
	nums = {}
	nslots = 0
	ordinal = 0
	for tok in scan(cfg, text):
		if tok[0] == "lit":
			out.append(tok[1])
			continue
		if in_kind == "named":
			key = tok[1].upper() if (cfg["in"] == "named_oracle" and not tok[2]) else tok[1]
			label = key
		elif in_kind == "numeric":
			key = int(tok[1]) - 1
			label = "_" + tok[1]
		else:
			key = ordinal
			label = "_%d" % ordinal
			ordinal += 1
		handle, value = first.find(key, tok[2])
		count = len(value) if (expand and isinstance(value, tuple)) else None
		slots = []
		for i in range(1 if count is None else count):
			if out_kind == "named":
				if count is None:
					slot = label
				elif in_kind == "named":
					slot = "%s__%d_sqlp" % (label, i)
				else:
					slot = "%s_%d" % (label, i)
				if quote:
					slot = '"' + slot + '"'
			elif out_kind == "ordinal":
				slot = nslots
				nslots += 1
			else:
				ident = (key, None if count is None else i)
				if in_kind != "ordinal" and ident in nums:
					slot = nums[ident]
				else:
					slot = nslots
					nslots += 1
					nums[ident] = slot
			slots.append(slot)
		texts = [render(cfg["out"], s + 1 if out_kind == "numeric" else s) for s in slots]
		if count is None:
			out.append(texts[0])
		elif count == 0:
			out.append("(NULL)")
		else:
			out.append("(" + ",".join(texts) + ")")
		plan.append((handle, count, slots))
	results = []
	for n, plain in enumerate(rows):
		row = first if n == 0 else _Row(cfg, plain)
		bind = {}
		wrong = []  # of several things wrong with a row, any may be reported
		for handle, count, slots in plan:
			try:
				value = row.get(handle)
			except ModelError as e:
				wrong += e.classes
				continue
			if count is None:
				bind[slots[0]] = value
			elif not isinstance(value, tuple):
				wrong.append(TypeError)
			elif len(value) != count:
				wrong.append(ValueError)
			else:
				for s, v in zip(slots, value):
					bind[s] = v
		if wrong:
			raise ModelError(*wrong)
		results.append(bind if out_kind == "named" else [bind[i] for i in range(nslots)])
	text = "".join(out)
	try:
		out_sql = text.encode("latin1") if isinstance(sql, bytes) else text
	except UnicodeError:  # an upper-cased name may leave the encoding
		raise ModelError(UnicodeError) from None
	return out_sql, (results if many else results[0])


def params_needed(cfg, text):
	"""The in-parameters of the (comment-stripped) text, in order."""
	return [(t[1], t[2]) for t in scan(cfg, strip(cfg, text)) if t[0] == "par"]


def parse_out(style, text):
	"""Placeholders of an out-style text made only of unambiguous literals."""
	return [(t[1], t[2]) for t in scan({"in": style, "out": style}, text) if t[0] == "par"]
