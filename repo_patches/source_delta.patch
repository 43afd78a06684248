From 306b3b00e97eb2b33b7cfd0dda5525e43b87689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 1/7] fix: convert a query without out-parameters to a numeric
 style

Converting to "numeric" or "numeric_dollar" a query that has no parameters,
or only empty tuples, raised IndexError instead of returning an empty list.
---
 sqlparams/_converting.py | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1a79717..4a01eff 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -478,8 +478,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -532,8 +531,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_name, out_index in param_conversions:
@@ -1258,8 +1256,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -1317,8 +1314,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2027,8 +2023,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -2086,8 +2081,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2400,6 +2394,26 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 				return out_format
 
 
+def _get_row_size(
+	param_conversions: List[Tuple[bool, Union[int, str], Union[int, List[int]]]],
+) -> int:
+	"""
+	Get the number of numeric out-parameters.
+
+	*param_conversions* (:class:`list`) contains each parameter conversion to
+	perform (:class:`tuple`). It is empty when the query has no parameters (or
+	only empty tuples).
+
+	Returns the number of out-parameters (:class:`int`).
+	"""
+	size = 0
+	for expand_tuple, _in_param, out_index in param_conversions:
+		last_index = max(out_index, default=-1) if expand_tuple else out_index
+		size = max(size, last_index + 1)
+
+	return size
+
+
 def _quote_oracle_param(param: str) -> str:
 	"""
 	Quote the Oracle parameter.
-- 
2.43.0


From 44e7dd23b791dbd8372bbe8c0d633a06bc444cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 2/7] fix: formatmany() dropped tuples in the place of a first,
 empty tuple

An empty tuple in the first set of parameters is expanded to (NULL) in the
query, but was not recorded, so a tuple in a later set was not checked against
it and its values were silently dropped.
---
 sqlparams/_converting.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 4a01eff..200a4c2 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -338,6 +338,7 @@ class NamedToNamedConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -599,6 +600,7 @@ class NamedToNumericConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -851,6 +853,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, 0))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -1111,6 +1114,7 @@ class NumericToNamedConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1371,6 +1375,7 @@ class NumericToNumericConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1626,6 +1631,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1877,6 +1883,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2139,6 +2146,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2382,6 +2390,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2401,8 +2410,7 @@ def _get_row_size(
 	Get the number of numeric out-parameters.
 
 	*param_conversions* (:class:`list`) contains each parameter conversion to
-	perform (:class:`tuple`). It is empty when the query has no parameters (or
-	only empty tuples).
+	perform (:class:`tuple`). It is empty when the query has no parameters.
 
 	Returns the number of out-parameters (:class:`int`).
 	"""
-- 
2.43.0


From 79b047e54021cbbe1975f5e7d87c6372a228b65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:45 +0000
Subject: [PATCH 3/7] fix: formatmany() leaked StopIteration for an empty
 iterable

A StopIteration that escapes ends the caller's generator silently (or turns
into a RuntimeError); report the empty iterable with a ValueError.
---
 sqlparams/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 4281063..46201a4 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -4,6 +4,7 @@ parameter styles.
 """
 from __future__ import annotations
 
+import itertools
 import re
 from typing import (
 	Any,
@@ -563,8 +564,15 @@ class SQLParams(object):
 		# Strip comments.
 		use_sql = self.__strip_comments_from_sql(use_sql)
 
+		# Make sure there is a first set of parameters to sample.
+		iter_params = iter(many_params)
+		try:
+			first_params = next(iter_params)
+		except StopIteration:
+			raise ValueError("many_params is empty.") from None
+
 		# Replace in-style with out-style parameters.
-		use_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)
+		use_sql, many_out_params = self.__converter.convert_many(use_sql, itertools.chain((first_params,), iter_params))
 
 		# Make sure the query is returned as the proper string type.
 		if string_type is bytes:
-- 
2.43.0


From 39aee5b826aad2b6988a8e124b2c4ac4cfa48d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 4/7] fix: format() returned torn results when the parameters
 change meanwhile

Each parameter is looked up once for the query and once for the out-parameters.
A tuple that was replaced in between (by another thread, or by the mapping
itself) gave a query that did not fit its out-parameters. Check it like
formatmany() does.
---
 sqlparams/_converting.py | 62 +++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 200a4c2..fb5e82e 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -279,7 +279,8 @@ class NamedToNamedConverter(NamedConverter):
 			if expand_tuple:
 				# Tuple conversion.
 				out_names = out_name
-				for sub_name, sub_value in zip(out_names, in_params[in_name]):
+				values = _check_tuple(in_params[in_name], len(out_names), in_name)
+				for sub_name, sub_value in zip(out_names, values):
 					out_params[sub_name] = sub_value
 
 			else:
@@ -539,7 +540,8 @@ class NamedToNumericConverter(NamedConverter):
 			if expand_tuple:
 				# Tuple conversion.
 				out_indices = out_index
-				for sub_index, sub_value in zip(out_indices, in_params[in_name]):
+				values = _check_tuple(in_params[in_name], len(out_indices), in_name)
+				for sub_index, sub_value in zip(out_indices, values):
 					out_params[sub_index] = sub_value
 
 			else:
@@ -604,7 +606,7 @@ class NamedToNumericConverter(NamedConverter):
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
-				is_new = True
+				is_new = False
 				out_indices = []
 				out_replacements = []
 				for i, sub_value in enumerate(value):
@@ -613,8 +615,8 @@ class NamedToNumericConverter(NamedConverter):
 					out_result = out_lookup.get(out_key)
 					if out_result is not None:
 						out_index, out_repl = out_result
-						is_new = False
 					else:
+						is_new = True
 						out_index = next(out_counter)
 						out_num = out_index + self.__out_start
 						out_repl = self._out_format.format(param=out_num)
@@ -788,10 +790,11 @@ class NamedToOrdinalConverter(NamedConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		out_params: List[Any] = []
-		for expand_tuple, in_name, _out_count in param_conversions:
+		for expand_tuple, in_name, out_count in param_conversions:
 			if expand_tuple:
 				# Tuple conversion.
-				for sub_value in in_params[in_name]:
+				values = _check_tuple(in_params[in_name], out_count, in_name)
+				for sub_value in values:
 					out_params.append(sub_value)
 
 			else:
@@ -1065,7 +1068,8 @@ class NumericToNamedConverter(NumericConverter):
 			if expand_tuple:
 				# Tuple conversion.
 				out_names = out_name
-				for sub_name, sub_value in zip(out_names, in_params[in_index]):
+				values = _check_tuple(in_params[in_index], len(out_names), in_index)
+				for sub_name, sub_value in zip(out_names, values):
 					out_params[sub_name] = sub_value
 
 			else:
@@ -1325,7 +1329,8 @@ class NumericToNumericConverter(NumericConverter):
 			if expand_tuple:
 				# Tuple conversion.
 				out_indices = out_index
-				for sub_index, sub_value in zip(out_indices, in_params[in_index]):
+				values = _check_tuple(in_params[in_index], len(out_indices), in_index)
+				for sub_index, sub_value in zip(out_indices, values):
 					out_params[sub_index] = sub_value
 
 			else:
@@ -1379,7 +1384,7 @@ class NumericToNumericConverter(NumericConverter):
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
-				is_new = True
+				is_new = False
 				out_indices = []
 				out_replacements = []
 				for i, sub_value in enumerate(value):
@@ -1388,8 +1393,8 @@ class NumericToNumericConverter(NumericConverter):
 					out_result = out_lookup.get(out_key)
 					if out_result is not None:
 						out_index, out_repl = out_result
-						is_new = False
 					else:
+						is_new = True
 						out_index = next(out_counter)
 						out_num = out_index + self.__out_start
 						out_repl = self._out_format.format(param=out_num)
@@ -1577,10 +1582,11 @@ class NumericToOrdinalConverter(NumericConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		out_params: List[Any] = []
-		for expand_tuple, in_index, _out_count in param_conversions:
+		for expand_tuple, in_index, out_count in param_conversions:
 			if expand_tuple:
 				# Tuple conversion.
-				for sub_value in in_params[in_index]:
+				values = _check_tuple(in_params[in_index], out_count, in_index)
+				for sub_value in values:
 					out_params.append(sub_value)
 
 			else:
@@ -1831,7 +1837,8 @@ class OrdinalToNamedConverter(OrdinalConverter):
 			if expand_tuple:
 				# Tuple conversion.
 				out_names = out_name
-				for sub_name, sub_value in zip(out_names, in_params[in_index]):
+				values = _check_tuple(in_params[in_index], len(out_names), in_index)
+				for sub_name, sub_value in zip(out_names, values):
 					out_params[sub_name] = sub_value
 
 			else:
@@ -2095,7 +2102,8 @@ class OrdinalToNumericConverter(OrdinalConverter):
 			if expand_tuple:
 				# Tuple conversion.
 				out_indices = out_index
-				for sub_index, sub_value in zip(out_indices, in_params[in_index]):
+				values = _check_tuple(in_params[in_index], len(out_indices), in_index)
+				for sub_index, sub_value in zip(out_indices, values):
 					out_params[sub_index] = sub_value
 
 			else:
@@ -2332,10 +2340,11 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		out_params: List[Any] = []
-		for expand_tuple, in_index, _out_count in param_conversions:
+		for expand_tuple, in_index, out_count in param_conversions:
 			if expand_tuple:
 				# Tuple conversion.
-				for sub_value in in_params[in_index]:
+				values = _check_tuple(in_params[in_index], out_count, in_index)
+				for sub_value in values:
 					out_params.append(sub_value)
 
 			else:
@@ -2403,6 +2412,27 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 				return out_format
 
 
+def _check_tuple(value: Any, count: int, in_param: Union[int, str]) -> Tuple[Any, ...]:
+	"""
+	Check that the parameter value still is the tuple the SQL query was expanded
+	for. The parameters can be changed by another thread while they are converted.
+
+	*value* is the parameter value.
+
+	*count* (:class:`int`) is the expected length of the tuple.
+
+	*in_param* (:class:`int` or :class:`str`) is the in-index or in-name.
+
+	Returns the value (:class:`tuple`).
+	"""
+	if not isinstance(value, tuple):
+		raise TypeError(f"params[{in_param!r}]={value!r} was expected to be a tuple.")
+	elif len(value) != count:
+		raise ValueError(f"params[{in_param!r}]={value!r} length was expected to be {count}.")
+
+	return value
+
+
 def _get_row_size(
 	param_conversions: List[Tuple[bool, Union[int, str], Union[int, List[int]]]],
 ) -> int:
-- 
2.43.0


From 7fff034c833592b5eeae748b1c036931440894e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 5/7] fix: numeric parameter zero was bound to the end of the
 sequence

Numeric parameters start at 1. The ":00" in a literal such as '12:00' was
taken as the parameter at index -1 and silently bound to the last element.
---
 sqlparams/_converting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index fb5e82e..03a748c 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -1113,6 +1113,9 @@ class NumericToNamedConverter(NumericConverter):
 			# Numeric parameter matched, return named out-style parameter.
 			in_num_str = result['param']
 			in_index = int(in_num_str) - self._in_start
+			if in_index < 0 and is_sequence(in_params):
+				# Do not let it wrap around to the end of the sequence.
+				raise IndexError(f"Numeric parameters start at {self._in_start}: {match.group()!r}.")
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
@@ -1375,6 +1378,9 @@ class NumericToNumericConverter(NumericConverter):
 		else:
 			# Numeric parameter matched, return numeric out-style parameter.
 			in_index = int(result['param']) - self._in_start
+			if in_index < 0 and is_sequence(in_params):
+				# Do not let it wrap around to the end of the sequence.
+				raise IndexError(f"Numeric parameters start at {self._in_start}: {match.group()!r}.")
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
@@ -1632,6 +1638,9 @@ class NumericToOrdinalConverter(NumericConverter):
 		else:
 			# Numeric parameter matched, return ordinal out-style parameter.
 			in_index = int(result['param']) - self._in_start
+			if in_index < 0 and is_sequence(in_params):
+				# Do not let it wrap around to the end of the sequence.
+				raise IndexError(f"Numeric parameters start at {self._in_start}: {match.group()!r}.")
 
 			value = in_params[in_index]
 			if self._expand_tuples and isinstance(value, tuple):
-- 
2.43.0


From ef9e2729dd4b2c28984136f0c5c57354508216ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:02 +0000
Subject: [PATCH 6/7] fix: reject a sequence row for numeric parameter zero in
 formatmany()

When the first row is a mapping, a query may use number zero. A later row that
is a sequence then bound its last item (index -1) instead of failing.
---
 sqlparams/_converting.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 03a748c..fa5dc86 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -1008,12 +1008,18 @@ class NumericToNamedConverter(NumericConverter):
 
 		Returns the many out-style parameters (:class:`list` of :class:`dict`).
 		"""
+		# Get lowest index.
+		min_index = min((conversion[1] for conversion in param_conversions), default=0)
+
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
 			# NOTE: First set has already been checked.
 			if i:
 				if is_sequence(in_params):
-					pass
+					if min_index < 0:
+						# Do not let it wrap around to the end of the sequence.
+						raise IndexError(f"Numeric parameters start at {self._in_start}: many_params[{i}] is a sequence.")
+
 				elif isinstance(in_params, Mapping):
 					in_params = self._mapping_as_sequence(in_params)  # noqa
 				else:
@@ -1269,12 +1275,18 @@ class NumericToNumericConverter(NumericConverter):
 		# Get row size.
 		size = _get_row_size(param_conversions)
 
+		# Get lowest index.
+		min_index = min((conversion[1] for conversion in param_conversions), default=0)
+
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
 			# NOTE: First set has already been checked.
 			if i:
 				if is_sequence(in_params):
-					pass
+					if min_index < 0:
+						# Do not let it wrap around to the end of the sequence.
+						raise IndexError(f"Numeric parameters start at {self._in_start}: many_params[{i}] is a sequence.")
+
 				elif isinstance(in_params, Mapping):
 					in_params = self._mapping_as_sequence(in_params)  # noqa
 				else:
@@ -1533,12 +1545,18 @@ class NumericToOrdinalConverter(NumericConverter):
 
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
+		# Get lowest index.
+		min_index = min((conversion[1] for conversion in param_conversions), default=0)
+
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
 			# NOTE: First set has already been checked.
 			if i:
 				if is_sequence(in_params):
-					pass
+					if min_index < 0:
+						# Do not let it wrap around to the end of the sequence.
+						raise IndexError(f"Numeric parameters start at {self._in_start}: many_params[{i}] is a sequence.")
+
 				elif isinstance(in_params, Mapping):
 					in_params = self._mapping_as_sequence(in_params)  # noqa
 				else:
-- 
2.43.0


From b8a2ddd03c9b54c5980d0e6b12fc4a6d0c69d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:09 +0000
Subject: [PATCH 7/7] fix: ignore malformed parameter names wherever they are
 in a named_oracle mapping

---
 sqlparams/_converting.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index fa5dc86..b87d76b 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -2491,16 +2491,20 @@ def _quote_oracle_param(param: str) -> str:
 	return f'"{out_name}"'
 
 
-def _unquote_oracle_param(param: str) -> str:
+def _unquote_oracle_param(param: str) -> Optional[str]:
 	"""
 	Unquote the Oracle parameter.
 
 	*param* (:class:`str`) is the in-parameter.
 
-	Returns the unquoted parameter (:class:`str`).
+	Returns the unquoted parameter (:class:`str`) or ``None`` if *param* is not a
+	valid name (e.g., it is not a string or it has only one quote). No parameter
+	in the SQL query matches it then, wherever it is among the parameters.
 	"""
-	if len(param) > 1 and param[0] == param[-1] == '"':
+	if not isinstance(param, str):
+		return None
+	elif len(param) > 1 and param[0] == param[-1] == '"':
 		return param[1:-1]
 	elif len(param) > 0 and (param[0] == '"' or param[-1] == '"'):
-		raise KeyError(param)
+		return None
 	return param.upper()
-- 
2.43.0

