"""
Loads a fresh instance of the package under test for every simulated run.

The sources are compiled once per process from /repo's current working tree (no
bytecode cache is read or written); each run re-executes the compiled modules in
new module objects, so no module-level state survives from one run to the next.
"""

import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
_cache = {}
on_import = None  # called before and after a module's code is run


class _Loader(importlib.abc.Loader):
	def __init__(self, path, pkg):
		self.path = path
		self.pkg = pkg

	def create_module(self, spec):
		return None

	def exec_module(self, module):
		if on_import is not None:
			on_import()
		exec(code_for(self.path), module.__dict__)
		if on_import is not None:
			on_import()


def code_for(path):
	c = _cache.get(path)
	if c is None:
		with open(path, "rb") as fh:
			src = fh.read()
		c = _cache[path] = compile(src, path, "exec", dont_inherit=True)
	return c


class _Finder(importlib.abc.MetaPathFinder):
	def find_spec(self, name, path=None, target=None):
		if name != "sqlparams" and not name.startswith("sqlparams."):
			return None
		base = os.path.join(REPO, *name.split("."))
		init = os.path.join(base, "__init__.py")
		if os.path.isfile(init):
			spec = importlib.machinery.ModuleSpec(name, _Loader(init, True), origin=init, is_package=True)
			spec.submodule_search_locations = [base]
		elif os.path.isfile(base + ".py"):
			spec = importlib.machinery.ModuleSpec(name, _Loader(base + ".py", False), origin=base + ".py")
		else:
			return None
		spec.has_location = True
		return spec


def install():
	sys.dont_write_bytecode = True
	if not any(isinstance(f, _Finder) for f in sys.meta_path):
		sys.meta_path.insert(0, _Finder())


def forget():
	for n in [n for n in sys.modules if n == "sqlparams" or n.startswith("sqlparams.")]:
		del sys.modules[n]


def modules():
	"""The package as it is loaded now."""
	return {n: m for n, m in sys.modules.items() if n == "sqlparams" or n.startswith("sqlparams.")}


def fresh():
	"""Import sqlparams anew and return the package module."""
	forget()
	import sqlparams
	return sqlparams


def compiled():
	"""Code objects of every module loaded so far."""
	return list(_cache.values())
