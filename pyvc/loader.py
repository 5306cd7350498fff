"""Mechanical extraction: parses the repository's modules on every run. Nothing is copied by hand.

Dropped by the extraction (stated in every evidence file): docstrings, logging calls (logger.*), warnings.warn calls
(including evaluation of their arguments), text of formatted strings, type annotations.
"""
import ast
import os

SRC = os.environ.get('GS_SRC', '/repo/src/graph_scheduler')


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.defs = {}
        for st in self.tree.body:
            self._bind(st)
        self.cache = {}

    def _bind(self, st):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            self.defs[st.name] = st
        elif isinstance(st, ast.Assign):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    self.defs[t.id] = st
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.defs[st.target.id] = st
        elif isinstance(st, ast.Import):
            for a in st.names:
                self.defs[a.asname or a.name.split('.')[0]] = ('import', a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                self.defs[a.asname or a.name] = ('from', st.module, a.name)
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._bind(s)


def load_all(src=None):
    src = src or SRC
    mods = {}
    for fn in sorted(os.listdir(src)):
        if fn.endswith('.py') and fn != '_version.py':
            name = 'graph_scheduler' if fn == '__init__.py' else 'graph_scheduler.' + fn[:-3]
            mods[name] = Module(name, os.path.join(src, fn))
    return mods
