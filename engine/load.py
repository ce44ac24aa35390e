"""Loads /repo's current source under the instrumented environment.

Modules of `attitude` and `mplstereonet.stereonet_math` are compiled from the
files on disk, unmodified, and executed with (a) an `__import__` that maps
numpy / math / scipy.stats / scipy.linalg to the stand-ins of npx.py and (b)
`len`, `float`, `int`, `abs` that understand symbolic values.  Nothing is
dropped from the source.
"""
import importlib
import importlib.util
import os
import sys
import types

from . import npx
from .expr import E

REPO = os.environ.get('VERIF_REPO', '/repo')


_code = {}


class SymWorld(object):
    def __init__(self, standins=None):
        self.standins = standins or {}
        self.mods = {}
        self.files = {}
        self.builtins = dict(npx.BUILTINS)
        self.builtins['__import__'] = self._import
        import mplstereonet.stereonet_math as sm
        self._sm_file = sm.__file__

    # -- finding source ----------------------------------------------------------
    def _path(self, name):
        if name == 'mplstereonet.stereonet_math':
            return self._sm_file, False
        rel = name.replace('.', '/')
        for p, pkg in ((os.path.join(REPO, rel, '__init__.py'), True),
                       (os.path.join(REPO, rel + '.py'), False)):
            if os.path.exists(p):
                return p, pkg
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        if '.' in name and not name.startswith('mplstereonet'):
            parent = self.load(name.rpartition('.')[0])
        else:
            parent = None
        if name in self.mods:
            return self.mods[name]
        path, pkg = self._path(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        self.files[name] = path
        code = _code.get(path)
        if code is None:
            with open(path, 'rb') as f:
                code = _code[path] = compile(f.read(), path, 'exec', dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get('__package__') or ''
            parts = base.split('.')
            if level > 1:
                parts = parts[:-(level - 1)]
            full = '.'.join(parts + ([name] if name else []))
            if full.split('.')[0] not in ('attitude',):
                return __import__(name, globals, locals, fromlist, level)
        else:
            full = name
        root = full.split('.')[0]
        if level == 0 and full in self.standins:
            m = self.standins[full]
            if not fromlist and '.' in full:
                # `import a.b as c` looks b up in a
                px = m
                for part in full.split('.')[:0:-1]:
                    up = types.ModuleType(part)
                    setattr(up, part, px)
                    px = up
                return px
            return m
        if root == 'attitude':
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        p, _ = self._path(full + '.' + f)
                        if p is not None:
                            self.load(full + '.' + f)
                return m
            return m if level else self.load(root)
        if root == 'numpy' and level == 0:
            if full == 'numpy':
                return npx.NP
            if full == 'numpy.linalg':
                return npx.NP.linalg if fromlist else npx.NP
            if full == 'numpy.testing':
                return __import__(name, globals, locals, fromlist, level)
            return getattr(npx.NP, full.split('.')[1]) if fromlist else npx.NP
        if full == 'math':
            return npx.MATH
        if full == 'scipy.stats' and fromlist:
            return npx.STATS
        if full == 'scipy.linalg' and fromlist:
            return npx.SLIN
        if full == 'scipy' and fromlist:
            real = importlib.import_module('scipy')
            return npx.Proxy(real, dict(stats=npx.STATS, linalg=npx.SLIN))
        if root == 'mplstereonet':
            sm = self.load('mplstereonet.stereonet_math')
            real = importlib.import_module('mplstereonet')
            if full == 'mplstereonet.stereonet_math' and (fromlist or level):
                return sm
            if full == 'mplstereonet.stereonet_math':
                px = types.ModuleType('mplstereonet')
                px.stereonet_math = sm
                return px
            px = types.ModuleType('mplstereonet')
            for k in dir(real):
                if not k.startswith('__'):
                    setattr(px, k, getattr(real, k))
            for k in dir(sm):
                if not k.startswith('_') and hasattr(real, k):
                    setattr(px, k, getattr(sm, k))
            px.stereonet_math = sm
            return px
        return __import__(name, globals, locals, fromlist, level)


_world = None


def world():
    global _world
    if _world is None:
        _world = SymWorld()
    return _world
