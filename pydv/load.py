"""Loads the source of a module of /repo as it is now, with transformed loops and the given imports"""
import builtins, os, types, sys
import numpy as np
from .transform import transform
from . import shim

CODE = {}
REPO = os.environ.get('CHEVAL_REPO', '/repo')


def load(relpath, rt, imports, overrides=None, modname=None, symbolic=True, glue=False):
    path = os.path.join(REPO, relpath)
    source = open(path).read()
    key = (path, glue, hash(source))
    if key not in CODE:
        CODE[key] = compile(transform(source, path, glue), path, 'exec')
    code = CODE[key]
    name = modname or relpath[:-3].replace('/', '.')

    def imp(mod, globals=None, locals=None, fromlist=(), level=0):
        full = mod
        if level:
            base = name.split('.')[:-level] if level else []
            full = '.'.join(base + ([mod] if mod else []))
        if full in imports:
            m = imports[full]
            if fromlist:
                return m
            return imports.get(full.split('.')[0], m)
        return builtins.__import__(mod, globals, locals, fromlist, level)
    b = dict(builtins.__dict__)
    b['__import__'] = imp
    if symbolic:
        b.update(shim.BUILTINS)
    b.update(overrides or {})
    ns = {'__builtins__': b, '__name__': name, '__file__': path, '_rt_': rt, '__package__': name.rpartition('.')[0]}
    exec(code, ns)
    return ns


def concrete_imports():
    m = shim.numba_mod()
    return m
