"""Which environment variables does the package ask for? (imported before the package)"""
import os
import sys

GENERIC = ["", "0", "1", "2", "-1", "100", "1e-3", "0.5", "true", "True", "false", "yes", "no", "on", "off", "none", "nan", "debug", "float32", "fast", "strict"]
asked = {}      # name -> file that asked
SRC = ""
LIB = (os.path.abspath(os.__file__), "<frozen os>", "<frozen _collections_abc>")


def note(name):
    f, via = sys._getframe(2), set()
    while f is not None and (f.f_code.co_filename in LIB or f.f_code.co_filename.endswith("_collections_abc.py")):
        via.add(f.f_code.co_name)
        f = f.f_back
    if f is None or via & {"copy", "items", "values", "keys", "__iter__", "__repr__", "__or__", "__ior__"}:
        return
    if os.path.abspath(f.f_code.co_filename).startswith(SRC) and isinstance(name, str):
        asked.setdefault(name, f.f_code.co_filename)


class Spy(os._Environ):
    def __getitem__(self, k):
        try:
            return super().__getitem__(k)
        except KeyError:
            note(k)
            raise

    def __contains__(self, k):
        r = super().__contains__(k)
        if not r:
            note(k)
        return r

    def get(self, k, default=None):
        try:
            return super().__getitem__(k)
        except KeyError:
            note(k)
            return default


def install(src):
    global SRC
    SRC = os.path.join(os.path.abspath(src), "")
    os.environ.__class__ = Spy


def candidates(path):
    """Generic values and every short string constant of the asking module."""
    out = list(GENERIC)
    with open(path) as f:
        todo = [compile(f.read(), path, "exec", dont_inherit=True)]
    while todo:
        c = todo.pop()
        for v in c.co_consts:
            if hasattr(v, "co_consts"):
                todo.append(v)
            for w in v if isinstance(v, (tuple, frozenset)) else (v,):
                if isinstance(w, str) and len(w) <= 24 and w.isprintable() and " " not in w and w not in out:
                    out.append(w)
    return out
