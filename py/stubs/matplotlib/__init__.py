"""Accepts every plotting call and draws nothing (matplotlib is not installed here)."""
import sys


# What was written into figures.
texts = []


class Anything(object):
    def text(self, x, y, s, *a, **k):
        texts.append(s)
        return Anything()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return Anything()

    def __call__(self, *a, **k):
        return Anything()

    def __iter__(self):
        return iter((Anything(),))

    def __getitem__(self, k):
        return Anything()

    def __setitem__(self, k, v):
        pass


rcParams = {}


def use(*a, **k):
    pass


class _Module(Anything):
    __path__ = []
    __spec__ = None


for _name in ("pyplot", "ticker", "cm", "colors", "gridspec", "lines"):
    _m = _Module()
    sys.modules["matplotlib." + _name] = _m
    globals()[_name] = _m
