"""Symbolic program states."""
import z3
from .terms import *

COMPS = {
    'f:_tag': AIV, 'f:_nsmap': AIV, 'f:_state': AIV, 'f:_sourceline': AIV,
    'f:text': AIV, 'f:tail': AIV, 'f:attrib': AIV, 'f:elements': AIV, 'f:next_element_idx': AIV,
    'L.n': z3.ArraySort(I, I), 'L.at': z3.ArraySort(I, AIV), 'L.sq': z3.ArraySort(I, SQ),
    'D.n': z3.ArraySort(I, I), 'D.key': z3.ArraySort(I, AIV),
    'D.has': z3.ArraySort(I, z3.ArraySort(V, B)), 'D.val': z3.ArraySort(I, z3.ArraySort(V, V)),
    'D.pos': z3.ArraySort(I, z3.ArraySort(V, I)),
    'G.owner': z3.ArraySort(I, I), 'G.dead': z3.ArraySort(I, B), 'G.ref': z3.ArraySort(I, B),
}
BASE_COMPS = dict(COMPS)


def use_heap(reg, types):
    """The heap components of the function being verified: the element tree and the mutable classes of its parameters."""
    COMPS.clear()
    COMPS.update(BASE_COMPS)
    for a in types:
        e = reg.schema.get(a)
        if e and e['kind'] == 'heap':
            COMPS.update({'f:' + f: AIV for f in e['fields'] if 'f:' + f not in COMPS})


LISTC = ('L.n', 'L.at', 'L.sq')
DICTC = ('D.n', 'D.key', 'D.has', 'D.val', 'D.pos')
FINAL = ('f:_state', 'f:_sourceline')       # assigned in __init__ only (checked syntactically on every run)


class PList:
    __slots__ = ('n', 'at', 'sq', 'ety')

    def __init__(self, n, at, sq, ety):
        self.n, self.at, self.sq, self.ety = n, at, sq, ety


class PDict:
    __slots__ = ('n', 'key', 'has', 'val', 'pos', 'kty', 'vty')

    def __init__(self, n, key, has, val, pos, kty, vty):
        self.n, self.key, self.has, self.val, self.pos, self.kty, self.vty = n, key, has, val, pos, kty, vty


class Trace:
    """Ghost record of the abstract calls made so far: a counter per operation and one array per column."""
    __slots__ = ('n', 'cols')

    def __init__(self, n, cols):
        self.n, self.cols = n, cols

    def copy(self):
        return Trace(dict(self.n), dict(self.cols))

    def count(self, op):
        return self.n.get(op, z3.IntVal(0))


class State:
    __slots__ = ('pc', 'env', 'comps', 'al', 'hv', 'priv', 'esc', 'tr', 'entry', 'ver', 'fw', 'extra')

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.comps = dict(self.comps)
        s.al, s.hv, s.ver = self.al, self.hv, self.ver
        s.priv = dict(self.priv)
        s.esc = dict(self.esc)
        s.tr = self.tr.copy()
        s.entry = self.entry
        s.fw = dict(self.fw)
        s.extra = dict(self.extra)
        return s

    def add(self, *facts):
        for f in facts:
            if z3.is_and(f):
                self.add(*f.children())
            elif not z3.is_true(f):
                self.pc.append(f)
