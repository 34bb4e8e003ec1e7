"""Shared helpers of the scenario suites."""
import itertools
import os

import pydantic_xml as px
from pydantic_xml.element import SearchMode
from pydantic_xml.element.native import XmlElement, etree

BACKEND = os.environ.get('VERIF_BACKEND', 'lxml')
LXML = BACKEND == 'lxml'
MODES = [SearchMode.STRICT, SearchMode.ORDERED, SearchMode.UNORDERED]


def eq(a, b, what=''):
    if type(a) is not type(b) and not (isinstance(a, (int, float, str, type(None))) and isinstance(b, (int, float, str, type(None)))):
        pass
    if a != b:
        raise AssertionError(f'{what}: got {a!r}, expected {b!r}')


def true(c, what):
    if not c:
        raise AssertionError(what)


def raises(exc, fn, what=''):
    try:
        r = fn()
    except exc as e:
        return e
    raise AssertionError(f'{what}: expected {exc}, got result {r!r}')


def canon(x):
    """Canonical form of an xml string or native element: (tag, attribs, text, children with tails)."""
    if isinstance(x, (str, bytes)):
        x = etree.fromstring(x)
    return (x.tag, dict(x.attrib), x.text or '', [(canon(c), c.tail or '') for c in x])


def same_xml(a, b, what=''):
    ca, cb = canon(a), canon(b)
    if ca != cb:
        sa = a if isinstance(a, (str, bytes)) else etree.tostring(a)
        sb = b if isinstance(b, (str, bytes)) else etree.tostring(b)
        raise AssertionError(f'{what}: got {sa!r}, expected {sb!r}')


def ser(obj, **kw):
    return obj.to_xml(**kw)


def table(group, rows, fn):
    """One scenario per row."""
    for i, r in enumerate(rows):
        yield f'{group}/{i}', (lambda r=r: fn(*r) if isinstance(r, tuple) else fn(r))


def fn_case(name, fn):
    return name, fn


def suite(*fns):
    """cases() made of plain functions, named by them."""
    for f in fns:
        yield f.__name__, f


class Registry(list):
    def __call__(self, f):
        self.append(f)
        return f

    def cases(self, rng, tier):
        for f in self:
            yield f.__name__, f
