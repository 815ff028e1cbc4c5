"""Dictionaries of any size: membership, lookup and insertion; number and order of the entries are unknown."""
import z3

from .arrays import SeqV
from .core import BOOL, INT, Opaque, Or, PyExc, SNum, SStr, Unsupported, mkbool, nterm, strterm
from .interp import Model


class AnyMap(Model):
    m_type = dict

    def __init__(self, name, kt, entry, base=None, over=()):
        self.name, self.kt, self.entry = name, kt, entry
        self.f = z3.Function(name + ".has", z3.StringSort() if kt == "str" else INT, BOOL)
        self.base = base if base is not None else []  # [(key, entry)] of the unknown part, shared by copies
        self.over = list(over)  # insertions, latest last

    def copy(self):
        return AnyMap(self.name, self.kt, self.entry, self.base, self.over)

    def _fits(self, k):
        text = isinstance(k, (str, SStr))
        return k is not None and text == (self.kt == "str")

    def _term(self, k):
        return strterm(k) if self.kt == "str" else nterm(k)

    def m_eq(self, ip, o):
        return self is o

    def m_contains(self, ip, k):
        k = ip.force(k)
        if not self._fits(k):
            return False
        return Or(mkbool(self.f(self._term(k))), *[ip.truth_term(ip.eq_term(k, x)) for x, _ in self.over])

    def m_getitem(self, ip, k):
        k = ip.force(k)
        if not ip.truth(self.m_contains(ip, k)):
            raise PyExc(KeyError("key of a dictionary"))
        for x, v in reversed(self.over):
            if ip.truth(ip.eq_term(x, k)):
                return v
        for x, v in self.base:
            if ip.truth(ip.eq_term(x, k)):
                return v
        v = self.entry(k)
        self.base.append((k, v))
        return v

    def m_setitem(self, ip, k, v):
        k = ip.force(k)
        if not self._fits(k):
            raise Unsupported("key of another type")
        self.over.append((k, v))

    def c_get(self, ip, k, d=None):
        return self.m_getitem(ip, k) if ip.truth(self.m_contains(ip, k)) else d

    def _all(self, ip, what):
        """All entries, of which only the existence is known."""
        n = ip.c.fresh(f"{self.name}.{what}", INT)
        ip.c.assume(mkbool(n >= 0))
        return SeqV([("seg", SNum(n, "int"), lambda i: Opaque(object, f"one of the {what}"))])

    def c_values(self, ip):
        return self._all(ip, "values")

    def c_keys(self, ip):
        return self._all(ip, "keys")

    def c_items(self, ip):
        return self._all(ip, "items")
