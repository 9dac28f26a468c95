"""Contracts of wizard.value (C10, C11)."""
from engine.terms import Val
from engine import terms as T
from engine.verify import Target

from wizard import value as V
from wizard.value import SubPackage, SubPackages, Value, VariableType, Void

# ---------------------------------------------------------------------------
# specifications


def number(x):
    return isinstance(x, (bool, int, float))


def s_pos(a):
    if number(a._value):
        return Value(+a._value if not isinstance(a._value, bool) else a._value)
    raise TypeError


def s_neg(a):
    if number(a._value) and not isinstance(a._value, bool):
        return Value(-a._value)
    raise TypeError


def s_add(a, b):
    x, y = a._value, b._value
    if isinstance(x, str) and isinstance(y, str):
        return Value(x + y)
    if number(x) and number(y):
        return Value(x + y)
    raise TypeError


def s_sub(a, b):
    if number(a._value) and number(b._value):
        return Value(a._value - b._value)
    raise TypeError


def s_mul(a, b):
    if number(a._value) and number(b._value):
        return Value(a._value * b._value)
    raise TypeError


def s_div(a, b):
    if number(a._value) and number(b._value):
        return Value(a._value / b._value)
    raise TypeError


def s_pow(a, b):
    if number(a._value) and number(b._value):
        return Value(a._value ** b._value)
    raise TypeError


def s_mod(a, b):
    if number(a._value) and number(b._value):
        return Value(a._value % b._value)
    raise TypeError


def s_not(a):
    return Value(not a._value)


def s_eq(a, b):
    return Value(a._value == b._value)


def s_ne(a, b):
    return Value(a._value != b._value)


def s_or(a, b):
    if a._value:
        return Value(True)
    return Value(True if b._value else False)


def s_and(a, b):
    if a._value:
        return Value(True if b._value else False)
    return Value(False)


def comparable(x, y):
    return number(x) and number(y) or isinstance(x, str) and isinstance(y, str)


def s_gt(a, b):
    if comparable(a._value, b._value):
        return Value(a._value > b._value)
    raise TypeError


def s_ge(a, b):
    if comparable(a._value, b._value):
        return Value(a._value >= b._value)
    raise TypeError


def s_lt(a, b):
    if comparable(a._value, b._value):
        return Value(a._value < b._value)
    raise TypeError


def s_le(a, b):
    if comparable(a._value, b._value):
        return Value(a._value <= b._value)
    raise TypeError


def s_init(self, value):
    if value is None:
        value = Void()
    if isinstance(value, Void):
        self._type = VariableType.VOID
    elif isinstance(value, bool):
        self._type = VariableType.BOOL
    elif isinstance(value, int):
        self._type = VariableType.INTEGER
    elif isinstance(value, float):
        self._type = VariableType.FLOAT
    elif isinstance(value, str):
        self._type = VariableType.STRING
    elif isinstance(value, SubPackages):
        self._type = VariableType.LIST_SUBPACKAGES
    else:
        self._type = VariableType.SUBPACKAGE
    self._value = value


def s_type(self):
    return self._type


def s_value(self):
    return self._value


def s_is_void(self):
    return isinstance(self._value, Void)


def s_bool(self):
    return True if self._value else False


def s_dunder_eq(self, other):
    if not isinstance(other, Value):
        other = Value(other)
    if isinstance(self._value, Void) and isinstance(other._value, Void):
        return True
    if self._type is not other._type:
        return False
    return self._value == other._value


def s_dunder_ne(self, other):
    if not isinstance(other, Value):
        other = Value(other)
    if isinstance(self._value, Void) and isinstance(other._value, Void):
        return False
    if self._type is not other._type:
        return True
    return not (self._value == other._value)


# -- indexing, slicing, membership, iteration --------------------------------


def names(x):
    """what membership and iteration range over"""
    if isinstance(x, SubPackages):
        return (s.name for s in x)
    return x.files


def s_contains(self, item, case_insensitive=False):
    if not isinstance(self._value, (SubPackage, SubPackages)):
        raise TypeError
    if isinstance(item._value, SubPackage):
        wanted = item._value.name
    elif isinstance(item._value, str):
        wanted = item._value
    else:
        raise TypeError
    if case_insensitive:
        wanted = wanted.lower()
        for n in names(self._value):
            if wanted == n.lower():
                return Value(True)
        return Value(False)
    for n in names(self._value):
        if wanted == n:
            return Value(True)
    return Value(False)


def s_getitem(self, index):
    x, i = self._value, index._value
    if isinstance(x, SubPackage):
        x = x.name
    elif not isinstance(x, (str, SubPackages)):
        raise TypeError
    if not isinstance(i, int):
        raise TypeError
    if i >= len(x) or i < -len(x):
        raise IndexError(i)
    return Value(x[i])


def s_slice(self, start, end, step):
    if not isinstance(self._value, str):
        raise TypeError
    if start is not None and not isinstance(start._value, int):
        raise TypeError
    if end is not None and not isinstance(end._value, int):
        raise TypeError
    if step is not None and not isinstance(step._value, int):
        raise TypeError
    a = None if start is None else start._value
    b = None if end is None else end._value
    c = None if step is None else step._value
    return Value(self._value[a:b:c])


def s_iter(self):
    if not isinstance(self._value, (SubPackage, SubPackages)):
        raise TypeError
    return [Value(n) for n in names(self._value)]


def r_iter(self):
    return [x for x in self.__iter__()]


# ---------------------------------------------------------------------------


def val(I, name):
    return I.mk(T.const(name, Val), Value)


def opt(I, name):
    return I.mk(T.const(name, Val), ("or", "none", Value))


def targets():
    one = lambda I: [val(I, "self")]
    two = lambda I: [val(I, "self"), val(I, "other")]

    def init(I):
        return [I.new(Value), I.mk(T.const("value", Val), ("or", "none") + tuple(
            h for h in __import__("contracts.base").base.VALUE_H[1:]))]

    def eqa(I):
        return [val(I, "self"), I.mk(T.const("other", Val), Value)]

    def cont(I):
        return [val(I, "self"), val(I, "item"), I.mk(T.const("ci", Val), "bool")]

    out = []
    W = Value
    for n, f, s, a in [
        ("Value.__init__", W.__init__, s_init, init),
        ("Value.type", W.type.fget, s_type, one),
        ("Value.value", W.value.fget, s_value, one),
        ("Value.is_void", W.is_void, s_is_void, one),
        ("Value.__pos__", W.__pos__, s_pos, one),
        ("Value.__neg__", W.__neg__, s_neg, one),
        ("Value.__add__", W.__add__, s_add, two),
        ("Value.__sub__", W.__sub__, s_sub, two),
        ("Value.__mul__", W.__mul__, s_mul, two),
        ("Value.__div__", W.__div__, s_div, two),
        ("Value.__pow__", W.__pow__, s_pow, two),
        ("Value.__mod__", W.__mod__, s_mod, two),
        ("Value.logical_not", W.logical_not, s_not, one),
        ("Value.equals", W.equals, s_eq, two),
        ("Value.not_equals", W.not_equals, s_ne, two),
        ("Value.__or__", W.__or__, s_or, two),
        ("Value.__and__", W.__and__, s_and, two),
        ("Value.__gt__", W.__gt__, s_gt, two),
        ("Value.__ge__", W.__ge__, s_ge, two),
        ("Value.__lt__", W.__lt__, s_lt, two),
        ("Value.__le__", W.__le__, s_le, two),
        ("Value.__bool__", W.__bool__, s_bool, one),
        ("Value.__eq__", W.__eq__, s_dunder_eq, eqa),
        ("Value.__ne__", W.__ne__, s_dunder_ne, eqa),
    ]:
        out.append(Target(n, f, s, a, ("C10",)))
    for n, f, s, a in [
        ("Value.contains", W.contains, s_contains, cont),
        ("Value.__getitem__", W.__getitem__, s_getitem, two),
        ("Value.slice", W.slice, s_slice, lambda I: [
            val(I, "self"), opt(I, "start"), opt(I, "end"), opt(I, "step")]),
        ("Value.__iter__", r_iter, s_iter, one),
    ]:
        out.append(Target(n, f, s, a, ("C11",)))
    return out


def install(m):
    pass
