"""Contracts of wizard.utils.mappings (C20).

A mapping is its own entries, its deleted keys and its parent.  The parent is any
mapping (contract: `in`, [], iteration and len() speak of the same contents; reading
does not change it): a StackMutableMapping again is one, which is what the lemmas show,
so they hold for any depth of stacking.  The entries, the deleted keys and the keys
are arbitrary: each lemma starts from a state that any history may have led to."""
import inspect

import z3

from engine import terms as T
from engine.core import *  # noqa
from engine.core import S
from engine.terms import Val, uf
from engine.verify import Target

from wizard.utils.mappings import StackMutableMapping as M
from wizard.value import CaseFoldNamedObject


class Parent:
    """any mapping"""

    stand_in = True

    def __contains__(self, k): ...
    def __getitem__(self, k): ...
    def __iter__(self): ...
    def __len__(self): ...
    def __setitem__(self, k, v): ...
    def __delitem__(self, k): ...


class TextParent(Parent):
    """any mapping with texts as keys"""

    key = "str"


class NameParent(Parent):
    """any mapping with sub-packages or plugins as keys"""

    key = CaseFoldNamedObject


class NumberParent(Parent):
    """any mapping with numbers as keys"""

    key = "int"


def keys_of(I, p):
    return I.mk(uf("parent_keys", Val, Val)(I.enc(p)), ("set", p.h.key if isinstance(p.h, type) else "str"))


def p_contains(I, args, kwargs):
    p, k = I.flat(args)
    return I.mkbool(I.contains(keys_of(I, p), k))


def p_getitem(I, args, kwargs):
    p, k = I.flat(args)
    if not I.p.branch(I.contains(keys_of(I, p), k)):
        raise I.exc(KeyError, k)
    return I.mk(uf("parent_get", Val, Val, Val)(I.enc(p), I.dict_key(k)), "any")


def p_iter(I, args, kwargs):
    return keys_of(I, I.flat(args)[0])


def p_len(I, args, kwargs):
    return I.length(keys_of(I, I.flat(args)[0]))


def p_write(I, args, kwargs):
    a = I.flat(args)
    I.log_write(("world",))
    ts = [I.enc(x) for x in a]
    I.r.world = uf(f"parent_write/{len(ts)}", T.World, *[Val] * len(ts), T.World)(I.r.world, *ts)


def stack(parent, own, deleted):
    """a mapping in any state"""
    m = M(parent)
    m._variables = dict(own)
    m._deleted = set(deleted)
    return m


# the contents, by the property ------------------------------------------------


def shows(parent, own, deleted, k):
    if k in own:
        return True
    return parent is not None and k not in deleted and k in parent


def value(parent, own, k):
    if k in own:
        return own[k]
    return parent[k]


def look(m, k):
    """everything the mapping says about a key"""
    if k not in m:
        try:
            m[k]
        except KeyError as e:
            return ("missing", e.args, m.get(k), m.get(k, 0))
        return "found"
    if k not in set(m):
        return "not iterated over"
    return (m[k], m.get(k), m.get(k, 0))


def look_spec(x, has, k):
    if not has:
        return ("missing", (k,), None, 0)
    return (x, x, x)


def new(parent, k):
    m = M(parent)
    return look(m, k)


def new_spec(parent, k):
    has = parent is not None and k in parent
    return look_spec(parent[k] if has else None, has, k)


def new_alone(k):
    m = M()
    return (look(m, k), len(m))


def new_alone_spec(k):
    return (look_spec(None, False, k), 0)


def read(parent, own, deleted, k):
    return look(stack(parent, own, deleted), k)


def read_spec(parent, own, deleted, k):
    has = shows(parent, own, deleted, k)
    return look_spec(value(parent, own, k) if has else None, has, k)


def iterate(parent, own, deleted, k):
    """the keys iterated over are those it contains"""
    return k in set(stack(parent, own, deleted))


def iterate_spec(parent, own, deleted, k):
    return shows(parent, own, deleted, k)


def length(parent, own, deleted):
    """the length is the number of keys iterated over"""
    m = stack(parent, own, deleted)
    return len(m) == len(set(m))


def length_spec(parent, own, deleted):
    return True


def store(parent, own, deleted, k, x, j):
    """setting changes the entry of this key only"""
    m = stack(parent, own, deleted)
    m[k] = x
    return look(m, j)


def store_spec(parent, own, deleted, k, x, j):
    if j == k:
        return look_spec(x, True, j)
    has = shows(parent, own, deleted, j)
    return look_spec(value(parent, own, j) if has else None, has, j)


def delete(parent, own, deleted, k, j):
    """deleting removes the entry of this key only, a missing key is an error"""
    m = stack(parent, own, deleted)
    try:
        del m[k]
    except KeyError as e:
        return ("KeyError", e.args, look(m, j))
    return look(m, j)


def delete_spec(parent, own, deleted, k, j):
    has = shows(parent, own, deleted, j)
    now = look_spec(value(parent, own, j) if has else None, has, j)
    if not shows(parent, own, deleted, k):
        return ("KeyError", (k,), now)
    if j == k:
        return look_spec(None, False, j)
    return now


def level(parent, own, deleted, k, x, j):
    """what is done to a mapping stacked on this one does not show in this one"""
    m = stack(parent, own, deleted)
    c = M(m)
    c[k] = x
    del c[k]
    try:
        del c[j]
    except KeyError:
        pass
    return look(m, k)


def level_spec(parent, own, deleted, k, x, j):
    has = shows(parent, own, deleted, k)
    return look_spec(value(parent, own, k) if has else None, has, k)


def follow(parent, other, own, deleted, k, j):
    """reading keeps nothing: when the parent has other contents, these show"""
    m = stack(parent, own, deleted)
    look(m, k)
    len(m)
    m._parent = other
    return look(m, j)


def follow_spec(parent, other, own, deleted, k, j):
    has = shows(other, own, deleted, j)
    return look_spec(value(other, own, j) if has else None, has, j)


def pop(parent, own, deleted, k, j):
    m = stack(parent, own, deleted)
    x = m.pop(k, 0)
    return (x, look(m, j))


def pop_spec(parent, own, deleted, k, j):
    x = value(parent, own, k) if shows(parent, own, deleted, k) else 0
    has = j != k and shows(parent, own, deleted, j)
    return (x, look_spec(value(parent, own, j) if has else None, has, j))


def pop_missing(parent, own, deleted, k):
    m = stack(parent, own, deleted)
    try:
        m.pop(k)
    except KeyError:
        return "KeyError"
    return "popped"


def pop_missing_spec(parent, own, deleted, k):
    return "popped" if shows(parent, own, deleted, k) else "KeyError"


def setdefault(parent, own, deleted, k, x, j):
    m = stack(parent, own, deleted)
    r = m.setdefault(k, x)
    return (r, look(m, j))


def setdefault_spec(parent, own, deleted, k, x, j):
    had = shows(parent, own, deleted, k)
    v = value(parent, own, k) if had else x
    if j == k:
        return (v, look_spec(v, True, j))
    has = shows(parent, own, deleted, j)
    return (v, look_spec(value(parent, own, j) if has else None, has, j))


def again(parent, own, deleted, k, x, y):
    """set, delete, set: visible with the last value"""
    m = stack(parent, own, deleted)
    m[k] = x
    del m[k]
    gone = look(m, k)
    m[k] = y
    return (gone, look(m, k))


def again_spec(parent, own, deleted, k, x, y):
    return (look_spec(None, False, k), look_spec(y, True, k))




def install(m):
    ks = list(vars(M(None)))
    if sorted(ks) != ["_deleted", "_parent", "_variables"] or type(M(None)._variables) is not dict or \
            type(M(None)._deleted) is not set:
        raise TypeError("the representation of StackMutableMapping is not the one the contracts speak of")
    for n, h in (("__contains__", p_contains), ("__getitem__", p_getitem), ("__iter__", p_iter),
                 ("__len__", p_len), ("__setitem__", p_write), ("__delitem__", p_write)):
        m.opaque[getattr(Parent, n)] = h


def targets():
    P = ("C20",)
    out = []
    for kind in (TextParent, NameParent, NumberParent):
        K = kind.key
        st = [("or", "none", kind), ("dict", K, "any"), ("set", K)]

        def t(name, fn, spec, hints):
            def args(I):
                return [I.mk(T.const(f"a{i}", Val), h) for i, h in enumerate(hints)]

            n = "" if K == "str" else f" ({kind.__name__[:-6].lower()} keys)"
            out.append(Target(f"stacked mapping: {name}{n}", fn, spec, args, P, budget=120))

        t("a new one shows its parent", new, new_spec, [st[0], K])
        t("a new one without a parent is empty", new_alone, new_alone_spec, [K])
        t("read", read, read_spec, st + [K])
        t("iteration", iterate, iterate_spec, st + [K])
        t("length", length, length_spec, st)
        t("set", store, store_spec, st + [K, "any", K])
        t("delete", delete, delete_spec, st + [K, K])
        t("pop", pop, pop_spec, st + [K, K])
        t("pop without a default", pop_missing, pop_missing_spec, st + [K])
        t("setdefault", setdefault, setdefault_spec, st + [K, "any", K])
        t("set, delete, set", again, again_spec, st + [K, "any", "any"])
        t("follows its parent", follow, follow_spec, st[:1] * 2 + st[1:] + [K, K])
        t("levels", level, level_spec, st + [K, "any", K])
    return out
