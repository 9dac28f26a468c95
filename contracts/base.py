"""The data model shared by all contracts: records, fields, representation
invariants and the contract of the Value constructor."""
import enum

import z3

from engine import terms as T
from engine.core import *  # noqa
from engine.core import S, Obj, Seq
from engine.interp import Model
from engine.terms import Val, VL, View, World, StrS, IntS, BoolS, uf

from wizard import value as V

VT = V.VariableType
VALUE_H = ("or", "bool", "int", "float", "str", V.Void, V.SubPackage, V.SubPackages)
TYPES = {
    "bool": VT.BOOL, "int": VT.INTEGER, "float": VT.FLOAT, "str": VT.STRING,
    V.Void: VT.VOID, V.SubPackages: VT.LIST_SUBPACKAGES, V.SubPackage: VT.SUBPACKAGE,
}


def vtype(I, v):
    """the VariableType of a (checked) value, as a value"""
    hs = I.alts(I.hint_of(v)) if not isinstance(v, Obj) else [v.cls]
    ks = []
    for h in hs:
        k = h
        if isinstance(h, type):
            k = next(c for c in (V.Void, V.SubPackages, V.SubPackage) if issubclass(h, c))
        ks.append(k)
    if len(set(ks)) == 1:
        return TYPES[ks[0]]
    t = I.enc(TYPES[ks[-1]])
    for h, k in list(zip(hs, ks))[:-1][::-1]:
        t = z3.If(I.constrain(v.t, h), I.enc(TYPES[k]), t)
    return S(t, ("py",) + tuple(TYPES[k] for k in dict.fromkeys(ks)))


def new_value(I, args, kwargs):
    """contract of Value(x): _value is x (Void() for None), _type its type"""
    args = I.flat(args)
    if len(args) != 1 or kwargs:
        raise I.exc(TypeError, "Value()")
    v = args[0]
    if isinstance(v, S):
        ok = []
        for h in I.alts(v.h):
            if h == "none":
                if I.p.branch(I.is_kind(v, "none")):
                    v = None
                    break
            else:
                ok.append(h)
        else:
            if len(ok) < len(I.alts(v.h)):
                v = S(v.t, ok[0] if len(ok) == 1 else ("or",) + tuple(ok))
    if v is None:
        v = I.new(V.Void)
    hs = [v.cls] if isinstance(v, Obj) else I.alts(I.hint_of(v))

    def valid(h):
        if isinstance(h, str):
            return h in TYPES
        return isinstance(h, type) and issubclass(h, (V.Void, V.SubPackages, V.SubPackage))

    if not all(valid(h) for h in hs):
        if not isinstance(v, S) or not any(valid(h) or h == "any" for h in hs):
            raise I.exc(ValueError, "Unknown type")
        c = I.constrain(v.t, VALUE_H)
        if not I.p.branch(c):
            raise I.exc(ValueError, "Unknown type")
        v = I.simp(S(v.t, VALUE_H))
    o = I.new(V.Value)
    o.attrs["_type"] = vtype(I, v)
    o.attrs["_value"] = v
    return o


def value_inv(I, t):
    """_type is the type of _value"""
    ty, x = T.rec_field(t, 0), T.rec_field(t, 1)
    return ty == I.enc(vtype(I, S(x, VALUE_H)))


def fold_key(I, x):
    """the key under which names are compared"""
    if isinstance(x, str):
        return Val.VStr(T.str_term(x.casefold()))
    if isinstance(x, S) and x.h == "str":
        return Val.VStr(uf("str_casefold", StrS, StrS)(I.strt(x)))
    if isinstance(x, Obj):
        return fold_key(I, I.getattr(x, "_name"))
    if I.p.branch(I.is_kind(x, "str")):
        return fold_key(I, S(x.t, "str"))
    x = I.rehint(x, V.CaseFoldNamedObject)
    return fold_key(I, I.getattr(x, "_name"))


def hash_key(I, k):
    c = I.maybe_casefold(k)
    if c is not False and I.p.branch(c):
        return Val.VTup(T.vlist([fold_key(I, k)]))
    return None


def make_model():
    m = Model()
    m.records[V.Void] = ()
    m.records[V.Plugin] = ("_name",)
    m.records[V.Value] = ("_type", "_value")
    m.fields[(V.CaseFoldNamedObject, "_name")] = "str"
    m.fields[(V.SubPackages, "$elem")] = V.SubPackage
    m.fields[(V.SubPackage, "files")] = ("seq", "str")
    m.fields[(V.Value, "_type")] = ("py",) + tuple(VT)
    m.fields[(V.Value, "_value")] = VALUE_H
    m.inv[V.Value] = value_inv
    m.casefold = V.CaseFoldNamedObject
    m.fold_key = fold_key
    m.hash_key = hash_key
    m.prims[V.Value] = new_value
    return m
