"""z3 vocabulary of the verifier: the universe of Python values, sequences,
uninterpreted operations."""
import z3

z3.set_param("smt.random_seed", 1)

_Val = z3.Datatype("Val")
_VL = z3.Datatype("VL")
Flt = z3.DeclareSort("Flt")
SqB = z3.DeclareSort("SqB")
World = z3.DeclareSort("World")
View = z3.DeclareSort("View")

_Val.declare("VNone")
_Val.declare("VAbsent")
_Val.declare("VBool", ("vb", z3.BoolSort()))
_Val.declare("VInt", ("vi", z3.IntSort()))
_Val.declare("VFlt", ("vf", Flt))
_Val.declare("VStr", ("vs", z3.StringSort()))
_Val.declare("VRef", ("vr", z3.IntSort()))
_Val.declare("VPy", ("vp", z3.IntSort()))
_Val.declare("VRec", ("vc", z3.IntSort()), ("vfs", _VL))
_Val.declare("VTup", ("vtl", _VL))
_Val.declare("VSeqB", ("vq", SqB))
_Val.declare("VViewB", ("vw", View))
_VL.declare("nil")
_VL.declare("cons", ("hd", _Val), ("tl", _VL))
Val, VL = z3.CreateDatatypes(_Val, _VL)
SeqV = z3.SeqSort(Val)
ArrV = z3.ArraySort(Val, Val)
StrS = z3.StringSort()
IntS = z3.IntSort()
BoolS = z3.BoolSort()

_ufs = {}
_keep = []


def uf(name, *sorts):
    k = (name,) + tuple(s.get_id() for s in sorts)
    f = _ufs.get(k)
    if f is None:
        f = z3.Function(name, *sorts)
        _ufs[k] = f
        _keep.append(sorts)
    return f


def const(name, sort):
    return z3.Const(name, sort)


# interning of Python objects used as constants
_py_ids = {}
_py_objs = []


def py_id(o):
    k = id(o)
    if k not in _py_ids:
        _py_ids[k] = len(_py_objs)
        _py_objs.append(o)
    return _py_ids[k]


def py_obj(i):
    return _py_objs[i]


def vlist(items):
    r = VL.nil
    for t in reversed(list(items)):
        r = VL.cons(t, r)
    return r


def rec_field(t, i):
    # structural shortcut
    if z3.is_app(t) and t.decl().eq(Val.VRec):
        l = t.arg(1)
        for _ in range(i):
            l = l.arg(1)
        return l.arg(0)
    l = Val.vfs(t)
    for _ in range(i):
        l = VL.tl(l)
    return VL.hd(l)


def flt_const(f):
    return const("flt!" + repr(f), Flt)


def empty_seq():
    return z3.Empty(SeqV)


def unit(t):
    return z3.Unit(t)


def concat(parts):
    parts = [p for p in parts]
    if not parts:
        return empty_seq()
    if len(parts) == 1:
        return parts[0]
    return z3.Concat(*parts)


def str_term(s):
    return z3.StringVal(s)
