"""Contracts of the named objects of wizard.value (C19, C17)."""
from pathlib import Path

from engine import terms as T
from engine.terms import Val
from engine.verify import Target

from wizard.value import CaseFoldNamedObject, Plugin, SubPackage


def key(other):
    """the text names are compared by"""
    if isinstance(other, CaseFoldNamedObject):
        return other._name.casefold()
    elif isinstance(other, str):
        return other.casefold()
    raise TypeError


def s_init(self, name):
    if isinstance(name, CaseFoldNamedObject):
        self._name = name._name
    else:
        self._name = name


def s_name(self):
    return self._name


def s_repr(self):
    return repr(self._name)


def s_eq(self, other):
    return self._name.casefold() == key(other)


def s_ne(self, other):
    return self._name.casefold() != key(other)


def s_lt(self, other):
    return self._name.casefold() < key(other)


def s_le(self, other):
    return self._name.casefold() <= key(other)


def s_gt(self, other):
    return self._name.casefold() > key(other)


def s_ge(self, other):
    return self._name.casefold() >= key(other)


def s_hash(self):
    return hash(self._name.casefold())


def s_is_plugin(name):
    return name.endswith(".esp") or name.endswith(".esm") or name.endswith(".esl")


def s_plugins(self):
    return [Plugin(Path(file).name) for file in self.files
            if file.endswith(".esp") or file.endswith(".esm") or file.endswith(".esl")]


def r_plugins(self):
    return list(self.plugins())


# -- lemmas: the laws of the property, for any names -----------------------------


def l_agree(a, b):
    """the six comparisons agree with each other"""
    if (a != b) == (a == b):
        return "!="
    if (a <= b) != (a < b or a == b):
        return "<="
    if (a >= b) != (b < a or a == b):
        return ">="
    if (a > b) != (b < a):
        return ">"
    if (a == b) != (b == a):
        return "symmetry"
    return "agree"


def l_agree_spec(a, b):
    key(a)
    key(b)
    return "agree"


def l_total(a, b):
    """exactly one of <, ==, >"""
    if a < b:
        return not (a == b) and not (b < a)
    if a == b:
        return not (b < a)
    return b < a


def l_true(*args):
    return True


def l_trans(a, b, c):
    return not (a < b and b < c) or a < c


def l_trans_eq(a, b, c):
    return not (a == b and b == c) or a == c


def l_reflexive(a):
    return a == a and a <= a and a >= a and not a < a and not a > a and not a != a


def l_hash(a, b):
    """equal objects have equal hashes"""
    return not (a == b) or hash(a) == hash(b)


def l_case(n, m):
    """names that differ in case only are the same"""
    a = SubPackage(n)
    b = Plugin(m)
    return n.casefold() != m.casefold() or (a == b and b == a and hash(a) == hash(b) and a == m and not a != m)


def l_spelling(n):
    return str(CaseFoldNamedObject(n))


def l_spelling_spec(n):
    return n


def l_of_object(a):
    c = Plugin(a)
    return c.name


def l_lookup(a, b, x):
    """a dictionary finds an entry under any equal name, and only there"""
    d = {}
    d[a] = x
    if a == b:
        return b in d and d[b] == x
    return b not in d


def install(m):
    pass


def targets():
    N = CaseFoldNamedObject
    P = ("C19",)

    def t(name, fn, spec, hints, new=None, props=P):
        def args(I):
            return ([I.new(new)] if new else []) + [I.mk(T.const(f"a{i}", Val), h) for i, h in enumerate(hints)]

        return Target(name, fn, spec, args, props, budget=60)

    out = [
        t("CaseFoldNamedObject.__init__", N.__init__, s_init, [("or", "str", N)], N),
        t("CaseFoldNamedObject.name", N.name.fget, s_name, [N]),
        t("CaseFoldNamedObject.__str__", N.__str__, s_name, [N]),
        t("CaseFoldNamedObject.__repr__", N.__repr__, s_repr, [N]),
        t("CaseFoldNamedObject.__hash__", N.__hash__, s_hash, [N]),
    ]
    for n, s in (("eq", s_eq), ("ne", s_ne), ("lt", s_lt), ("le", s_le), ("gt", s_gt), ("ge", s_ge)):
        for o, h in (("name", N), ("text", "str"), ("anything", "any")):
            out.append(t(f"CaseFoldNamedObject.__{n}__ ({o})", N.__dict__[f"__{n}__"], s, [N, h]))
    for h, o in ((N, "names"), ("str", "text")):
        out.append(t(f"lemma: comparisons agree ({o})", l_agree, l_agree_spec, [N, h]))
        out.append(t(f"lemma: total ({o})", l_total, l_true, [N, h]))
    out += [
        t("lemma: transitive", l_trans, l_true, [N, N, N]),
        t("lemma: equality transitive", l_trans_eq, l_true, [N, N, N]),
        t("lemma: reflexive", l_reflexive, l_true, [N]),
        t("lemma: equal hashes", l_hash, l_true, [N, N]),
        t("lemma: spelling of the case is ignored", l_case, l_true, ["str", "str"]),
        t("lemma: spelling kept", l_spelling, l_spelling_spec, ["str"]),
        t("lemma: spelling kept (object)", l_of_object, s_name, [N]),
        t("lemma: lookup", l_lookup, l_true, [N, N, "int"]),
        t("SubPackage.is_plugin", SubPackage.is_plugin, s_is_plugin, ["str"], props=("C17",)),
        t("SubPackage.plugins", r_plugins, s_plugins, [SubPackage], props=("C17",)),
    ]
    return out
