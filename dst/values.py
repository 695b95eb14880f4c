"""Value specifications (JSON) -> Python values, and a canonical text form that
distinguishes type and identity-relevant content."""
import numpy as np

from .core import digest


class Opaque(object):
    """A value with identity equality"""

    def __init__(self, uid):
        self.uid = uid

    def __repr__(self):
        return "Opaque(%s)" % self.uid


class Evil(object):
    """A legal value that refuses to be compared or tested for truth"""

    __hash__ = None

    def __init__(self, uid):
        self.uid = uid

    def __eq__(self, other):
        raise TypeError("this value cannot be compared")

    def __ne__(self, other):
        raise TypeError("this value cannot be compared")

    def __bool__(self):
        raise TypeError("this value has no truth value")

    def __repr__(self):
        return "Evil(%s)" % self.uid


class Twin(object):
    """Values that all claim to be equal to each other"""

    def __init__(self, uid):
        self.uid = uid

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1

    def __repr__(self):
        return "Twin(%s)" % self.uid


def make(sut, spec, layout=None, name=None):
    """Builds the value a spec describes (a new object every time)"""
    k = spec[0]
    if k == "none":
        return None
    if k in ("int", "float", "str", "bool"):
        return {"int": int, "float": float, "str": str, "bool": bool}[k](spec[1])
    if k == "tuple":
        return tuple(spec[1])
    if k == "list":
        return list(spec[1])
    if k == "set":
        return set(spec[1])
    if k == "frac":
        import fractions
        return fractions.Fraction(spec[1], spec[2])
    if k == "vec":
        return sut.Vector(spec[1], spec[2])
    if k == "arr":
        return np.array(spec[1])
    if k == "opaque":
        return Opaque(spec[1])
    if k == "evil":
        return Evil(spec[1])
    if k == "twin":
        return Twin(spec[1])
    if k == "conf":
        return sut.Configuration({name(n): sut.Vector(x, y) for n, x, y in spec[1]})
    if k == "confs":
        return [make(sut, ["conf", c], layout, name) for c in spec[1]]
    raise AssertionError(spec)


def canon(v):
    """Canonical text of a value; equal text means indistinguishable value"""
    if v is None:
        return "None"
    t = type(v).__name__
    if t in ("int", "bool", "str", "float", "Fraction"):
        return "%s:%r" % (t, v)
    if t in ("tuple", "list"):
        return "%s[%s]" % (t, ",".join(canon(x) for x in v))
    if t in ("set", "frozenset"):
        return "set{%s}" % ",".join(sorted(canon(x) for x in v))
    if t == "Vector":
        return "V(%r,%r)" % (v.x, v.y)
    if t == "ndarray":
        return "A%s" % (v.tolist(),)
    if t in ("Opaque", "Evil", "Twin"):
        return "%s#%s" % (t, v.uid)
    if t == "Configuration":
        return "C{%s%s}" % (",".join(sorted("%s=%s" % (n, canon(p))
                            for n, p in v.mapping.items())),
                            "!" if v.underconstrained else "")
    return "%s<%r>" % (t, v)


ATOMS = [["int", 0], ["int", 1], ["int", 2], ["int", -3], ["bool", True],
         ["bool", False], ["float", 0.0], ["float", 1.0], ["str", ""],
         ["str", "s"], ["tuple", []], ["tuple", [1, 2]], ["list", []],
         ["list", [1]], ["set", []], ["frac", 1, 3]]


def random_value(rng, uid, rich=True):
    """A value spec; every second one is unique, so that a result can be traced
    to the update that caused it"""
    r = rng.random()
    if not rich or r < 0.45:
        return ["int", 1000 + uid]
    if r < 0.75:
        return list(rng.choice(ATOMS))
    return rng.choice([["opaque", uid], ["evil", uid], ["twin", uid],
                       ["vec", uid, rng.randint(-2, 2)], ["vec", 0, 0],
                       ["arr", [0, uid]], ["arr", [0]], ["str", "u%d" % uid],
                       ["tuple", [uid]], ["list", [uid]]])
