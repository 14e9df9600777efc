"""Hash-consed value-number terms.

Integers and pointers are kept in a linear normal form (constant + sum of
coefficient * atom), so that the many ways to write one address (index or
iterator, pre- or post-increment, base + offset) get the same value number.
"""


from math import gcd


class Term(object):
    __slots__ = ("tag", "args", "uid", "leaves", "depth")

    def __repr__(self):
        return show(self)


_table = {}
_uid = [0]
_EMPTY = frozenset()
# tags of atoms that denote a value bound to a program point and that can
# therefore become out of date when the point is passed again
_LEAF = ("v", "h", "m", "old")


def mk(tag, *args):
    k = (tag, args)
    t = _table.get(k)
    if t is not None:
        return t
    t = Term()
    t.tag = tag
    t.args = args
    _uid[0] += 1
    t.uid = _uid[0]
    if tag in _LEAF:
        base = _EMPTY
        for a in args:
            if isinstance(a, Term):
                base = base | a.leaves
        # ("m", header, addr) and ("old", atom, k) are leaves themselves
        t.leaves = frozenset((t,)) | (base if tag == "m" else _EMPTY)
        t.depth = 1
    else:
        ls = _EMPTY
        d = 0
        for a in _subterms(tag, args):
            if a.leaves:
                ls = ls | a.leaves
            if a.depth > d:
                d = a.depth
        t.leaves = ls
        t.depth = d + 1
    _table[k] = t
    return t


def _subterms(tag, args):
    if tag == "+":
        for a, _ in args[1]:
            yield a
        return
    for a in args:
        if isinstance(a, Term):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, Term):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, Term):
                            yield c


def num(n):
    return mk("int", n)


TRUE = num(1)
FALSE = num(0)
ZERO = FALSE
STALE = mk("stale")
UNDEF = mk("undef")


def is_int(t):
    return t.tag == "int"


def lin(t):
    """(constant, ((atom, coef), ...))"""
    if t.tag == "int":
        return t.args[0], ()
    if t.tag == "+":
        return t.args
    return 0, ((t, 1),)


def unlin(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k), key=lambda x: x[0].uid))
    if not items:
        return num(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("+", c, items)


def add(a, b, kb=1):
    if a is STALE or b is STALE:
        return STALE
    if a is UNDEF or b is UNDEF:
        return UNDEF
    ca, ia = lin(a)
    cb, ib = lin(b)
    d = dict(ia)
    for x, k in ib:
        d[x] = d.get(x, 0) + kb * k
    return unlin(ca + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    return add(ZERO, a, k)


def addc(a, c):
    if c == 0:
        return a
    return add(a, num(c))


def offset_between(a, b):
    """a - b as an int, or None"""
    d = sub(a, b)
    return d.args[0] if d.tag == "int" else None


def neg_canon(d):
    c, items = lin(d)
    if items and items[0][1] < 0:
        return scale(d, -1)
    return d


def fn(name, *args):
    for a in args:
        if a is STALE:
            return STALE
    if name == "divt" and args[1].tag == "int":
        a, k = args[0], args[1].args[0]
        if a.tag == "int" and a.args[0] >= 0:
            return num(a.args[0] // k)
        if a.tag == "f" and a.args[0] == "divt" and a.args[2].tag == "int":
            return mk("f", "divt", a.args[1], num(a.args[2].args[0] * k))
    return mk("f", name, *args)


# ---- booleans -------------------------------------------------------------
_BOOLTAGS = ("eq0", "slt", "ult", "not", "and", "or", "xor")


def NOT(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.tag == "not":
        return b.args[0]
    if b is STALE or b is UNDEF:
        return b
    return mk("not", b)


def AND(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a is STALE or b is STALE:
        return STALE
    if a.uid > b.uid:
        a, b = b, a
    return mk("and", a, b)


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


def XOR(a, b):
    if is_int(a) and is_int(b):
        return num(a.args[0] ^ b.args[0])
    if a is TRUE:
        return NOT(b)
    if b is TRUE:
        return NOT(a)
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is STALE or b is STALE:
        return STALE
    if a is b:
        return FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk("xor", a, b)


def EQ(a, b):
    if a is STALE or b is STALE:
        return STALE
    d = sub(a, b)
    return EQ0(d)


def EQ0(d):
    if d is STALE or d is UNDEF:
        return d
    if d.tag == "int":
        return TRUE if d.args[0] == 0 else FALSE
    c, items = lin(d)
    if len(items) == 1 and abs(items[0][1]) == 1:
        x, k = items[0]
        if x.tag == "b2i":
            n = -c * k
            if n == 0:
                return NOT(x.args[0])
            if n == 1:
                return x.args[0]
            return FALSE
    for a, k in items:
        if a.tag == "f" and a.args[0] == "sdivx" and a.args[2].tag == "int" and a.args[2].args[0] > 1:
            # an exact quotient: multiply it out
            n = a.args[2].args[0]
            acc = num(c * n)
            for b, q in items:
                if b is a:
                    acc = add(acc, a.args[1], q)
                else:
                    acc = add(acc, b, q * n)
            return EQ0(acc)
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    if g > 1:
        if c % g:
            if g & (g - 1) == 0:
                return FALSE
        else:
            d = unlin(c // g, {x: k // g for x, k in items})
    return mk("eq0", neg_canon(d))


def SLT(a, b, tag="slt"):
    if a is STALE or b is STALE:
        return STALE
    if a is b:
        return FALSE
    if is_int(a) and is_int(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if tag == "ult":
        if b is ZERO:
            return FALSE
        if a is ZERO:
            return NOT(EQ0(b))
        if is_int(b) and b.args[0] == 1:
            return EQ0(a)
    return mk(tag, a, b)


def B2I(b):
    if is_int(b) or b is STALE or b is UNDEF:
        return b
    return mk("b2i", b)


# ---- substitution ---------------------------------------------------------
def subst(t, whole, leaf, cache):
    """Replace the terms in `whole` and the atoms in `leaf` simultaneously."""
    if not whole and not (t.leaves and not t.leaves.isdisjoint(leaf)):
        return t
    r = cache.get(t)
    if r is not None:
        return r
    if t in whole:
        r = whole[t]
    elif t in leaf:
        r = leaf[t]
    elif t.tag in ("int", "v", "h", "old", "a", "g", "al", "stale", "undef"):
        r = t
    else:
        r = None
        if t.tag == "+" and "scaled" in cache:
            r = _scaled(t, whole, leaf, cache)
        if r is None:
            r = rebuild(t, lambda x: subst(x, whole, leaf, cache))
    cache[t] = r
    return r


def _scaled(t, whole, leaf, cache):
    """a == c + k*x: rewrite multiples of k*x as multiples of a - c"""
    sc = cache["scaled"]
    c, items = t.args
    if not any(x in sc and q % sc[x][0] == 0 for x, q in items):
        return None
    acc = num(c)
    for x, q in items:
        if x in sc and q % sc[x][0] == 0:
            k, c0, a = sc[x]
            acc = add(acc, addc(a, -c0), q // k)
        else:
            acc = add(acc, subst(x, whole, leaf, cache), q)
    return acc


def rebuild(t, f):
    tag = t.tag
    if tag == "+":
        acc = num(t.args[0])
        same = True
        parts = []
        for a, k in t.args[1]:
            b = f(a)
            if b is not a:
                same = False
            parts.append((b, k))
        if same:
            return t
        for b, k in parts:
            acc = add(acc, b, k)
        return acc
    new = []
    same = True
    for a in t.args:
        b = _reb(a, f)
        if b is STALE:
            return STALE
        if b is not a:
            same = False
        new.append(b)
    if same:
        return t
    if tag == "not":
        return NOT(new[0])
    if tag == "and":
        return AND(*new)
    if tag == "xor":
        return XOR(*new)
    if tag == "eq0":
        return EQ0(new[0])
    if tag in ("slt", "ult"):
        return SLT(new[0], new[1], tag)
    if tag == "b2i":
        return B2I(new[0])
    if tag == "f":
        return fn(*new)
    return mk(tag, *new)


def _reb(a, f):
    if isinstance(a, Term):
        return f(a)
    if isinstance(a, tuple):
        new = tuple(_reb(b, f) for b in a)
        if any(b is STALE for b in new):
            return STALE
        return a if all(x is y for x, y in zip(a, new)) else new
    return a


def show(t):
    if not isinstance(t, Term):
        return str(t)
    if t.tag == "int":
        return str(t.args[0])
    if t.tag == "+":
        s = "+".join(("%d*" % k if k != 1 else "") + show(a) for a, k in t.args[1])
        return "(%s%+d)" % (s, t.args[0])
    if t.tag == "a":
        return "arg%d" % t.args[0]
    if t.tag == "v":
        return "%" + str(t.args[0])
    if t.tag == "h":
        return "loop:" + str(t.args[0])
    if t.tag == "not":
        return "!" + show(t.args[0])
    if t.tag == "eq0":
        return "(%s==0)" % show(t.args[0])
    if t.tag == "f":
        return "%s(%s)" % (t.args[0], ",".join(_sa(a) for a in t.args[1:]))
    return "%s(%s)" % (t.tag, ",".join(_sa(a) for a in t.args))


def _sa(a):
    if isinstance(a, tuple):
        return "(" + ",".join(_sa(b) for b in a) + ")"
    return show(a)
