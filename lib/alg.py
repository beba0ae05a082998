"""Algebraic value numbering over (acyclic) LLVM IR.

Every SSA value is given a normal form in a polynomial ring over atoms: function
inputs, reciprocals, square roots, absolute values, uninterpreted math calls and
if-then-else gates.  Two program points that compute the same real function of
the inputs by rearranged arithmetic get the same normal form, however the source
spells it (helpers, temporaries, loops the compiler unrolls, reordered sums).
Arithmetic is exact (the reals), so rounding, overflow and NaN are outside.
"""
import math
import struct
from decimal import Decimal, localcontext
from fractions import Fraction
import llir
import models
from mem import Mem, Obj, Cat, POISON, Poison, bits, signed, cover


class Broken(Exception):
    """The analysis cannot interpret the construct (not a verdict)."""


ATOMS = []          # id -> (kind, data...)
ATOM_ID = {}
CONDS = []          # id -> (kind, Poly)
COND_ID = {}
REDUCE = set()      # atoms whose powers are rewritten
ATOM_CONDS = {}     # atom -> frozenset(cond ids occurring inside)


def atom(*key):
    i = ATOM_ID.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append(key)
        ATOM_ID[key] = i
        k = key[0]
        if k in ('sqrt', 'abs') or (k == 'fn' and key[1] == 'cos'):
            REDUCE.add(i)
        cs = set()
        for d in key[1:]:
            if isinstance(d, Poly):
                cs |= d.conds()
            elif isinstance(d, tuple):
                for e in d:
                    if isinstance(e, Poly):
                        cs |= e.conds()
        if k == 'ite':
            cs.add(key[1])
            cs |= CONDS[key[1]][1].conds()
        ATOM_CONDS[i] = frozenset(cs)
    return i


def _n(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


class Poly:
    __slots__ = ('t', '_h', '_c')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._c = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def conds(self):
        if self._c is None:
            s = frozenset()
            seen = set()
            for m in self.t:
                for a, _ in m:
                    if a not in seen:
                        seen.add(a)
                        c = ATOM_CONDS[a]
                        if c:
                            s = s | c
            self._c = s
        return self._c

    def const(self):
        """value if constant else None"""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m, 0) + c
            if v:
                t[m] = _n(v)
            else:
                t.pop(m, None)
        return Poly(t)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, k):
        if k == 0:
            return ZERO
        return Poly({m: _n(c * k) for m, c in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > SOFT:
            # name large factors instead of multiplying out; expanded on demand
            if len(b) > 60:
                b = let(o if b is o.t else self).t
            if len(a) * len(b) > SOFT:
                a = let(self if a is self.t else o).t
        t = {}
        hot = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, red = mmul(m1, m2)
                d = hot if red else t
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        r = Poly(t if INTS else {m: _n(c) for m, c in t.items()})
        if hot:
            # rewrite the terms that share the same reducible power together
            groups = {}
            for m, c in hot.items():
                k = tuple((x, e - e % 2) for x, e in m if x in REDUCE and (e > 1 or (e < 0 and ATOMS[x][0] == 'sqrt')))
                d = dict(m)
                for x, e in k:
                    d[x] -= e
                groups.setdefault(k, {})[tuple(sorted((x, e) for x, e in d.items() if e))] = _n(c)
            for k, d in groups.items():
                r = r + Poly(d) * reduce_mono(k)
        return r

    def pow(self, n):
        if n < 0:
            return inv(self).pow(-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r


SOFT = 250000
INTS = False


def let(p):
    return Poly({((atom('let', p), 1),): 1})


def unlet(p, limit):
    """Expand one layer of named factors; None when that exceeds the limit."""
    global SOFT
    tgt = [a for m in p.t for a, _ in m if ATOMS[a][0] == 'let']
    if not tgt:
        return p
    a = max(tgt)
    old, SOFT = SOFT, 1 << 60
    try:
        q = ATOMS[a][1]
        r = ZERO
        work = 0
        groups = {}
        for m, c in p.t.items():
            e = dict(m).get(a, 0)
            groups.setdefault(e, {})[tuple(x for x in m if x[0] != a)] = c
        for e, t in groups.items():
            if e < 0:
                return None
            w = len(t) * len(q.t) ** e
            work += w
            if work > limit:
                return None
            r = r + Poly(t) * q.pow(e)
        return r
    finally:
        SOFT = old


LIMIT = 4000000


def mmul(m1, m2):
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    out = []
    i = j = 0
    red = False
    while i < len(m1) and j < len(m2):
        a, b = m1[i], m2[j]
        if a[0] < b[0]:
            out.append(a)
            i += 1
        elif a[0] > b[0]:
            out.append(b)
            j += 1
        else:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
                if a[0] in REDUCE and (e > 1 or e < 0):
                    red = True
            i += 1
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), red


def reduce_mono(m):
    r = ONE
    rest = []
    for a, e in m:
        if a in REDUCE and (e > 1 or e < 0):
            k = ATOMS[a]
            if k[0] == 'sqrt':
                q, rem = divmod(e, 2)
                r = r * k[1].pow(q)
                if rem:
                    rest.append((a, 1))
            elif k[0] == 'abs':
                if e > 1:
                    q, rem = divmod(e, 2)
                    r = r * k[1].pow(2 * q)
                    if rem:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
            else:   # cos(args)
                if e > 1:
                    q, rem = divmod(e, 2)
                    s = Poly({((atom('fn', 'sin', k[2]), 2),): -1, (): 1})
                    r = r * s.pow(q)
                    if rem:
                        rest.append((a, 1))
                else:
                    rest.append((a, e))
        else:
            rest.append((a, e))
    return r * Poly({tuple(rest): 1})


ZERO = Poly({})
ONE = Poly({(): 1})


def con(c):
    c = _n(Fraction(c)) if not isinstance(c, int) else c
    return Poly({(): c}) if c else ZERO


def var(*key):
    return Poly({((atom(*key), 1),): 1})


def content(p):
    """(coef, monomial) common factor; coefficient of the canonical leading term."""
    lead = min(p.t, key=lambda m: (sum(abs(e) for _, e in m), m))
    c = p.t[lead]
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            for a in list(common):
                if a in d:
                    common[a] = min(common[a], d[a])
                else:
                    common[a] = min(common[a], 0)
            for a in d:
                if a not in common and d[a] < 0:
                    common[a] = d[a]
    mono = tuple(sorted((a, e) for a, e in common.items() if e))
    return c, mono


def mono_pow(m, k):
    return tuple((a, e * k) for a, e in m)


def inv(p):
    if not p.t:
        return var('div0')
    if len(p.t) == 1:
        (m, c), = p.t.items()
        im = mono_pow(m, -1)
        base = Poly({im: _n(Fraction(1) / c)})
        if any(a in REDUCE for a, _ in im):
            return reduce_mono(im).scale(Fraction(1) / c)
        return base
    c, m = content(p)
    q = p.scale(Fraction(1) / c)
    if m:
        im = mono_pow(m, -1)
        q = Poly({mmul(t, im)[0]: v for t, v in q.t.items()})
    r = Poly({((atom('inv', q), 1),): _n(Fraction(1) / c)})
    if m:
        r = r * inv(Poly({m: 1}))
    return r


def ratsqrt(c):
    c = Fraction(c)
    if c < 0:
        return None
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def squarefree(k):
    """(r, f) with k = r^2 f, f an integer without small square factors."""
    k = Fraction(k)
    n, r = k.numerator * k.denominator, Fraction(1, k.denominator)
    if n > 10 ** 12:
        return Fraction(1), k
    d = 2
    while d * d <= n and d < 2000:
        while n % (d * d) == 0:
            n //= d * d
            r *= d
        d += 1
    return r, Fraction(n)


def sqrt(p):
    c = p.const()
    if c is not None:
        r = ratsqrt(c)
        if r is not None:
            return con(r)
        if c < 0:
            return Poly({((atom('sqrt', p), 1),): 1})
        r, f = squarefree(c)
        return Poly({((atom('sqrt', con(f)), 1),): _n(r)})
    k, _ = content(p)
    k = abs(Fraction(k))
    r = ratsqrt(k)
    f = Fraction(1)
    if r is None:
        r, f = squarefree(k)
    q = p.scale(f / k)
    return Poly({((atom('sqrt', q), 1),): _n(Fraction(r))})


def absv(p):
    c = p.const()
    if c is not None:
        return con(abs(c))
    k, _ = content(p)
    q = p.scale(Fraction(1) / Fraction(k))
    return Poly({((atom('abs', q), 1),): abs(k)})


# ------------------------------------------------------------------- conditions
# A Cond is True | False | ('c', id) | ('not', c) | ('and', a, b) | ('or', a, b)
def cnot(c):
    if c is True:
        return False
    if c is False:
        return True
    if c[0] == 'not':
        return c[1]
    return ('not', c)


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True or a == b:
        return a
    return ('and', a, b)


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def cxor(a, b):
    if a is False:
        return b
    if b is False:
        return a
    if a is True:
        return cnot(b)
    if b is True:
        return cnot(a)
    return cor(cand(a, cnot(b)), cand(cnot(a), b))


def cond_id(kind, p):
    key = (kind, p)
    i = COND_ID.get(key)
    if i is None:
        i = len(CONDS)
        CONDS.append(key)
        COND_ID[key] = i
    return i


def has_huge(p, depth=0):
    if depth > 6:
        return True
    for m in p.t:
        for a, _ in m:
            k = ATOMS[a]
            if k[0] == 'const':
                if k[1] != 'pi' and float(k[1]) >= 1e17:
                    return True
            elif k[0] == 'ite' and any(isinstance(x, Poly) and has_huge(x, depth + 1) for x in k[2:]):
                return True
    return False


def huge_sign(p):
    """Sign forced by a +-numeric_limits::max() term (every finite magnitude is taken to be smaller)."""
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            k = ATOMS[m[0][0]]
            if k[0] == 'const' and k[1] != 'pi' and float(k[1]) >= 1e17:
                if best is None or float(k[1]) > best[0]:
                    best = (float(k[1]), 1 if c > 0 else -1, m)
    if best is None or any(m != best[2] and ATOMS[m[0][0]][0] != 'const' and has_huge(Poly({m: 1})) for m in p.t if m):
        return 0
    return best[1]


def pdiv(p, q):
    """p / q when q divides p exactly, else None."""
    if not q.t:
        return None
    order = lambda m: m
    lq = max(q.t, key=order)
    dq = dict(lq)
    rest = p
    quo = ZERO
    n = 0
    while rest.t:
        n += 1
        if n > 400:
            return None
        lp = max(rest.t, key=order)
        d = dict(lp)
        for a, e in dq.items():
            d[a] = d.get(a, 0) - e
        if any(e < 0 for e in d.values()):
            return None
        m = tuple(sorted((a, e) for a, e in d.items() if e))
        t = Poly({m: _n(Fraction(rest.t[lp]) / q.t[lq])})
        quo = quo + t
        rest = rest - t * q
    return quo


def clear_signed(p, even):
    """Multiply by reciprocal arguments (even powers when the sign matters) until none is left."""
    for _ in range(12):
        low, invs = {}, {}
        for m in p.t:
            for a, e in m:
                if ATOMS[a][0] == 'inv' and e > invs.get(a, 0):
                    invs[a] = e
                if e < low.get(a, 0):
                    low[a] = e
        if low:
            mul = []
            for a, e in low.items():
                e = -e
                if even and e % 2 and ATOMS[a][0] not in ('sqrt', 'abs'):
                    e += 1
                mul.append((a, e))
            p = p * Poly({tuple(sorted(mul)): 1})
            continue
        if not invs:
            return p
        a = max(invs)
        k = invs[a]
        if even and k % 2:
            k += 1
        q = ATOMS[a][1]
        groups = {}
        for m, c in p.t.items():
            e, rest = 0, []
            for x, y in m:
                if x == a:
                    e = y
                else:
                    rest.append((x, y))
            groups.setdefault(k - e, {})[tuple(rest)] = c
        r = ZERO
        for pw, t in groups.items():
            if len(t) * len(q.t) ** pw > 20000:
                return None
            r = r + Poly(t) * q.pow(pw)
        # drop superfluous squares
        while len(r.t) * len(q.t) < 4000:
            d = pdiv(r, q)
            d = d and pdiv(d, q)
            if not d:
                break
            r = d
        p = r
    return None


_canon = {}
CLOSE = Decimal(10) ** -45


def canon(p, even):
    if not any(ATOMS[a][0] == 'inv' or e < 0 for m in p.t for a, e in m):
        return p
    key = (p, even)
    if key not in _canon:
        try:
            r = clear_signed(p, even)
        except Broken:
            r = None
        _canon[key] = p if r is None else r
    return _canon[key]


def numeral(p, depth=0):
    """Value of a closed term to 60 digits and the magnitude of its summands; None when it has variables."""
    v, mag = Decimal(0), Decimal(0)
    for m, c in p.t.items():
        c = Fraction(c)
        x = Decimal(c.numerator) / Decimal(c.denominator)
        for a, e in m:
            k = ATOMS[a]
            if k[0] == 'const':
                y = Decimal('3.14159265358979323846264338327950288419716939937510582097494') if k[1] == 'pi' else Decimal(float(k[1]))
            elif k[0] in ('sqrt', 'abs', 'inv') and depth < 4:
                r = numeral(k[1], depth + 1)
                if r is None:
                    return None
                y = r[0]
                if abs(y) <= r[1] * CLOSE:
                    return None
                if k[0] == 'sqrt':
                    if y < 0:
                        return None
                    y = y.sqrt()
                elif k[0] == 'abs':
                    y = abs(y)
                else:
                    y = 1 / y
            elif k[0] == 'fn' and k[1] in ('sin', 'cos', 'tan', 'asin', 'acos', 'atan') and depth < 4 and isinstance(k[2][0], Poly):
                r = numeral(k[2][0], depth + 1)
                if r is None or not abs(r[0]) < 100 or k[1] in ('asin', 'acos') and abs(r[0]) > 1:
                    return None
                import mpmath
                with mpmath.workdps(60):
                    y = Decimal(mpmath.nstr(getattr(mpmath, k[1])(mpmath.mpf(str(r[0]))), 55))
            else:
                return None
            x *= y ** e
        v += x
        mag += abs(x)
    return v, mag


def const_sign(p):
    """Sign of a closed term, when it is clearly not zero."""
    with localcontext() as ctx:
        ctx.prec = 60
        try:
            r = numeral(p)
        except ArithmeticError:
            return None
    return None if r is None or abs(r[0]) <= r[1] * CLOSE or not r[0].is_finite() else (1 if r[0] > 0 else -1)


def definite(p):
    """Sign of a sum of squares and magnitudes with coefficients of one sign: (sign, whether it can vanish)."""
    s, strict = 0, False
    for m, c in p.t.items():
        if c == 0:
            continue
        x = 1 if c > 0 else -1
        if s and x != s:
            return 0, True
        s = x
        pos = True
        for a, e in m:
            if e % 2 and ATOMS[a][0] not in ('sqrt', 'abs'):
                return 0, True
            pos = pos and ATOMS[a][0] == 'sqrt' and (ATOMS[a][1].const() or 0) > 0
        strict |= pos
    return s, not strict


def lt0(p):
    p = canon(p, True)
    c = p.const()
    if c is not None:
        return c < 0
    s, z = definite(p)
    if s > 0 or s < 0 and not z:
        return s < 0
    h = huge_sign(p)
    if h:
        return h < 0
    h = const_sign(p)
    if h is not None:
        return h < 0
    k, _ = content(p)
    return ('c', cond_id('lt', p.scale(Fraction(1) / abs(Fraction(k)))))


def eq0(p):
    p = canon(p, False)
    c = p.const()
    if c is not None:
        return c == 0
    if not definite(p)[1] or const_sign(p):
        return False
    k, _ = content(p)
    return ('c', cond_id('eq', p.scale(Fraction(1) / Fraction(k))))


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if a is b:
        return a
    if isinstance(a, (Cat, Poison)) or isinstance(b, (Cat, Poison)):
        if isinstance(a, Cat) and isinstance(b, Cat) and [w for w, _ in a.parts] == [w for w, _ in b.parts]:
            return Cat([(w, ite(c, x, y)) for (w, x), (_, y) in zip(a.parts, b.parts)])
        return POISON
    if isinstance(a, Poly) and isinstance(b, Poly):
        if a == b:
            return a
        k = c[0]
        if k == 'not':
            return ite(c[1], b, a)
        if k == 'and':
            return ite(c[1], ite(c[2], a, b), b)
        if k == 'or':
            return ite(c[1], a, ite(c[2], a, b))
        return Poly({((atom('ite', c[1], a, b), 1),): 1})
    if isinstance(a, (Ptr, PIte)) or isinstance(b, (Ptr, PIte)):
        if a == b:
            return a
        return PIte(c, a, b)
    if isinstance(a, dict) and isinstance(b, dict):
        return {k: ite(c, a.get(k, UNDEF), b.get(k, UNDEF)) for k in set(a) | set(b)}
    if iscond(a) or iscond(b):
        a, b = ascond(a), ascond(b)
        return cor(cand(c, a), cand(cnot(c), b))
    raise Broken('ite of %r / %r' % (type(a), type(b)))


class Undef:
    pass


UNDEF = Undef()


def iscond(x):
    return x is True or x is False or (isinstance(x, tuple) and x and x[0] in ('c', 'not', 'and', 'or'))


def ascond(x):
    if iscond(x):
        return x
    if isinstance(x, Poly):
        return cnot(eq0(x))
    raise Broken('not a condition')


def asnum(x):
    if isinstance(x, Poly):
        return x
    if iscond(x):
        return ite(x, ONE, ZERO)
    if isinstance(x, Undef):
        return var('undef')
    raise Broken('not a number: %r' % (x,))


LAX = [False, 0]


def part():
    """Some bytes of a value known only as a whole. On the last attempt to number a law they are an unknown number, from which nothing is concluded."""
    if not LAX[0]:
        raise Broken('load of part of a value')
    LAX[1] += 1
    return var('in', 'loop:part%d' % LAX[1])


def nullish(p):
    """An offset from the null pointer."""
    c = p.const() if isinstance(p, Poly) else None
    return c is not None and -4096 < c < 4096


LAST = [None]       # memory at the last point that is reached whatever the inputs


class Endless(Broken):
    """Every path of a function ends in undefined behaviour or an exception."""


class Ptr:
    __slots__ = ('base', 'off')

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.base == o.base and self.off == o.off

    def __hash__(self):
        return hash((self.base, self.off))


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


# ------------------------------------------------------------- substitution / zero test
class Subst:
    """Assume a set of atomic conditions and rewrite."""

    def __init__(self, assign):
        self.assign = assign
        self.keys = frozenset(assign)
        self.ma = {}
        self.mp = {}
        self.mc = {}

    def poly(self, p):
        if not (p.conds() & self.keys):
            # conditions nested in other conditions are included in conds()
            return p
        r = self.mp.get(p)
        if r is None:
            r = ZERO
            acc = {}
            for m, c in p.t.items():
                if any(ATOM_CONDS[a] & self.keys for a, _ in m):
                    q = con(c)
                    for a, e in m:
                        q = q * self.atom(a).pow(e)
                    r = r + q
                else:
                    acc[m] = c
            r = r + Poly(acc)
            self.mp[p] = r
        return r

    def cond(self, ci):
        if ci in self.assign:
            return self.assign[ci]
        r = self.mc.get(ci)
        if r is None:
            k, p = CONDS[ci]
            if p.conds() & self.keys:
                q = self.poly(p)
                r = lt0(q) if k == 'lt' else eq0(q)
                if isinstance(r, tuple) and r[0] == 'c' and r[1] in self.assign:
                    r = self.assign[r[1]]
            else:
                r = ('c', ci)
            self.mc[ci] = r
        return r

    def atom(self, a):
        r = self.ma.get(a)
        if r is not None:
            return r
        k = ATOMS[a]
        if not (ATOM_CONDS[a] & self.keys):
            r = Poly({((a, 1),): 1})
        elif k[0] == 'ite':
            c = self.cond(k[1])
            if c is True:
                r = self.poly(k[2])
            elif c is False:
                r = self.poly(k[3])
            else:
                r = ite(c, self.poly(k[2]), self.poly(k[3]))
        elif k[0] == 'inv':
            r = inv(self.poly(k[1]))
        elif k[0] == 'sqrt':
            r = sqrt(self.poly(k[1]))
        elif k[0] == 'abs':
            r = absv(self.poly(k[1]))
        elif k[0] == 'let':
            r = self.poly(k[1])
            if len(r.t) > 60:
                r = let(r)
        elif k[0] == 'fn':
            r = fn(k[1], tuple(self.poly(x) if isinstance(x, Poly) else x for x in k[2]))
        else:
            raise Broken('subst ' + k[0])
        self.ma[a] = r
        return r


def int_fold(op, ca, cb):
    if op in ('urem', 'udiv', 'lshr') and (ca < 0 or cb < 0):
        raise Broken('unsigned %s of a negative value' % op)
    if op == 'and':
        return ca & cb
    if op == 'or':
        return ca | cb
    if op == 'xor':
        return ca ^ cb
    if op in ('urem', 'srem'):
        return int(math.fmod(ca, cb)) if ca < 0 else ca % cb
    if op in ('udiv', 'sdiv'):
        return int(ca / cb) if ca < 0 else ca // cb
    if op == 'shl':
        return ca << cb
    if op in ('lshr', 'ashr'):
        return ca >> cb
    return None


INTOPS = {'and', 'or', 'xor', 'urem', 'srem', 'udiv', 'sdiv', 'shl', 'lshr', 'ashr'}


def fn(name, args):
    if name in INTOPS and len(args) == 2 and all(isinstance(x, Poly) for x in args):
        ca, cb = args[0].const(), args[1].const()
        if ca is not None and cb is not None and ca == int(ca) and cb == int(cb):
            return con(int_fold(name, int(ca), int(cb)))
        if name in ('and', 'or') and (ca is not None or cb is not None):
            # Normal form of masks: or(and(x, m), a), m and a disjoint.
            x, k = (args[0], cb) if cb is not None else (args[1], ca)
            m, o, k = -1, 0, int(k)
            while len(x.t) == 1:
                (mono, c), = x.t.items()
                if c != 1 or len(mono) != 1 or mono[0][1] != 1:
                    break
                kk = ATOMS[mono[0][0]]
                if kk[0] != 'fn' or kk[1] not in ('and', 'or') or kk[2][1].const() is None:
                    break
                y = int(kk[2][1].const())
                if kk[1] == 'or':
                    o |= y & m
                else:
                    m &= y
                x = kk[2][0]
            if name == 'and':
                m, o = m & k, o & k
            else:
                o |= k
            m &= ~o
            if m == 0:
                return con(o)
            if m != -1:
                x = Poly({((atom('fn', 'and', (x, con(m))), 1),): 1})
            if o:
                x = Poly({((atom('fn', 'or', (x, con(o))), 1),): 1})
            return x
    if name in ('sin', 'tan', 'asin', 'atan', 'cos') and isinstance(args[0], Poly):
        a = args[0]
        c = a.const()
        if c == 0:
            return ONE if name == 'cos' else ZERO
        if c is None:
            q = (a * inv(PI)).scale(2)
            if q.const() is not None and q.const() == int(q.const()) and name in ('sin', 'cos'):
                return con((0, 1, 0, -1)[(int(q.const()) + (name == 'cos')) % 4])
            k, _ = content(a)
            if k < 0:
                if name == 'cos':
                    args = (-a,)
                else:
                    return -fn(name, (-a,))
    if name == 'atan2' and args[0].const() == 0 and (args[1].const() or 0) > 0:
        return ZERO
    if name == 'atan2' and args[1].const() == 0 and (args[0].const() or 0) != 0:
        return fconst(math.pi).scale(Fraction(1 if args[0].const() > 0 else -1, 2))
    if name == 'acos' and args[0].const() in (1, 0, -1):
        return fconst(math.pi).scale(Fraction(1 - int(args[0].const()), 2))
    if name in ('sin', 'cos') and isinstance(args[0], Poly) and len(args[0].t) == 1:
        (mono, c), = args[0].t.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            k = ATOMS[mono[0][0]]
            if k[0] == 'fn' and k[1] == 'acos' and isinstance(k[2][0], Poly):       # 0 <= acos <= pi
                return k[2][0] if name == 'cos' else sqrt(ONE - k[2][0] * k[2][0])
    return var('fn', name, args)


def implied(ci, val):
    """Assignments that follow from assuming condition ci := val."""
    out = {ci: val}
    k, p = CONDS[ci]
    if not val and k == 'lt':
        return out
    neg = COND_ID.get(('lt', (-p)))
    if k == 'lt' and val:
        if neg is not None:
            out[neg] = False
        for q in (p, -p):
            e = COND_ID.get(('eq', q))
            if e is not None:
                out[e] = False
            kk, _ = content(q)
            e = COND_ID.get(('eq', q.scale(Fraction(1) / Fraction(kk))))
            if e is not None:
                out[e] = False
    if k == 'eq' and val:
        for q in (p, -p):
            kk, _ = content(q)
            e = COND_ID.get(('lt', q.scale(Fraction(1) / abs(Fraction(kk)))))
            if e is not None:
                out[e] = False
    return out


class Refuted(Exception):
    def __init__(self, path, residual):
        self.path, self.residual = path, residual


def clear_denominators(p, guard=40):
    while True:
        low = {}
        invs = {}
        for m in p.t:
            for a, e in m:
                if ATOMS[a][0] == 'inv':
                    if e > invs.get(a, 0):
                        invs[a] = e
                if e < low.get(a, 0):
                    low[a] = e
        if low:
            mul = tuple(sorted((a, -e) for a, e in low.items()))
            p = p * Poly({mul: 1})
            continue
        if not invs:
            return p
        guard -= 1
        if guard < 0:
            raise Broken('denominators too deep')
        # choose the highest-numbered (outermost) reciprocal first
        a = max(invs)
        k = invs[a]
        q = ATOMS[a][1]
        groups = {}
        for m, c in p.t.items():
            e = 0
            rest = []
            for x, y in m:
                if x == a:
                    e = y
                else:
                    rest.append((x, y))
            groups.setdefault(k - e, {})[tuple(rest)] = c
        r = ZERO
        for pw, t in groups.items():
            r = r + Poly(t) * q.pow(pw)
        p = r


def check_zero(p, path=(), stats=None, depth=0):
    """Raises Refuted when p is not identically zero for some outcome of the tests."""
    if stats is not None:
        stats['cases'] = stats.get('cases', 0) + 1
        if stats['cases'] > 200000:
            raise Broken('too many cases')
    if not p.t:
        return
    cs = p.conds()
    if not cs:
        q = clear_denominators(p)
        if q.t:
            if q.conds():
                return check_zero(q, path, stats, depth + 1)
            while any(ATOMS[a][0] == 'let' for m in q.t for a, _ in m):
                q = unlet(q, 3000000)
                if q is None:
                    raise Broken('named factors too large to expand')
                q = clear_denominators(q)
                if not q.t:
                    return
            import lin
            if lin.excluded(path) or lin.forced_zero(path, q) or lin.forced_zero(path, p):
                if stats is not None:
                    stats['pruned'] = stats.get('pruned', 0) + 1
                return
            raise Refuted(path, q)
        return
    if stats is not None and stats['cases'] > 200 and len(path) >= 3:
        import lin
        if lin.excluded_fast(path):
            stats['pruned'] = stats.get('pruned', 0) + 1
            return
    ci = min(cs)
    for v in (True, False):
        s = Subst(implied(ci, v))
        check_zero(s.poly(p), path + ((ci, v),), stats, depth + 1)


def same(a, b, stats=None):
    check_zero(a - b, (), stats)


# ------------------------------------------------------------------ printing
def show(p, limit=8):
    if not p.t:
        return '0'
    parts = []
    for m, c in list(p.t.items())[:limit]:
        f = [] if c == 1 and m else [str(c)]
        for a, e in m:
            s = show_atom(a)
            f.append(s if e == 1 else '%s^%d' % (s, e))
        parts.append('*'.join(f))
    if len(p.t) > limit:
        parts.append('... (%d terms)' % len(p.t))
    return ' + '.join(parts)


def show_atom(a):
    k = ATOMS[a]
    if k[0] == 'in':
        return k[1]
    if k[0] == 'ite':
        return 'ite(c%d,..)' % k[1]
    if k[0] == 'fn':
        return '%s(%s)' % (k[1], ','.join(show(x, 3) if isinstance(x, Poly) else str(x) for x in k[2]))
    if len(k) > 1 and isinstance(k[1], Poly):
        return '%s(%s)' % (k[0], show(k[1], 3))
    return '/'.join(str(x) for x in k)


def show_path(path):
    return '; '.join(show_cond(*x) for x in path)


def show_cond(ci, v):
    k, p = CONDS[ci]
    op = {'lt': ('<', '>='), 'eq': ('==', '!=')}[k][0 if v else 1]
    return '%s %s 0' % (show(p, 4), op)


# ------------------------------------------------------------------ constants
PI = Poly({((atom('const', 'pi'), 1),): 1})


EPS = 2.0 ** -52


def fconst(v):
    if v == 0:
        return ZERO
    if math.isinf(v) or math.isnan(v):
        return var('const', repr(v))
    a = abs(v)
    if a < 1e-6 or a > 1e9:
        r = con(1) if v > 0 else con(-1)
        return r * var('const', repr(a))
    if a in (1 - EPS, 1 + EPS):     # folded by the compiler: keep apart from one
        r = ONE + var('const', repr(EPS)).scale(1 if a > 1 else -1)
        return r if v > 0 else r.scale(-1)
    f = Fraction(v)
    for den in (1024, 100000):
        s = f.limit_denominator(den)
        if s and abs(float(s) - v) <= 2e-16 * a * 4:
            return con(s)
        if s and abs(float(s) - v) <= 1.2e-7 * a and struct_is_float(v):
            return con(s)
    g = Fraction(v / math.pi).limit_denominator(1000)
    if g and abs(float(g) * math.pi - v) <= 1e-14 * a:
        return PI.scale(g)
    if g and struct_is_float(v) and abs(float(g) * math.pi - v) <= 1.2e-7 * a:
        return PI.scale(g)
    g = Fraction(v * math.pi).limit_denominator(1000)
    if g and abs(float(g) / math.pi - v) <= 1e-14 * a:
        return inv(PI).scale(g)
    g = Fraction(v * v).limit_denominator(1024)
    if g and abs(math.sqrt(g) - a) <= 4e-16 * a:
        return sqrt(con(g)).scale(1 if v > 0 else -1)
    return con(f)


def struct_is_float(v):
    import struct
    return struct.unpack('f', struct.pack('f', v))[0] == v


# ------------------------------------------------------------------ interpreter
PURE1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'exp', 'log', 'floor', 'ceil', 'round', 'trunc'}


def natural_loops(f):
    """header -> set of blocks of its natural loop (retreating edges define the headers)."""
    out = {}
    for n in f.rpo:
        for h in f.blocks[n].succ:
            if h in f.rpoidx and f.rpoidx[h] <= f.rpoidx[n]:
                body = out.setdefault(h, {h})
                st = [n]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st += [p for p in f.blocks[x].pred if p in f.rpoidx]
    return out


def catpart(v, at, size):
    """Adjacent values from byte at; the bytes past the end are zero."""
    out, o = [], 0
    for w, x in v.parts:
        if o >= at and o - at < size:
            if o - at + abs(w) > size:
                raise Broken('part of adjacent values')
            out.append((w, x))
        elif o < at < o + abs(w):
            raise Broken('part of adjacent values')
        o += abs(w)
    n = sum(abs(w) for w, _ in out)
    if n < size:
        out.append((size - n, ZERO))
    if len(out) == 1:
        return out[0][1]
    if len(out) == 2 and out[1][1] is ZERO and isinstance(out[0][1], Poly):
        return out[0][1]        # zero extended: values are kept as signed representatives
    return Cat(out)


REREAD = {}


def reread(v):
    """A double whose bytes were stored as an integer constant.  Doubles moved as integers keep their value."""
    if isinstance(v, Poly):
        c = v.const()
        if c is not None:
            if isinstance(c, int) and 1 << 52 <= abs(c) < 1 << 63:
                return fconst(struct.unpack('<d', struct.pack('<q', c))[0])
        elif len(v.t) == 1:
            (m, k), = v.t.items()
            if k == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'ite':
                r = REREAD.get(m[0][0])
                if r is None:
                    a = ATOMS[m[0][0]]
                    x, y = reread(a[2]), reread(a[3])
                    r = REREAD[m[0][0]] = v if x is a[2] and y is a[3] else ite(('c', a[1]), x, y)
                return r
    return v


def asptr(v):
    """A pointer read from memory: zero bytes are the null pointer."""
    if isinstance(v, PIte):
        a, b = asptr(v.a), asptr(v.b)
        return v if a is v.a and b is v.b else PIte(v.c, a, b)
    return pointer(v)


BASES = {}


def pointer(v):
    """The pointer whose address is a number."""
    if isinstance(v, (Ptr, PIte)):
        return v
    if isinstance(v, Poly):
        if v.const() == 0:
            return Ptr(('null',), ZERO)
        at = [m[0][0] for m, c in v.t.items() if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0] in BASES]
        if len(at) == 1:
            return Ptr(BASES[at[0]], v - Poly({((at[0], 1),): 1}))
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == 'ite':
                k = ATOMS[m[0][0]]
                return PIte(('c', k[1]), pointer(k[2]), pointer(k[3]))
    return v        # the bits of a value that is no address, moved around as a pointer


class Gvn:
    """Value-numbers one function (a loop that survives unrolling is cut at its head); self.ret and self.mem describe its effect."""

    def __init__(self, mod, f, inputs=None, opaque=None, argvals=None, prefix='a', mem=None, caller=None, at=''):
        self.m, self.f = mod, f
        self.val = {}
        self.inputs = inputs or {}
        self.opaque = opaque or {}
        self.prefix = prefix
        self.nins = 0
        self.mem0 = mem if mem is not None else Mem()
        self.caller, self.at = caller, at
        self.level = caller.level + 1 if caller else 0
        if not caller:
            mod.guards.clear()
        self.dom = llir.idoms(f)
        self.bcond = {}
        self.loops = natural_loops(f) if f.cyclic else {}
        self.defs = {i.res: i for b in f.blocks.values() for i in b.ins if i.res}
        for i, (t, n, at) in enumerate(f.params):
            if argvals and i in argvals:
                self.val[n] = argvals[i]
            elif t == 'ptr':
                self.val[n] = Ptr(('arg', i), ZERO)
            elif t == 'i1':
                self.val[n] = cnot(eq0(var('in', '%s%d' % (prefix, i))))
            else:
                self.val[n] = var('in', '%s%d' % (prefix, i))
        self.out = {}
        self.run()

    # --- helpers
    def ev(self, v, ty=None):
        k = v[0]
        if k == 'reg':
            if v[1] not in self.val:
                raise Broken('pointer computed by a loop: %s' % v[1])
            return self.val[v[1]]
        if k == 'fp':
            return fconst(v[1])
        if k == 'int':
            if ty == 'i1':
                return bool(v[1])
            return con(v[1])
        if k == 'undef':
            return UNDEF
        if k == 'null':
            return Ptr(('null',), ZERO)
        if k == 'zero':
            if isinstance(ty, tuple):
                return {}
            return ZERO
        if k == 'global':
            return Ptr(('glob', v[1]), ZERO)
        if k == 'expr' and v[1] == 'gep':
            base = self.ev(v[3][0][1], 'ptr')
            return self.gep(base, v[2], [self.ev(x, t) for t, x in v[3][1:]])
        if k == 'expr' and v[1] == 'ptrtoint':
            return self.address(self.ev(v[3], v[2]))
        if k == 'expr' and v[1] == 'inttoptr':
            return pointer(self.ev(v[3], v[2]))
        raise Broken('operand %r' % (v,))

    def gep(self, base, bt, idx):
        if isinstance(base, PIte):
            return ite(base.c, self.gep(base.a, bt, idx), self.gep(base.b, bt, idx))
        if isinstance(base, Undef):
            return base
        if not isinstance(base, Ptr):
            raise Broken('gep base %r' % (base,))
        off = base.off
        off = off + asnum(idx[0]).scale(llir.size_align(self.m, bt)[0])
        t = bt
        for ix in idx[1:]:
            c = asnum(ix).const()
            while t[0] == 'named':
                t = self.m.structs[t[1]]
            if t[0] in ('arr', 'vec'):
                off = off + asnum(ix).scale(llir.size_align(self.m, t[2])[0])
                t = t[2]
            else:
                if c is None:
                    raise Broken('struct index')
                o, t = llir.field_offset(self.m, t, int(c))
                off = off + con(o)
        return Ptr(base.base, off)

    def offcases(self, off, k):
        """Push the conditions of an offset outwards: k(constant offset) -> value."""
        c = off.const()
        if c is not None:
            return k(int(c))
        cs = off.conds()
        if not cs:
            raise Broken('symbolic address %s' % show(off))
        ci = min(cs)
        a = self.offcases(Subst(implied(ci, True)).poly(off), k)
        b = self.offcases(Subst(implied(ci, False)).poly(off), k)
        return ite(('c', ci), a, b)

    def load(self, mem, p, ty):
        p = self.simplify(p)
        if isinstance(p, PIte):
            return ite(p.c, self.load(mem, p.a, ty), self.load(mem, p.b, ty))
        if isinstance(p, Undef):
            return UNDEF
        if nullish(p):
            return UNDEF
        if not isinstance(p, Ptr):
            raise Broken('load from %s' % (show(p) if isinstance(p, Poly) else repr(p)))

        return self.offcases(p.off, lambda o: self.fetch(mem, p.base, o, ty))

    def fetch(self, mem, base, o, ty):
        ob = mem.get(base)
        size = llir.SCALAR_SIZE.get(ty, 8) if isinstance(ty, str) else 8
        if ob is None:
            return self.initial(base, o, ty, mem)
        w = ob.w.get(o)
        if w is not None and abs(w) == size:
            if ob.d[o] is POISON:
                return part()
            return reread(ob.d[o]) if w == 8 and ty == 'double' else ob.d[o]
        if w is not None and abs(w) > size or w is None and cover(ob, o) is not None:
            t = o if w is not None else cover(ob, o)
            v = self.pieces(ob.d[t], ob.w[t], [o - t, o - t + size])
            v = v[0 if o == t else 1]
            return part() if v is POISON else v
        # Composed of narrower values.
        if w is None and not any(o + k in ob.d for k in range(1, size)):
            return self.initial(base, o, ty, mem)
        parts, at = [], 0
        while at < size:
            w = ob.w.get(o + at)
            if w is None:
                n = 1
                while at + n < size and o + at + n not in ob.d:
                    n += 1
                v = self.initial(base, o + at, ty, mem)
                if v is not UNDEF:
                    raise Broken('load of a value stored in parts')
                parts.append((n, UNDEF))
            else:
                n = abs(w)
                v = ob.d[o + at]
                if at + n > size:
                    v = self.pieces(v, w, [size - at])[0]
                    w = n = size - at
                if v is POISON:
                    return part()
                parts.append((w, v))
            at += n
        if all(v is UNDEF for _, v in parts):
            return UNDEF
        total = at = 0
        for w, v in parts:
            if isinstance(v, Undef):
                v = ZERO
            c = v.const() if isinstance(v, Poly) else int(v) if isinstance(v, bool) else None
            b = bits(c, w) if c is not None else None
            if b is None:
                return Cat(parts)
            total |= b << (8 * at)
            at += abs(w)
        return con(signed(total, size))

    def pieces(self, v, w, cuts):
        """The bytes of a stored value cut at the given offsets."""
        at = [0] + [c for c in cuts if 0 < c < abs(w)] + [abs(w)]
        n = len(at) - 1
        if isinstance(v, Undef):
            return [UNDEF] * n
        c = v.const() if isinstance(v, Poly) else int(v) if isinstance(v, bool) else None
        b = bits(c, w) if c is not None else None
        if b is None:
            return [POISON] * n
        return [con(signed(b >> (8 * x), y - x)) for x, y in zip(at, at[1:])]

    def cut(self, ob, o):
        """No value of the object lies across byte o."""
        t = cover(ob, o)
        if t is None:
            return
        v, w = ob.d[t], ob.w[t]
        a, b = self.pieces(v, w, [o - t])
        ob.d[t], ob.w[t] = a, o - t
        ob.d[o], ob.w[o] = b, abs(w) - (o - t)

    def put(self, ob, o, v, w):
        """Stores a value of width w, replacing whatever was there."""
        n = abs(w)
        if ob.w.get(o, n) not in (n, -n) or any(o + k in ob.d for k in range(1, n)) or cover(ob, o) is not None:
            self.cut(ob, o)
            self.cut(ob, o + n)
            for k in range(n):
                ob.d.pop(o + k, None)
                ob.w.pop(o + k, None)
        if isinstance(v, Cat):
            for x, y in v.parts:
                ob.d[o], ob.w[o] = y, x
                o += abs(x)
            return
        ob.d[o], ob.w[o] = v, w

    def clear(self, ob, o, n):
        self.cut(ob, o)
        self.cut(ob, o + n)
        for k in [k for k in ob.d if o <= k < o + n]:
            del ob.d[k], ob.w[k]

    def join(self, mems, combine, regen=None):
        """Memory where control flow meets; combine(list of values) -> value."""
        out = Mem()
        bases = {}
        for m in mems:
            m.tok = object()
            bases.update(m.o)
        for b in bases:
            obs = [m.o.get(b) for m in mems]
            if all(x is obs[0] for x in obs):
                out.o[b] = obs[0]
                continue
            gens = {x.gen if x is not None else None for x in obs}
            ob = out.o[b] = Obj(out.tok, gens.pop() if len(gens) == 1 else regen(b) if regen else None)
            if gens:
                if regen is None:
                    raise Broken('cut loop')
            obs = [x if x is not None else Obj(None) for x in obs]
            keys = {}
            clash = False
            for x in obs:
                for k, w in x.w.items():
                    if abs(keys.setdefault(k, w)) != abs(w):
                        clash = True
            if not clash:
                clash = any(k % 8 and k not in x.d and cover(x, k) is not None for k in keys for x in obs)
            if clash:
                marks = sorted({k for x in obs for k in x.w} | {k + abs(w) for x in obs for k, w in x.w.items()})
                obs = [x.copy(None) for x in obs]
                for x in obs:
                    for k in marks:
                        self.cut(x, k)
                keys = {k: w for x in obs for k, w in x.w.items()}
            for k, w in keys.items():
                vals = [x.d.get(k) for x in obs]
                if all(v is not None and v is vals[0] for v in vals):
                    ob.d[k] = vals[0]
                else:
                    ob.d[k] = combine([v if v is not None else self.initial(b, k, 'double', m) for v, m in zip(vals, mems)])
                ob.w[k] = w
        return out

    def initial(self, base, o, ty, mem=None):
        g = mem.get(base) if mem is not None else None
        g = g.gen if g is not None else None
        if g is not None:
            nm = '%s+%d' % (g, o)
            if ty == 'ptr':
                raise Broken('pointer reloaded after a loop')
            v = var('in', nm)
            return cnot(eq0(v)) if ty == 'i1' else v
        if base[0] == 'arg':
            nm = self.inputs.get((base[1], o)) or '%s%d+%d' % (self.prefix, base[1], o)
            if isinstance(nm, Poly):
                return nm
            if ty == 'ptr':
                return Ptr(('mem', nm), ZERO)
            v = var('in', nm)
            if ty == 'i1':
                return cnot(eq0(v))
            return v
        if base[0] == 'mem':
            nm = '%s->%d' % (base[1], o)
            return var('in', nm) if ty != 'ptr' else Ptr(('mem', nm), ZERO)
        if base[0] == 'alloca':
            return UNDEF
        if base[0] in ('ghost', 'freed'):
            return ZERO
        if base[0] == 'null':
            return UNDEF
        if base[0] == 'glob':
            g = self.m.globals.get(base[1])
            if g is None:
                if base[1] == '@__libc_single_threaded':        # plain or atomic counting: the same counts
                    return ONE
                raise Broken('global %s' % base[1])
            return self.ginit(g[0], g[1], o, ty)
        raise Broken('load base %r' % (base,))

    def ginit(self, t, v, o, ty):
        if v[0] == 'zero':
            return ZERO if ty != 'i1' else False
        if isinstance(t, tuple):
            while t[0] == 'named':
                t = self.m.structs[t[1]]
            if v[0] == 'bytes':
                return con(v[1][o])
            n = t[1] if t[0] in ('arr', 'vec') else len(t[1])
            for i in range(n):
                fo, ft = llir.field_offset(self.m, t, i)
                s = llir.size_align(self.m, ft)[0]
                if fo <= o < fo + s:
                    return self.ginit(ft, v[1][i][1], o - fo, ty)
            return UNDEF        # past the end
        return self.ev(v, t)

    def store(self, mem, p, v, guard=True, size=8):
        p = self.simplify(p)
        if isinstance(p, PIte):
            self.store(mem, p.a, v, cand(guard, p.c), size)
            self.store(mem, p.b, v, cand(guard, cnot(p.c)), size)
            return
        if isinstance(p, Undef) or isinstance(p, Ptr) and p.base[0] == 'null':
            return
        c = p.off.const()
        if c is None:
            cs = p.off.conds()
            if not cs:
                raise Broken('symbolic store address %s' % show(p.off))
            ci = min(cs)
            for b in (True, False):
                g = ('c', ci) if b else ('not', ('c', ci))
                self.store(mem, Ptr(p.base, Subst(implied(ci, b)).poly(p.off)), v, cand(guard, g), size)
            return
        o = int(c)
        if guard is not True and guard is not False:
            v = ite(guard, v, self.fetch(mem, p.base, o, 'double' if size == -8 else 'i%d' % (8 * abs(size))))
        if guard is not False:
            self.put(mem.edit(p.base), o, v, size)

    # --- loops: state at the head of an iteration is arbitrary
    def bases(self, v, seen):
        if v[0] == 'global':
            return {('glob', v[1])}
        if v[0] in ('null', 'undef', 'int'):
            return set()
        if v[0] == 'expr':
            return self.bases(v[3][0][1], seen)
        r = v[1]
        if r in seen:
            return set()
        seen.add(r)
        if r in self.val and isinstance(self.val[r], (Ptr, PIte)):
            out, st = set(), [self.val[r]]
            while st:
                x = st.pop()
                if isinstance(x, PIte):
                    st += [x.a, x.b]
                else:
                    out.add(x.base)
            return out
        d = self.defs.get(r)
        if d is None:
            raise Broken('pointer %s' % r)
        if d.op == 'gep':
            return self.bases(d.args[0], seen)
        if d.op in ('phi',):
            return set().union(*[self.bases(a, seen) for a in d.args])
        if d.op == 'select':
            return self.bases(d.args[1], seen) | self.bases(d.args[2], seen)
        if d.op == 'alloca':
            return {('alloca', r)}
        raise Broken('%s: store through %s inside a loop' % (self.f.name, d.text.strip()))

    def havoc(self, bn, mem):
        hit = set()
        for x in self.loops[bn]:
            for i in self.f.blocks[x].ins:
                if i.op == 'store':
                    hit |= self.bases(i.args[1], set())
                elif i.op == 'call':
                    c = i.x['callee'].lstrip('@')
                    if c.startswith('llvm.mem'):
                        hit |= self.bases(i.args[0], set())
        for b in hit:
            mem.o[b] = Obj(mem.tok, '%s@%s' % (b[-1], bn))

    def opaque_block(self, b, bn):
        """Nothing is assumed about what a loop computes: its values and exits are unknowns."""
        for i in b.ins:
            if i.op in ('br', 'switch'):
                if i.args:
                    v = var('in', 'exit:%s' % bn)
                    self.bcond[bn] = cnot(eq0(v)) if i.op == 'br' else v
                continue
            if i.op in ('ret', 'unreachable'):
                raise Broken('return inside a loop')
            if i.op == 'call' and not self.harmless(i):
                raise Broken('call inside a loop: ' + i.text.strip()[:80])
            if not i.res:
                continue
            self.nins += 1
            ty = 'i1' if i.op in ('fcmp', 'icmp') else i.ty
            if i.op in ('gep', 'alloca') or ty == 'ptr':
                continue        # resolved through bases() when stored through, unusable otherwise
            v = var('in', 'loop:%s:%s' % (bn, i.res))
            self.val[i.res] = cnot(eq0(v)) if ty == 'i1' else v

    def harmless(self, i):
        c = i.x['callee'].lstrip('@')
        return c.startswith('llvm.') or c.rstrip('f') in PURE1 or c in ('atan2', 'fmod', 'pow')

    # --- control
    def gate(self, b, pick):
        """Gated value at the entry of merge block b; pick(pred) -> value on that edge."""
        f = self.f
        d = self.dom[b]
        memo = {}

        def edge(x, y):
            if f.rpoidx[y] <= f.rpoidx[x]:
                return UNDEF        # next iteration
            if y == b:
                return pick(x)
            if f.rpoidx[y] > f.rpoidx[b]:
                return UNDEF        # this way bypasses b
            return at(y)

        def at(x):
            if x in memo:
                return memo[x]
            t = f.blocks[x].ins[-1]
            if t.op == 'br':
                if not t.args:
                    r = edge(x, t.x[0])
                else:
                    c = self.bcond[x]
                    r = self.lazy_ite(c, lambda: edge(x, t.x[0]), lambda: edge(x, t.x[1]))
            elif t.op == 'switch':
                v = self.bcond[x]
                r = edge(x, t.x[0])
                for k, l in reversed(t.x[1]):
                    r = ite(eq0(v - con(k)), edge(x, l), r)
            else:
                r = UNDEF
            memo[x] = r
            return r
        return at(d)

    def lazy_ite(self, c, fa, fb):
        if c is True:
            return fa()
        if c is False:
            return fb()
        return ite(c, fa(), fb())

    def run(self):
        f = self.f
        mem_out = {}
        rets = []
        inloop = set().union(*self.loops.values()) if self.loops else set()
        for bn in f.rpo:
            b = f.blocks[bn]
            preds = [p for p in b.pred if p in f.rpoidx and f.rpoidx[p] < f.rpoidx[bn]]
            if bn == f.entry:
                mem = self.mem0.clone()
            elif len(preds) == 1:
                mem = mem_out[preds[0]].clone()
            else:
                mem = self.join([mem_out[p] for p in preds], lambda vals: self.gate(bn, lambda p: vals[preds.index(p)]), lambda b: '%s@%s' % (b[-1], bn))
            if bn in self.loops:
                self.havoc(bn, mem)
            self.cur = bn
            if bn in inloop:
                self.opaque_block(b, bn)
                mem_out[bn] = mem
                continue
            for ins in b.ins:
                self.nins += 1
                self.step(ins, mem, bn)
            t = b.ins[-1]
            if t.op == 'ret':
                rets.append((bn, self.ev(t.args[0], t.ty) if t.args else None, mem))
            mem_out[bn] = mem
        if len(rets) != 1:
            if not rets:
                raise Broken('%s: no return' % f.name)
            raise Broken('%s: several returns' % f.name)
        self.ret = rets[0][1]
        self.mem = rets[0][2]

    def step(self, i, mem, bn):
        op = i.op
        V = self.val
        ev = self.ev
        if op == 'phi':
            if len(i.args) == 1:
                V[i.res] = ev(i.args[0], i.ty)
                return
            by = {l: v for v, l in zip(i.args, i.x)}
            V[i.res] = self.gate(bn, lambda p: ev(by[p], i.ty))
        elif op in ('fadd', 'add', 'fsub', 'sub', 'fmul', 'mul', 'fdiv'):
            a, b = ev(i.args[0], i.ty), ev(i.args[1], i.ty)
            if i.ty == 'i1':
                raise Broken('i1 arithmetic')
            if isinstance(a, Undef) or isinstance(b, Undef):
                V[i.res] = UNDEF
                return
            a, b = asnum(a), asnum(b)
            if op in ('fadd', 'add'):
                r = a + b
            elif op in ('fsub', 'sub'):
                r = a - b
            elif op in ('fmul', 'mul'):
                r = a * b
            else:
                r = a * inv(b)
            V[i.res] = r
        elif op == 'fneg':
            V[i.res] = -asnum(ev(i.args[0], i.ty))
        elif op == 'freeze':
            V[i.res] = ev(i.args[0], i.ty)
        elif op == 'fcmp' or op == 'icmp':
            if i.ty == 'ptr':
                a, b = ev(i.args[0], 'ptr'), ev(i.args[1], 'ptr')
                V[i.res] = self.ptrcmp(i.x, a, b)
                return
            a, b = ev(i.args[0], i.ty), ev(i.args[1], i.ty)
            if i.ty == 'i1':
                x = cxor(ascond(a), ascond(b))
                V[i.res] = x if i.x == 'ne' else cnot(x)
                return
            a, b = asnum(a), asnum(b)
            if op == 'icmp' and i.x in ('ult', 'ule', 'ugt', 'uge'):
                # Integers are kept as signed representatives: a negative one is greater than any other when unsigned.
                na, nb = compare('slt', a, ZERO), compare('slt', b, ZERO)
                if na is False and nb is False:
                    V[i.res] = compare(i.x, a, b)
                else:
                    V[i.res] = ite(cxor(na, nb), nb if i.x[1] == 'l' else na, compare(i.x, a, b))
                return
            V[i.res] = compare(i.x, a, b)
        elif op in ('and', 'or', 'xor'):
            a, b = ev(i.args[0], i.ty), ev(i.args[1], i.ty)
            if i.ty == 'i1':
                a, b = ascond(a), ascond(b)
                V[i.res] = {'and': cand, 'or': cor, 'xor': cxor}[op](a, b)
            else:
                V[i.res] = self.intop(op, asnum(a), asnum(b), i)
        elif op == 'frem':
            V[i.res] = fn('fmod', (asnum(ev(i.args[0], i.ty)), asnum(ev(i.args[1], i.ty))))
        elif op == 'lshr' and isinstance(ev(i.args[0], i.ty), Cat):
            c = asnum(ev(i.args[1], i.ty)).const()
            if c is None or int(c) % 8:
                raise Broken('shift of adjacent values')
            v = ev(i.args[0], i.ty)
            V[i.res] = catpart(v, int(c) // 8, llir.SCALAR_SIZE[i.ty])
        elif op in ('urem', 'srem', 'udiv', 'sdiv', 'shl', 'lshr', 'ashr'):
            V[i.res] = self.intop(op, asnum(ev(i.args[0], i.ty)), asnum(ev(i.args[1], i.ty)), i)
        elif op == 'select':
            V[i.res] = ite(ascond(ev(i.args[0], 'i1')), ev(i.args[1], i.ty), ev(i.args[2], i.ty))
        elif op in ('zext', 'sext', 'trunc', 'fpext', 'fptrunc', 'uitofp', 'sitofp', 'bitcast'):
            v = ev(i.args[0], i.x)
            if isinstance(v, Cat) and op == 'trunc':
                v = catpart(v, 0, llir.SCALAR_SIZE[i.ty])
            elif isinstance(v, Cat) and op == 'bitcast':
                pass
            elif op == 'sext' and i.x == 'i1':
                v = ite(ascond(v), con(-1), ZERO)
            elif op == 'trunc' and i.ty == 'i1':
                v = v if iscond(v) else cnot(eq0(asnum(v)))
            elif op == 'zext' and i.x == 'i1' and i.ty == 'i8':
                pass        # a stored bool keeps its condition
            elif op == 'zext' and isinstance(v, Poly) and (v.const() or 0) < 0 and i.x in llir.SCALAR_SIZE:
                v = con(v.const() + (1 << 8 * llir.SCALAR_SIZE[i.x]))
            elif op == 'trunc' and isinstance(v, Poly) and v.const() is not None and i.ty in llir.SCALAR_SIZE:
                v = con(signed(int(v.const()), llir.SCALAR_SIZE[i.ty]))
            elif iscond(v) and i.ty != 'i1':
                v = asnum(v)
            V[i.res] = v
        elif op in ('fptoui', 'fptosi'):
            V[i.res] = fn(op, (asnum(ev(i.args[0], i.x)),))
        elif op == 'alloca':
            V[i.res] = Ptr(('alloca', self.block_id(i.res)), ZERO)
            n = asnum(ev(i.args[0], 'i64')).const() if i.args else 1
            self.m.sizes[V[i.res].base] = None if n is None else int(n) * llir.size_align(self.m, i.ty)[0]
        elif op == 'ptrtoint':
            V[i.res] = self.address(ev(i.args[0], 'ptr'))
        elif op == 'inttoptr':
            V[i.res] = pointer(ev(i.args[0], i.x))
        elif op == 'gep':
            bt, tys = i.x
            V[i.res] = self.gep(ev(i.args[0], 'ptr'), bt, [ev(a, t) for a, t in zip(i.args[1:], tys[1:])])
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            p = ev(i.args[0], 'ptr')
            old, v = asnum(self.load(mem, p, i.ty)), asnum(ev(i.args[1], i.ty))
            if i.x == 'xchg':
                new = v
            elif i.x in ('add', 'sub'):
                new = old + v if i.x == 'add' else old - v
            elif i.x in ('or', 'and', 'xor'):
                new = self.intop(i.x, old, v, i)
            else:
                raise Broken('atomicrmw ' + str(i.x))
            V[i.res] = old
            self.store(mem, p, new, True, llir.SCALAR_SIZE.get(i.ty, 8))
        elif op == 'cmpxchg':
            p = ev(i.args[0], 'ptr')
            old, want, new = (asnum(self.load(mem, p, i.ty)), asnum(ev(i.args[1], i.ty)), asnum(ev(i.args[2], i.ty)))
            c = eq0(old - want)
            V[i.res] = {(0,): old, (1,): c}
            self.store(mem, p, ite(c, new, old), True, llir.SCALAR_SIZE.get(i.ty, 8))
        elif op == 'load':
            self.touch(mem, i, ev(i.args[0], 'ptr'))
            p = self.simplify(ev(i.args[0], 'ptr'))
            if self.access(mem, p, llir.SCALAR_SIZE.get(i.ty, 8) if isinstance(i.ty, str) else 1) is True:
                V[i.res] = UNDEF
                return
            v = self.load(mem, p, i.ty)
            V[i.res] = asptr(v) if i.ty == 'ptr' else v
        elif op == 'store':
            self.touch(mem, i, ev(i.args[1], 'ptr'))
            if self.access(mem, self.simplify(ev(i.args[1], 'ptr')), llir.SCALAR_SIZE.get(i.ty, 8) if isinstance(i.ty, str) else 1) is True:
                return
            self.store(mem, ev(i.args[1], 'ptr'), ev(i.args[0], i.ty), True, (-1 if i.ty in ('double', 'float') else 1) * llir.SCALAR_SIZE.get(i.ty, 8) if isinstance(i.ty, str) else 8)
        elif op == 'call':
            self.call(i, mem)
        elif op == 'extractvalue':
            a = ev(i.args[0], i.ty)
            if isinstance(a, Undef):
                V[i.res] = UNDEF
            else:
                V[i.res] = a.get(tuple(i.x), UNDEF)
        elif op == 'insertvalue':
            a = ev(i.args[0], i.ty)
            a = {} if isinstance(a, Undef) else dict(a)
            a[tuple(i.x)] = ev(i.args[1])
            V[i.res] = a
        elif op == 'br':
            if i.args:
                self.bcond[bn] = ascond(ev(i.args[0], 'i1'))
        elif op == 'switch':
            v = ev(i.args[0], i.ty)
            self.bcond[bn] = asnum(v)
        elif op in ('ret', 'unreachable'):
            pass
        else:
            raise Broken('%s: instruction %s' % (self.f.name, i.text.strip()))

    def block_id(self, res):
        return self.at + res

    def touch(self, mem, i, p):
        """Access to memory that a mutex guards: counted when none is held (models.py)."""
        if self.m.guards and i.x != 'atomic' and i.x is not True:
            models.touch(self, mem, i, self.simplify(p))

    def access(self, mem, p, n):
        """When an access to n bytes leaves its object, goes through no pointer or to released memory; counted as a fault of the law."""
        c = self.astray(mem, self.simplify(p), n)
        if c is not False:
            models.add(self, mem, models.FAULT, ite(c, ONE, ZERO))
        return c

    def astray(self, mem, p, n):
        if isinstance(p, PIte):
            a, b = self.astray(mem, p.a, n), self.astray(mem, p.b, n)
            return False if a is False and b is False else cor(cand(p.c, a), cand(cnot(p.c), b))
        if isinstance(p, Undef) or nullish(p):
            return True
        if not isinstance(p, Ptr) or p.base[0] not in ('alloca', 'glob', 'null'):
            return False
        if p.base[0] == 'null':
            return True
        gone = mem.get(('freed',) + p.base)
        gone = False if gone is None else cnot(eq0(asnum(gone.d[0])))
        if p.base[0] == 'glob':
            t = self.m.globals.get(p.base[1])
            size = llir.size_align(self.m, t[0])[0] if t and isinstance(t[0], tuple) else None
        else:
            size = self.m.sizes.get(p.base)
        if size is None:
            return gone

        def out(off):
            c = off.const()
            if c is not None:
                return not 0 <= int(c) <= size - n
            cs = off.conds()
            if not cs:
                return any(ATOMS[a][0] == 'undef' for m in off.t for a, _ in m)      # an index that was never set
            ci = min(cs)
            a, b = out(Subst(implied(ci, True)).poly(off)), out(Subst(implied(ci, False)).poly(off))
            return a if a == b else cor(cand(('c', ci), a), cand(('not', ('c', ci)), b))
        o = out(p.off)
        return o if gone is False else cor(gone, o)

    def release(self, mem, p, guard=True):
        if isinstance(p, PIte):
            self.release(mem, p.a, cand(guard, p.c))
            self.release(mem, p.b, cand(guard, cnot(p.c)))
        elif isinstance(p, Ptr) and p.base[0] == 'alloca' and guard is not False:
            k = ('freed',) + p.base
            old = mem.get(k)
            old = ZERO if old is None else asnum(old.d[0])
            now = ite(guard, ONE, ZERO)
            twice = old * now
            if twice.const() != 0:
                models.add(self, mem, models.FAULT, twice)
            self.put(mem.edit(k), 0, ite(guard, ONE, old), 8)

    def address(self, p):
        """A pointer as a number: differences within one object are exact."""
        if isinstance(p, PIte):
            return ite(p.c, self.address(p.a), self.address(p.b))
        if isinstance(p, Poly):
            return p
        if not isinstance(p, Ptr):
            raise Broken('address of %r' % (p,))
        if p.base == ('null',):
            return p.off
        a = var('in', 'address:%s:%s' % p.base[:2])
        BASES[next(iter(a.t))[0][0]] = p.base
        return a + p.off

    def ptrcmp(self, pred, a, b):
        if isinstance(a, PIte):
            return ite(a.c, self.ptrcmp(pred, a.a, b), self.ptrcmp(pred, a.b, b))
        if isinstance(b, PIte):
            return ite(b.c, self.ptrcmp(pred, a, b.a), self.ptrcmp(pred, a, b.b))
        a, b = (Ptr(('null',), x) if isinstance(x, Poly) and x.const() is not None else x for x in (a, b))
        if not isinstance(a, Ptr) or not isinstance(b, Ptr):
            raise Broken('%s: comparison of pointers %r and %r' % (self.f.name, a.base if isinstance(a, Ptr) else a, show(b) if isinstance(b, Poly) else b))
        if pred in ('eq', 'ne'):
            if a.base != b.base:
                return pred == 'ne'
            c = eq0(a.off - b.off)
            return c if pred == 'eq' else cnot(c)
        if a.base == b.base:
            return compare(pred, a.off, b.off)
        raise Broken('pointer order')

    def intop(self, op, a, b, i):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            x, y = int(ca), int(cb)
            w = llir.SCALAR_SIZE.get(i.ty) if isinstance(i.ty, str) and i.ty[0] == 'i' else None
            if w and op in ('urem', 'udiv', 'lshr'):
                x, y = x & ((1 << 8 * w) - 1), y & ((1 << 8 * w) - 1)
            r = int_fold(op, x, y)
            if r is not None:
                return con(signed(r, w) if w and i.ty != 'i1' else r)
        if op == 'and' and cb is not None and 0 <= cb < 16:
            at = [m for m, c in a.t.items() if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0] in BASES]
            if len(at) == 1:        # objects and functions are aligned
                return self.intop(op, a - Poly({at[0]: 1}), b, i)
        if op == 'shl' and cb is not None:
            return a.scale(1 << int(cb))
        cs = a.conds() | b.conds()
        if cs and (cb is not None or ca is not None):
            ci = min(cs)
            s1, s0 = Subst(implied(ci, True)), Subst(implied(ci, False))
            return ite(('c', ci), self.intop(op, s1.poly(a), s1.poly(b), i),
                       self.intop(op, s0.poly(a), s0.poly(b), i))
        if op == 'or' and 'disjoint' in (i.x or ()):
            return a + b
        return fn(op, (a, b))

    def bits(self, op, a, w):
        c = a.const()
        if c is None:
            cs = a.conds()
            if not cs:
                return fn(op, (a,))
            ci = min(cs)
            return ite(('c', ci), self.bits(op, Subst(implied(ci, True)).poly(a), w), self.bits(op, Subst(implied(ci, False)).poly(a), w))
        s = bin(int(c) & ((1 << w) - 1))[2:].zfill(w)
        return con(s.count('1') if op == 'ctpop' else w if '1' not in s else s.index('1') if op == 'ctlz' else s[::-1].index('1'))

    def call(self, i, mem):
        c = i.x['callee'].lstrip('@').strip('"')
        V = self.val
        if c.startswith('%'):
            f = self.simplify(self.ev(('reg', c)))
            if isinstance(f, Undef) or isinstance(f, Ptr) and f.base[0] == 'null':
                models.add(self, mem, models.FAULT, ONE)
                if i.res:
                    V[i.res] = UNDEF
                return
            if not isinstance(f, Ptr) or f.base[0] != 'glob' or f.off.const() != 0:
                raise Broken('%s: call of %s' % (self.f.name, c))
            c = f.base[1].lstrip('@').strip('"')
        if c.startswith('llvm.lifetime') or c.startswith('llvm.experimental') or c.startswith('llvm.assume') or \
                c.startswith('llvm.dbg'):
            return
        args = [self.ev(a, t[0] if isinstance(t, tuple) and len(t) == 2 and isinstance(t[1], dict) else None)
                for a, t in zip(i.args, i.x['tys'])]
        base = c
        if c.startswith('llvm.'):
            base = c.split('.')[1]
        if base in ('sqrt',):
            V[i.res] = sqrt(asnum(args[0]))
        elif base == 'fabs':
            V[i.res] = absv(asnum(args[0]))
        elif base in ('sqrtf',):
            V[i.res] = sqrt(asnum(args[0]))
        elif base in PURE1 or base.rstrip('f') in PURE1:
            V[i.res] = fn(base if base in PURE1 else base.rstrip('f'), (asnum(args[0]),))
        elif base in ('atan2', 'atan2f', 'fmod', 'pow', 'fmodf', 'powf', 'copysign'):
            V[i.res] = fn(base[:-1] if base.endswith('f') and base != 'f' and base not in ('pow',) else base,
                          (asnum(args[0]), asnum(args[1])))
        elif base in ('minnum', 'fmin', 'smin', 'umin', 'minimum'):
            a, b = asnum(args[0]), asnum(args[1])
            V[i.res] = ite(lt0(b - a), b, a)
        elif base in ('maxnum', 'fmax', 'smax', 'umax', 'maximum'):
            a, b = asnum(args[0]), asnum(args[1])
            V[i.res] = ite(lt0(a - b), b, a)
        elif base in ('ctlz', 'cttz', 'ctpop'):
            V[i.res] = self.bits(base, asnum(args[0]), int(c.split('.i')[-1]))
        elif c in ('_Znwm', '_Znam'):
            if any(self.cur in l for l in self.loops.values()):
                raise Broken('allocation inside a loop')
            V[i.res] = Ptr(('alloca', self.block_id(i.res)), ZERO)
            n = asnum(args[0]).const()
            self.m.sizes[V[i.res].base] = None if n is None else int(n)
        elif c.startswith('_ZdlPv') or c.startswith('_ZdaPv'):
            self.release(mem, self.simplify(args[0]))
        elif base == 'memcpy' or base == 'memmove':
            n = asnum(args[2]).const()
            if n is None:
                raise Broken('memcpy size')
            self.touch(mem, i, args[0])
            self.touch(mem, i, args[1])
            if n == 0 or self.access(mem, args[0], int(n)) is True or self.access(mem, args[1], int(n)) is True:
                return
            self.copy(mem, args[0], args[1], int(n))
        elif base == 'memset':
            n = asnum(args[2]).const()
            if n is None or asnum(args[1]).const() is None or not isinstance(args[0], Ptr) or args[0].off.const() is None:
                raise Broken('memset')
            d = args[0]
            o = int(d.off.const())
            if n == 0 or self.access(mem, d, int(n)) is True:
                return
            ob = mem.edit(d.base)
            self.clear(ob, o, int(n))
            k, n = 0, int(n)
            while k < n:
                w = next(x for x in (8, 4, 2, 1) if x <= n - k)
                ob.d[o + k], ob.w[o + k] = con(signed(int('%02x' % (int(asnum(args[1]).const()) & 255) * w, 16), w)), w
                k += w
        elif c in models.MODELS:
            models.MODELS[c](self, i, args, mem)
        elif c in self.opaque:
            self.opaque[c](self, i, args, mem)
        elif c in self.m.funcs and self.m.funcs[c].blocks:
            self.enter(i, self.m.funcs[c], [self.simplify(a) for a in args], mem)
        else:
            raise Broken('%s: call of %s' % (self.f.name, c))

    def simplify(self, v):
        return v

    def known(self):
        return {}

    def enter(self, i, f, args, mem):
        """Analyses the callee in the state of the call."""
        import unroll
        if self.level > 30:
            raise Broken('recursion of %s does not end' % f.name)
        if any('byval' in str(at) for _, _, at in f.params):
            raise Broken('argument passed as a copy')
        at = '%s/%s' % (self.at, self.block_id(i.res or '!%d' % self.nins))
        g = unroll.Unrolled(self.m, f, argvals=dict(enumerate(args)), mem=mem.clone(), caller=self, at=at, prefix=at)
        self.nins += g.nins
        mem.replace(g.mem)
        if i.res:
            self.val[i.res] = g.ret if g.ret is not None else UNDEF

    def leaves(self, t, o=0):
        """Offsets of the scalars of a type."""
        while isinstance(t, tuple) and t[0] == 'named':
            t = self.m.structs[t[1]]
        if not isinstance(t, tuple):
            return [o]
        out = []
        for i in range(t[1] if t[0] in ('arr', 'vec') else len(t[1])):
            fo, ft = llir.field_offset(self.m, t, i)
            out += self.leaves(ft, o + fo)
        return out

    def copy(self, mem, d, s, n):
        if isinstance(s, PIte):
            m1, m2 = mem.clone(), mem.clone()
            self.copy(m1, d, s.a, n)
            self.copy(m2, d, s.b, n)
            mem.replace(self.join([m1, m2], lambda v: ite(s.c, v[0], v[1])))
            return
        so, do = s.off.const(), d.off.const()
        if so is None or do is None:
            cs = s.off.conds()
            if so is None and cs:
                ci = min(cs)
                a = Ptr(s.base, Subst(implied(ci, True)).poly(s.off))
                b = Ptr(s.base, Subst(implied(ci, False)).poly(s.off))
                return self.copy(mem, d, PIte(('c', ci), a, b), n)
            raise Broken('memcpy address')
        so, do = int(so), int(do)
        vals = {}
        src = mem.get(s.base)
        gen = src.gen if src is not None else None
        if src is not None:
            if cover(src, so) is not None or cover(src, so + n) is not None:
                src = mem.edit(s.base)
                self.cut(src, so)
                self.cut(src, so + n)
            for k in src.d:
                if so <= k < so + n:
                    vals[k - so] = src.d[k], src.w[k]
        at = range(0, n, 8)
        if s.base[0] == 'glob' and s.base[1] in self.m.globals:
            at = [x - so for x in self.leaves(self.m.globals[s.base[1]][0]) if so <= x < so + n]
        at = sorted(at)
        for k, e in zip(at, at[1:] + [n]):
            if k not in vals and (s.base[0] != 'alloca' or gen is not None) and not any(x in vals for x in range(k + 1, min(e, k + 8))):
                vals[k] = self.initial(s.base, so + k, 'double', mem), min(8, e - k)
        dst = mem.edit(d.base)
        self.clear(dst, do, n)
        for k, (v, w) in vals.items():
            dst.d[do + k], dst.w[do + k] = v, w


def compare(pred, a, b):
    pred = {'oeq': 'eq', 'ueq': 'eq', 'one': 'ne', 'une': 'ne', 'olt': 'lt', 'ult': 'lt', 'slt': 'lt',
            'ogt': 'gt', 'ugt': 'gt', 'sgt': 'gt', 'ole': 'le', 'ule': 'le', 'sle': 'le',
            'oge': 'ge', 'uge': 'ge', 'sge': 'ge'}.get(pred, pred)
    if pred == 'ord':
        return True
    if pred == 'uno':
        return False
    d = a - b
    if pred == 'eq':
        return eq0(d)
    if pred == 'ne':
        return cnot(eq0(d))
    if pred == 'lt':
        return lt0(d)
    if pred == 'gt':
        return lt0(-d)
    if pred == 'le':
        return cnot(lt0(-d))
    if pred == 'ge':
        return cnot(lt0(d))
    raise Broken('predicate ' + pred)
