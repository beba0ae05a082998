"""Linear implication over monomials: facts are sums of monomials compared with zero; every
non-constant monomial is an independent unknown.  Fourier-Motzkin elimination, exact."""
from fractions import Fraction
import alg


def poly_row(p):
    return {m: Fraction(c) for m, c in p.t.items()}


def axioms(polys):
    out = []
    seen = set()
    sqrs = set()
    for p in polys:
        for m in p.t:
            if m and all(e % 2 == 0 for _, e in m):
                sqrs.add(m)
            for a, e in m:
                if a in seen:
                    continue
                seen.add(a)
                k = alg.ATOMS[a]
                me = {((a, 1),): Fraction(1)}
                if k[0] == 'abs':
                    out.append((me, False))
                    r = poly_row(k[1])
                    for s in (1, -1):
                        x = {mm: -c * s for mm, c in r.items()}
                        x[((a, 1),)] = x.get(((a, 1),), 0) + 1
                        out.append((x, False))
                elif k[0] == 'sqrt':
                    out.append((me, False))
                    r = poly_row(k[1])
                    c = r.get((), 0)
                    if c > 0 and len(r) <= 8:      # (sqrt(E) - x)^2 >= 0 with x near the root of the constant
                        x = Fraction(float(c) ** 0.5).limit_denominator(1000) or Fraction(1)
                        r[()] = c + x * x
                        r[((a, 1),)] = r.get(((a, 1),), 0) - 2 * x
                        out.append((r, False))
                elif k[0] == 'const':
                    v = Fraction(3141592653589793, 10**15) if k[1] == 'pi' else Fraction(float(k[1]))
                    out.append(({((a, 1),): Fraction(1), (): -v * (1 - Fraction(1, 10**9))}, True))
                    out.append(({((a, 1),): Fraction(-1), (): v * (1 + Fraction(1, 10**9))}, True))
                    out.append((me, True))
    for m in sqrs:
        out.append(({m: Fraction(1)}, False))
    return out


def products(rows, polys):
    """Signs of monomials whose factors all have a known sign."""
    sg = {}
    for r, strict in rows:
        ms = [m for m in r if r[m]]
        if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
            a = ms[0][0][0]
            s = 1 if r[ms[0]] > 0 else -1
            o = sg.get(a)
            if o is None or (strict and not o[1]):
                sg[a] = (s, strict)
            elif o[0] != s:
                sg.pop(a)
    out = []
    seen = set()
    for p in polys:
        for m in p.t:
            if m in seen or len(m) < 2:
                continue
            seen.add(m)
            s, strict = 1, True
            for a, e in m:
                if e % 2 == 0:
                    if not (a in sg and sg[a][1]):
                        strict = False
                    continue
                if a not in sg:
                    s = 0
                    break
                s *= sg[a][0]
                strict = strict and sg[a][1]
            if s:
                out.append(({m: Fraction(s)}, strict))
    return out + squares(rows)


def common_factor(ms):
    """Greatest monomial with positive powers that divides every monomial."""
    ms = list(ms)
    c = {a: e for a, e in ms[0] if e > 0} if ms else {}
    for m in ms[1:]:
        d = dict(m)
        c = {a: min(e, d[a]) for a, e in c.items() if d.get(a, 0) > 0}
        if not c:
            break
    return c


def times(r, f, sign):
    out = {}
    for m, c in r.items():
        d = dict(m)
        for a, e in f:
            d[a] = d.get(a, 0) + sign * e
        out[tuple(sorted((a, e) for a, e in d.items() if e))] = c
    return out


def squares(rows):
    """M^2 E compared with zero is E compared with zero, up to M == 0."""
    out, fs = [], set()
    plain = []
    for r, strict in rows:
        ms = [m for m in r if r[m]]
        f = tuple(sorted((a, e - e % 2) for a, e in common_factor(ms).items() if e > 1)) if ms and () not in r else ()
        if f and len(ms) > 1:
            fs.add(f)
            if strict:
                out.append((times(r, f, -1), True))
        else:
            plain.append(r)
    if len(fs) > 6:
        return out
    for f in fs:
        for r in plain:
            if len(r) > 1:
                out.append((times(r, f, 1), False))
    return out


def infeasible(rows, limit=3000):
    """rows: [(dict, strict)] meaning row >= 0 (or > 0). True if no real solution exists."""
    cur = {}

    def norm(row, strict):
        row = {m: c for m, c in row.items() if c}
        vs = [m for m in row if m != ()]
        if not vs:
            v = row.get((), 0)
            if v < 0 or (strict and v == 0):
                return False
            return None
        k = abs(row[min(vs)])
        row = {m: c / k for m, c in row.items()}
        key = frozenset((m, c) for m, c in row.items() if m != ())
        v = row.get((), Fraction(0))
        return key, v, strict

    def add(dst, row, strict):
        n = norm(row, strict)
        if n is False:
            return True
        if n is None:
            return False
        key, v, s = n
        o = dst.get(key)
        # smaller constant is the tighter fact
        if o is None or v < o[0] or (v == o[0] and s and not o[1]):
            dst[key] = (v, s)
        return False
    for r, s in rows:
        if add(cur, r, s):
            return True
    while cur:
        pos, neg = {}, {}
        for key in cur:
            for m, c in key:
                (pos if c > 0 else neg).setdefault(m, []).append(key)
        allv = set(pos) | set(neg)
        best = min(allv, key=lambda m: (len(pos.get(m, ())) * len(neg.get(m, ())), len(m), str(m)))
        P, N = pos.get(best, []), neg.get(best, [])
        nxt = {}
        hit = set(P) | set(N)
        for k in cur:
            if k not in hit:
                nxt[k] = cur[k]
        if len(P) * len(N) > limit:
            return False
        for p in P:
            dp = dict(p)
            vp, sp = cur[p]
            for n in N:
                dn = dict(n)
                vn, sn = cur[n]
                a, b = dp[best], -dn[best]
                row = {m: c / a for m, c in dp.items()}
                for m, c in dn.items():
                    row[m] = row.get(m, 0) + c / b
                row.pop(best, None)
                row[()] = vp / a + vn / b
                if add(nxt, row, sp or sn):
                    return True
        if len(nxt) > limit:
            return False
        cur = nxt
    return False


def abs_atoms(polys):
    out, st, seen = [], list(polys), set()
    while st:
        p = st.pop()
        for m in p.t:
            for a, _ in m:
                if a in seen:
                    continue
                seen.add(a)
                k = alg.ATOMS[a]
                if k[0] == 'abs':
                    out.append(a)
                    st.append(k[1])
    return out


def infeasible_abs(rows, polys):
    """infeasible, considering both signs under every absolute value."""
    if infeasible(rows):
        return True
    ab = abs_atoms(polys)[:6]
    if not ab:
        return False

    def go(rows, i):
        if infeasible(rows):
            return True
        if i == len(ab):
            return False
        me = ((ab[i], 1),)
        r = poly_row(alg.ATOMS[ab[i]][1])
        for s in (1, -1):
            sr = {m: c * s for m, c in r.items()}
            eq = {m: -c for m, c in sr.items()}
            eq[me] = eq.get(me, 0) + 1
            if not go(rows + [(sr, False), (eq, False), ({m: -c for m, c in eq.items()}, False)], i + 1):
                return False
        return True
    return go(rows, 0)


def path_rows(path):
    rows, polys = [], []
    for ci, v in path:
        k, p = alg.CONDS[ci]
        polys.append(p)
        r = poly_row(p)
        neg = {m: -c for m, c in r.items()}
        if k == 'lt':
            rows.append((neg, True) if v else (r, False))
        elif v:
            rows.append((r, False))
            rows.append((neg, False))
    return rows, polys


def excluded(path):
    """The outcomes assumed along the path contradict each other."""
    rows, polys = path_rows(path)
    all_ = rows + axioms(polys) + products(rows, polys)
    if infeasible_abs(all_, polys):
        return True
    # Disequalities: one that the other facts turn into an equality.
    for ci, v in path:
        k, p = alg.CONDS[ci]
        if k == 'eq' and not v:
            r = poly_row(p)
            if infeasible_abs(all_ + [(r, True)], polys) and infeasible_abs(all_ + [({m: -c for m, c in r.items()}, True)], polys):
                return True
    return False


def excluded_fast(path):
    rows, polys = path_rows(path)
    return infeasible(rows + axioms(polys) + products(rows, polys), 400)


def zero_by(path, p):
    rows, polys = path_rows(path)
    polys = polys + [p]
    rows = rows + axioms(polys) + products(rows, polys)
    r = poly_row(p)
    neg = {m: -c for m, c in r.items()}
    return infeasible_abs(rows + [(r, True)], polys) and infeasible_abs(rows + [(neg, True)], polys)


def reduce_by(path, p):
    """Remainder of p by the polynomials the path equates with zero; None without such."""
    eqs, ge = [], {}
    for ci, v in path:
        k, q = alg.CONDS[ci]
        if k == 'eq' and v:
            eqs.append(q)
        elif k == 'lt' and not v:
            ge[frozenset(q.t.items())] = q
    for key, q in ge.items():
        n = -q
        if frozenset(n.t.items()) in ge and key != frozenset(n.t.items()):
            eqs.append(q)
    if not eqs:
        return None
    hit = False
    for q in eqs[:12]:
        lead = max(q.t, key=lambda m: (sum(e for _, e in m), m))
        if not lead or any(e < 0 for _, e in lead):
            continue
        lc = Fraction(q.t[lead])
        for _ in range(400):
            for m in p.t:
                d = dict(m)
                if all(d.get(a, 0) >= e for a, e in lead):
                    break
            else:
                break
            for a, e in lead:
                d[a] -= e
            f = tuple(sorted((a, e) for a, e in d.items() if e))
            p = p - alg.Poly({f: alg._n(Fraction(p.t[m]) / lc)}) * q
            hit = True
    return p if hit else None


def forced_zero(path, p):
    """The facts along the path imply p == 0."""
    if zero_by(path, p):
        return True
    r = reduce_by(path, p)
    if r is not None:
        if not r.t or zero_by(path, r):
            return True
        p = r
    # atoms that the facts pin to zero
    ats = {a for m in p.t for a, _ in m}
    single = set()
    for ci, _ in path:
        q = alg.CONDS[ci][1]
        if len(q.t) == 1:
            single |= {a for m in q.t for a, e in m if len(m) == 1}
    gone = {a for a in ats & single if zero_by(path, alg.Poly({((a, 1),): 1}))}
    if gone:
        q = alg.Poly({m: c for m, c in p.t.items() if not any(a in gone and e > 0 for a, e in m)})
        if not q.t or zero_by(path, q):
            return True
    # strip the common monomial factor
    ms = list(p.t)
    common = {a: e for a, e in ms[0]} if ms else {}
    for m in ms[1:]:
        d = dict(m)
        common = {a: min(e, d[a]) for a, e in common.items() if a in d and d[a] > 0 and e > 0}
    common = {a: e for a, e in common.items() if e > 0}
    if common:
        q = alg.Poly({tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0)): c for m, c in p.t.items()})
        if len(q.t) and not all(m == () for m in q.t) and zero_by(path, q):
            return True
        for a in common:
            if a not in single and zero_by(path, alg.Poly({((a, 1),): 1})):
                return True
    return False
