"""Decides algebraic laws: compiles a harness with /repo's sources to LLVM IR, value-numbers
every law function over exact real arithmetic and demands that each stored residual is zero."""
import os, random, re, sys, time
import mpmath
from mpmath import mpf
import common, llir, alg, unroll, models
from common import *

HDR = re.compile(r'LAW\(\s*(\w+)\s*,\s*"((?:[^"\\]|\\.)*)"\s*,\s*"((?:[^"\\]|\\.)*)"')


FIELDS = []
for _n, _k in [(x, 'xyz') for x in 'abcdef'] + [('q', 'xyzw'), ('r', 'xyzw')] + \
        [(m + str(i), 'xyz') for m in 'mn' for i in range(3)] + [(x, '') for x in 'stuv'] + [(x, 'xy') for x in 'ghkl']:
    FIELDS += [_n + '.' + c for c in _k] if _k else [_n]
FIELDS += ['w[%d]' % i for i in range(24)]


def pretty(t):
    """Input slots by their name in the harness."""
    return re.sub(r'\ba0\+(\d+)', lambda m: FIELDS[int(m.group(1)) // 8] if int(m.group(1)) // 8 < len(FIELDS) else m.group(0), t)


def law_headers(path):
    s = open(path).read()
    s += '\n'.join('LAW(%s' % m.group(1) for m in re.finditer(r'//@law (.*)', s))
    return {m.group(1): (m.group(2), m.group(3)) for m in HDR.finditer(s) if '##' not in m.group(1)}


def anyloop(path):
    """Laws stated for every outcome of the iterations they contain (//@anyloop PATTERN in the harness)."""
    s = open(path).read()
    pats = re.findall(r'//@anyloop (\S+)', s)
    return {n for n in law_headers(path) if any(re.fullmatch(p, n) for p in pats)}


# ---------------------------------------------------------------- witness evaluation
mpmath.mp.dps = 60
FN = {'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'asin': mpmath.asin, 'acos': mpmath.acos,
      'atan': mpmath.atan, 'atan2': mpmath.atan2, 'exp': mpmath.exp, 'log': mpmath.log, 'floor': mpmath.floor,
      'ceil': mpmath.ceil, 'fmod': lambda a, b: a - b * (mpmath.floor(a / b) if a / b >= 0 else mpmath.ceil(a / b)),
      'pow': mpmath.power}


class Eval:
    """Evaluates normal forms at one assignment of the input atoms (60 digits)."""

    def __init__(self, pick):
        self.pick = pick
        self.a = {}
        self.p = {}
        self.c = {}

    def sum(self, p):
        s = mag = mpf(0)
        for m, c in p.t.items():
            v = mpf(c) if isinstance(c, int) else mpf(c.numerator) / c.denominator
            for a, e in m:
                x = self.atom(a)
                if e < 0 and x == 0:
                    raise ZeroDivisionError
                v *= x ** e
            s += v
            mag += abs(v)
        if mag and abs(s) < mag * mpf(10) ** -45:
            s = mpf(0)
        return s, mag

    def poly(self, p):
        r = self.p.get(id(p))
        if r is None:
            r = self.p[id(p)] = (self.sum(p)[0], p)
        return r[0]

    def cond(self, ci):
        r = self.c.get(ci)
        if r is None:
            k, p = alg.CONDS[ci]
            v = self.poly(p)
            r = self.c[ci] = (v < 0) if k == 'lt' else (v == 0)
        return r

    def atom(self, a):
        r = self.a.get(a)
        if r is not None:
            return r
        k = alg.ATOMS[a]
        t = k[0]
        if t == 'in':
            r = mpf(self.pick(k[1]))
        elif t == 'const':
            r = mpmath.pi() if k[1] == 'pi' else mpf(float(k[1]))
        elif t == 'ite':
            r = self.poly(k[2] if self.cond(k[1]) else k[3])
        elif t == 'let':
            r = self.poly(k[1])
        elif t == 'inv':
            r = self.poly(k[1])
            if r == 0:
                raise ZeroDivisionError
            r = 1 / r
        elif t == 'sqrt':
            r = self.poly(k[1])
            if r < 0:
                raise ValueError
            r = mpmath.sqrt(r)
        elif t == 'abs':
            r = abs(self.poly(k[1]))
        elif t == 'fn':
            xs = [self.poly(x) if isinstance(x, alg.Poly) else x for x in k[2]]
            if k[1] not in FN:
                raise ValueError(k[1])
            r = FN[k[1]](*xs)
        elif t == 'undef':
            r = mpf(self.pick('undef'))
        elif t == 'div0':
            raise ZeroDivisionError
        else:
            raise ValueError(t)
        if isinstance(r, mpmath.mpc) or r != r or abs(r) > 1e15:
            raise OverflowError
        self.a[a] = r
        return r


def inputs_of(p):
    seen, out, st = set(), set(), [p]
    while st:
        x = st.pop()
        if isinstance(x, alg.Poly):
            for m in x.t:
                for a, _ in m:
                    if a not in seen:
                        seen.add(a)
                        k = alg.ATOMS[a]
                        if k[0] == 'in':
                            out.add(k[1])
                        elif k[0] == 'ite':
                            st += [alg.CONDS[k[1]][1], k[2], k[3]]
                        else:
                            for d in k[1:]:
                                if isinstance(d, alg.Poly):
                                    st.append(d)
                                elif isinstance(d, tuple):
                                    st += list(d)
    return out


def sampler(names, rng, mode):
    names = sorted(names)
    val = {}
    for n in names:
        if mode == 0:
            val[n] = rng.uniform(-1, 1) * 0.7
        elif mode == 1:
            val[n] = float(rng.randint(-2, 2))
        elif mode == 2:
            val[n] = rng.choice([0.0, 0.0, 1.0, -1.0, 0.5, -0.5])
        elif mode == 3:
            val[n] = rng.uniform(-4, 4)
        elif mode == 4:
            val[n] = rng.uniform(-1, 1) * 10 ** rng.uniform(-4, 2)
        else:
            val[n] = abs(rng.uniform(0, 2)) * rng.choice([1, 1, 1, -1])
    if mode in (3, 4, 5) and names and rng.random() < .5:
        for _ in range(rng.randint(1, 6)):
            a, b = rng.choice(names), rng.choice(names)
            val[a] = rng.choice([val[b], -val[b], 0.0, 1.0])
    return val


def vector_sampler(names, rng):
    """Treat aligned triples of inputs as vectors and make some parallel, equal or orthogonal."""
    val = sampler(names, rng, rng.choice([0, 1, 3]))
    offs = {}
    for n in names:
        m = re.match(r'(.*\+)(\d+)$', n)
        if m:
            offs.setdefault(m.group(1), {})[int(m.group(2))] = n
    for pre, d in offs.items():
        tr = [(o, o + 8, o + 16) for o in sorted(d) if o % 24 == 0 and o + 8 in d and o + 16 in d]
        if len(tr) < 2:
            continue
        for _ in range(rng.randint(1, 4)):
            a, b = rng.sample(tr, 2)
            va = [val[d[x]] for x in a]
            k = rng.choice([1.0, -1.0, 2.0, 0.5, 0.0])
            how = rng.randint(0, 2)
            if how == 0:
                vb = [x * k for x in va]
            elif how == 1:
                c = rng.choice(tr)
                vc = [val[d[x]] for x in c]
                vb = [x + k * y for x, y in zip(va, vc)]
            else:
                c = rng.choice(tr)
                vc = [val[d[x]] for x in c]
                vb = [va[1] * vc[2] - va[2] * vc[1], va[2] * vc[0] - va[0] * vc[2], va[0] * vc[1] - va[1] * vc[0]]
            for x, v in zip(b, vb):
                val[d[x]] = v
    return val


def value_at(p, assign):
    e = Eval(lambda n: assign.get(n, 0.37))
    s, mag = e.sum(p)
    return s, mag, e


SPENT = [0.0]


def witness(p, path, budget=6000, seed=1):
    """An assignment at which p (with its gates) is not zero, or None."""
    rng = random.Random(seed)
    names = inputs_of(p)
    for ci, _ in path:
        names |= inputs_of(alg.CONDS[ci][1])
    names = sorted(names)
    import time
    t0 = time.time()
    eqs = equalities(path)
    limit = 12 if SPENT[0] < 36 else 3
    if common.TIER == 'thorough':
        limit, budget = limit * 8, budget * 8
    for i in range(budget):
        if time.time() - t0 > limit:
            SPENT[0] += limit
            break
        a = vector_sampler(names, rng) if i % 3 == 0 else sampler(names, rng, rng.randint(0, 5))
        if i % 4 == 3 and i > 400:
            a = climb(a, names, path, rng) or a
        if eqs and i % 2:
            a = meet(a, eqs, rng) or a
        try:
            s, mag, e = value_at(p, a)
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        if mag and abs(s) > 1e-9 * mag and abs(s) > 1e-12:
            return a, float(s)
    return None


def equalities(path):
    """What a path requires to be exactly zero: equalities, and bounds met from both sides."""
    eqs, low = [], []
    for ci, v in path:
        k, p = alg.CONDS[ci]
        if k == 'eq' and v:
            eqs.append(p)
        elif k == 'lt' and not v:
            low.append(p)
    for i, p in enumerate(low):
        for q in low[i + 1:]:
            t = p + q
            if t.const() == 0:
                eqs.append(p)
            elif t.const() is None:
                # p >= 0 and q >= 0 with q a negative multiple of p
                for m, c in p.t.items():
                    k = q.t.get(m)
                    if k is not None and k * c < 0 and (q + p.scale(-k / mpq(c))).const() == 0:
                        eqs.append(p)
                    break
    return [(p, sorted(inputs_of(p))) for p in eqs]


def mpq(c):
    from fractions import Fraction
    return Fraction(c)


def meet(a, eqs, rng):
    """Moves an assignment onto the zeros of the given terms, one input at a time (secant steps)."""
    a = dict(a)
    for _ in range(2):
        for p, names in eqs:
            if not names:
                continue
            def g(n, x):
                a[n] = x
                return Eval(lambda k: a.get(k, 0.37)).sum(p)[0]
            for n in rng.sample(names, min(3, len(names))):
                old = a.get(n, 0.37)
                try:
                    x0 = mpf(old)
                    y0 = g(n, x0)
                    if y0 == 0:
                        break
                    x1 = x0 + mpf(rng.choice([1, -1, 0.25]))
                    for _ in range(40):
                        y1 = g(n, x1)
                        if y1 == 0 or y1 == y0:
                            break
                        x0, x1, y0 = x1, x1 - y1 * (x1 - x0) / (y1 - y0), y1
                    if g(n, x1) == 0:
                        break
                except (ZeroDivisionError, OverflowError, ValueError):
                    pass
                a[n] = old
    return a


def climb(a, names, path, rng):
    """Nudge an assignment towards satisfying the conditions of a path."""
    def cost(x):
        e = Eval(lambda n: x.get(n, 0.37))
        c = 0.0
        for ci, v in path:
            k, p = alg.CONDS[ci]
            try:
                y = e.poly(p)
            except (ZeroDivisionError, OverflowError, ValueError):
                return 1e9
            if k == 'lt':
                c += max(0.0, y + 1e-9) if v else max(0.0, -y)
            else:
                c += abs(y) if v else (1.0 if y == 0 else 0.0)
        return c
    best, cb = dict(a), cost(a)
    for _ in range(150):
        if cb == 0:
            return best
        x = dict(best)
        for n in rng.sample(names, min(len(names), rng.randint(1, 3))):
            x[n] += rng.gauss(0, 1) * 10 ** rng.uniform(-3, 0.5)
        c = cost(x)
        if c <= cb:
            best, cb = x, c
    return best


# ---------------------------------------------------------------- law decision
BUDGET = (120, 1200)


class Budget(BaseException):
    pass


def _expired(*_):
    raise Budget()


def decide_law(args):
    import signal
    t0 = time.time()
    signal.signal(signal.SIGALRM, _expired)
    left = max(2.0, min(BUDGET[TIER == 'thorough'], args[2].get('deadline', t0 + 1e6) - t0))
    signal.setitimer(signal.ITIMER_REAL, left, 1.0)
    try:
        r = _decide_law(args)
    except Budget:
        r = {'name': args[1], 'outs': 0, 'bad': [], 'undecided': [], 'cases': 0, 'ins': 0, 'broken': 'time budget exhausted'}
    except (Exception, RecursionError) as e:
        if os.environ.get('LAWTRACE'):
            import traceback
            traceback.print_exc()
        r = {'name': args[1], 'outs': 0, 'bad': [], 'undecided': [], 'cases': 0, 'ins': 0, 'broken': 'outside the analysed fragment: %s %s' % (type(e).__name__, e)}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    r['t'] = time.time() - t0
    if os.environ.get('LAWTIME'):
        print('%6.1fs %s %s' % (r['t'], r['name'], r.get('broken', '') or ('BAD' if r['bad'] else '') or ('undecided' if r['undecided'] else '')), flush=True)
    return r


def number(m, f):
    if not f.cyclic:
        try:
            return alg.Gvn(m, f)
        except alg.Broken:
            pass
    try:
        return unroll.Unrolled(m, f)
    except alg.Endless:
        raise
    except alg.Broken as e:
        try:
            return alg.Gvn(m, f)        # loops cut instead: nothing assumed about what they compute
        except alg.Broken:
            pass
        try:
            alg.LAX[0] = True
            return unroll.Unrolled(m, f)
        except alg.Broken as x:
            raise alg.Broken(str(e) if str(x) == str(e) else '%s; %s' % (e, x))


def salvage(res, why):
    """Residuals stored before the analysis stopped, at a point reached whatever the inputs, hold all the same."""
    if alg.LAST[0] is None:
        return False
    for k, v in sorted(((k, v) for k, v in alg.LAST[0].items() if k[0] == ('arg', 1)), key=lambda x: x[0][1]):
        try:
            c = alg.asnum(v).const()
        except Exception:
            continue
        if c is not None and c != 0:
            res['outs'] += 1
            res['bad'].append((k[1] // 8, 'residual #%d is %s whatever the inputs (the analysis then stopped: %s)' % (k[1] // 8, c, why)))
            return True
    return False


def _decide_law(args):
    ll, name, opts = args
    m = llir.parse_module(ll)
    f = m.funcs['law_' + name]
    alg.LAX[0] = False
    alg.LAST[0] = None
    SPENT[0] = 0.0
    st = {}
    res = {'name': name, 'outs': 0, 'bad': [], 'undecided': [], 'cases': 0, 'ins': 0}
    try:
        g = number(m, f)
    except alg.Endless:
        res['outs'] = 1
        res['bad'].append((-1, 'every path through the law ends in undefined behaviour or an exception'))
        return res
    except alg.Broken as e:
        if not salvage(res, str(e)):
            res['broken'] = str(e)
        return res
    except Exception as e:
        if salvage(res, '%s %s' % (type(e).__name__, e)):
            return res
        raise
    res['ins'] = g.nins
    if os.environ.get('LAWCUT'):
        for k, v in g.mem.items():
            if k[0] == ('arg', 1):
                try:
                    ns = [n for n in inputs_of(alg.asnum(v)) if n.startswith('loop:')]
                except Exception as e:
                    ns = [str(e)]
                if ns:
                    print('CUT', name, ns[:2], flush=True)
                    break
    G = models.G
    for k, v in sorted(g.mem.items(), key=lambda x: (x[0][0] == G, x[0][1])):
        fault = k == (G, models.FAULT)
        if k[0] != ('arg', 1) and not fault:
            continue
        res['outs'] += 1
        slot = k[1] // 8 if not fault else -1
        try:
            p = alg.asnum(v)
            if any(alg.ATOMS[a][:2] in (('const', 'nan'), ('const', '-nan')) for mono in p.t for a, _ in mono):
                res['bad'].append((slot, 'residual #%d is not a number, whatever the inputs: the compiled code folds to it' % slot))
                break
            alg.check_zero(p, (), st)
        except alg.Refuted as r:
            # What a cut loop leaves behind is unknown: it refutes only laws that hold whatever the loop computes.
            free = args[2].get('anyloop') or not any(n.startswith('loop:') for n in inputs_of(p))
            w = witness(p, r.path, seed=SEED) if free else None
            txt = '%s under [%s] is %s' % ('residual #%d' % slot if not fault else 'number of accesses outside of an object, through null or to released memory', '; '.join(alg.show_cond(*x) for x in r.path[:int(os.environ.get('LAWPATH', '6'))]), alg.show(r.residual)[:400])
            if w:
                a = {n: round(float(x), 6) for n, x in w[0].items()}
                res['bad'].append((slot, pretty(txt + '\nfor example value %.6g at %s' % (w[1], a))))
                break
            else:
                res['undecided'].append(pretty(txt))
        except alg.Broken as e:
            res['broken'] = 'residual #%d: %s' % (slot, e)
            return res
    res['cases'] = st.get('cases', 0)
    return res


def check_laws(chk, files, least):
    """files: harness sources. Decides every LAW in them."""
    paths = [os.path.join(VERIF, 'harness', f) for f in files]
    irs = tmap(compile_ir, paths)
    work = []
    heads = {}
    for p, ll in zip(paths, irs):
        h = law_headers(p)
        for n in h:
            heads[n] = (p, h[n])
            work.append((ll, n, {'anyloop': n in anyloop(p), 'deadline': time.time() + (600 if common.TIER != 'thorough' else 1e5)}))
    results = pmap(decide_law, work)
    for ll in irs:
        os.remove(ll)
    outs = cases = ins = und = 0
    broken = []
    for r in results:
        p, (subj, text) = heads[r['name']]
        if 'broken' in r:
            broken.append('law %s (%s): %s' % (r['name'], subj, r['broken']))
            continue
        outs += r['outs']
        cases += r['cases']
        ins += r['ins']
        und += len(r['undecided'])
        if r['outs'] == 0:
            broken.append('law %s stores nothing' % r['name'])
        for slot, t in r['bad']:
            names = re.findall(r'[A-Za-z_:]\w+', re.sub(r'\([^)]*\)', '', subj))
            chk.violate('law ' + r['name'], 'law "%s" of %s fails: %s\n%s\n%s' % (
                r['name'], subj, text, '; '.join(locate(names)), t))
        for t in r['undecided']:
            chk.notes.append('law %s: not discharged, no witness: %s' % (r['name'], t))
    # A law whose IR leaves the analysed fragment is undecided and reported as such; many of them mean the analysis is broken.
    if not chk.violations and len(broken) > max(1, len(results) // 2):
        raise CheckError('\n'.join(broken))
    for b in broken:
        chk.notes.append(b)
    chk.require('laws', len(results), least)
    chk.count(laws=len(results), obligations=outs, discharged=outs - und - len(chk.violations), case_splits=cases, ir_instructions=ins, undecided=und + len(broken))
    chk.cov.setdefault('explanation', 'Algebraic value numbering of the LLVM IR of %d law functions compiled with the current sources: %d obligations (stored residuals), '
                       'every outcome of the branch conditions of the analysed functions considered by case split on gated values; '
                       'counts below are measured on this run.' % (len(results), outs))
    chk.rules.append('each law is an identity of the compiled functions; obligations are the residuals it stores, each value-numbered to a '
                     'normal form over the reals and required to vanish under every outcome of the branch conditions')
    chk.assumptions.append('exact real arithmetic: rounding, overflow, NaN and infinities are outside the claim')
    chk.assumptions.append('LLVM IR produced by clang -O2 from the current sources means what the sources mean (double precision configuration)')
