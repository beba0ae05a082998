"""Value numbering of functions with loops: the flow graph is expanded on demand, one copy of a loop body per
iteration, for as long as the condition of the back edge does not fold to false.  Merges are gated exactly as in
acyclic code; the dominators of the expanded graph are maintained incrementally."""
import heapq
import alg
from alg import Broken, UNDEF, ite, eq0, con

SYMBOLIC = 9        # iterations whose continuation is undecided
CONSTANT = 1000     # iterations in all
NODES = 20000


class Env:
    """SSA values, one per iteration of the loops around the definition."""

    def __init__(self, depth):
        self.depth, self.d, self.ctx = depth, {}, ()

    def key(self, n):
        d = self.depth.get(n, 0)
        return (n, self.ctx[:d])

    def __setitem__(self, n, v):
        self.d[self.key(n)] = v

    def __getitem__(self, n):
        return self.d[self.key(n)]

    def __contains__(self, n):
        return self.key(n) in self.d


class Unrolled(alg.Gvn):
    def __init__(self, mod, f, **kw):
        self.layout(f)
        alg.Gvn.__init__(self, mod, f, **kw)

    def layout(self, f):
        loops = alg.natural_loops(f)
        for h, body in loops.items():
            for b in body:
                if b != h and any(p not in body for p in f.blocks[b].pred if p in f.rpoidx):
                    raise Broken('irreducible loop')
        self.chain = {}
        for b in f.rpo:
            hs = [h for h in loops if b in loops[h]]
            hs.sort(key=lambda h: -len(loops[h]))
            for x, y in zip(hs, hs[1:]):
                if not loops[y] <= loops[x]:
                    raise Broken('overlapping loops')
            self.chain[b] = tuple(hs)
        # Position of every block or inner loop among the members of the loop around it.
        self.pos = {}
        for level in [None] + list(loops):
            body = set(f.rpo) if level is None else loops[level]
            d = 0 if level is None else self.chain[level].index(level) + 1
            rep = {b: (self.chain[b][d] if len(self.chain[b]) > d else b) for b in body}
            isl = {b: len(self.chain[b]) > d for b in body}
            succ = {}
            for b in body:
                for s in f.blocks[b].succ:
                    if s in body and s != level and rep[s] != rep[b]:
                        succ.setdefault((rep[b], isl[b]), set()).add((rep[s], isl[s]))
            seen, post = set(), []
            for root in [(rep[b], isl[b]) for b in sorted(body, key=lambda x: f.rpoidx[x])]:
                st = [(root, None)]
                while st:
                    n, it = st.pop()
                    if it is None:
                        if n in seen:
                            continue
                        seen.add(n)
                        it = iter(sorted(succ.get(n, ()), key=lambda x: -f.rpoidx[x[0]]))
                    for s in it:
                        if s not in seen:
                            st.append((n, it))
                            st.append((s, None))
                            break
                    else:
                        post.append(n)
            # Roots found later come first: they are not reachable from earlier ones.
            for i, n in enumerate(reversed(post)):
                self.pos[(level, n)] = i
        self.reach = {b: True for b in f.rpo}

    def order(self, node):
        b, ctx = node
        out, lvl = [], None
        for h, it in zip(self.chain[b], ctx):
            out += [self.pos[(lvl, (h, True))], it]
            lvl = h
        out.append(self.pos[(lvl, (b, False))])
        return tuple(out)

    def target(self, node, s):
        """Node of the expanded graph that the edge to block s leads to."""
        b, ctx = node
        cb, cs = self.chain[b], self.chain[s]
        k = 0
        while k < len(cb) and k < len(cs) and cb[k] == cs[k]:
            k += 1
        if k == len(cs) and cs and cs[-1] == s:
            # back edge of the loop headed by s
            it = ctx[k - 1] + 1
            if it > CONSTANT:
                raise (Broken if self.guess else alg.Endless)('loop %s does not end' % s)
            return (s, ctx[:k - 1] + (it,))
        if len(cs) > k + 1 or (len(cs) == k + 1 and cs[-1] != s):
            raise Broken('entry into the middle of a loop')
        return (s, ctx[:k] + (0,) * (len(cs) - k))

    # --- expanded graph
    def run(self):
        f = self.f
        depth = {}
        for b in f.rpo:
            for i in f.blocks[b].ins:
                if i.res:
                    depth[i.res] = len(self.chain[b])
        env = Env(depth)
        for n, v in self.val.items():
            env[n] = v
        self.val = env
        self.loops = {}
        entry = (f.entry, ())
        self.preds, self.idom, self.lvl, self.okey, self.edges = {entry: []}, {entry: entry}, {entry: 0}, {}, {}
        self.mem_out, undecided = {}, {}
        self.guess = bool(self.caller and getattr(self.caller, 'guess', True))
        self.facts = {entry: dict(self.caller.known()) if self.caller else {}}
        self.substs = {}
        heap = [(self.order(entry), entry)]
        rets, done = [], 0
        while heap:
            ok, node = heapq.heappop(heap)
            done += 1
            if done > NODES:
                raise Broken('expanded graph too large')
            bn, ctx = node
            self.okey[node] = ok
            b = f.blocks[bn]
            env.ctx = ctx
            self.cur = bn
            preds = self.preds[node]
            if node != entry:
                n = preds[0]
                for p in preds[1:]:
                    n = self.common(n, p)
                self.idom[node] = n
                self.lvl[node] = self.lvl[n] + 1
                self.learn(node, preds[0] if len(preds) == 1 else None)
            self.here = node
            if b.ins[-1].op == 'unreachable':
                self.edges[node] = None
                continue
            mem = self.merge(node, preds)
            env.ctx = ctx
            for i in b.ins:
                self.nins += 1
                if i.op == 'phi':
                    by = {l: v for v, l in zip(i.args, i.x)}
                    val = self.gate(node, lambda p: self.ev_at(p, by[p[0]], i.ty))
                    env.ctx = ctx
                    env[i.res] = val
                else:
                    try:
                        self.step(i, mem, bn)
                    except Exception as e:
                        if not self.guess and not alg.LAX[0] and not getattr(e, 'placed', False):
                            alg.LAST[0] = mem.clone()
                        e.placed = True
                        raise
            t = b.ins[-1]
            if t.op == 'ret':
                rets.append((node, self.ev(t.args[0], t.ty) if t.args else None, mem))
                self.edges[node] = None
                continue
            self.mem_out[node] = mem
            if t.op == 'br' and not t.args:
                out = [(True, t.x[0])]
            elif t.op == 'br':
                c = self.simplify(self.bcond[bn])
                out = [(c, t.x[0]), (alg.cnot(c), t.x[1])]
            elif t.op == 'switch':
                v = self.simplify(self.bcond[bn])
                cases = {}
                other = True
                for k, l in t.x[1]:
                    e = eq0(v - con(k))
                    cases[l] = alg.cor(cases[l], e) if l in cases else e
                    other = alg.cand(other, alg.cnot(e))
                if t.x[0] in cases:
                    cases[t.x[0]] = alg.cor(cases[t.x[0]], other)
                else:
                    cases[t.x[0]] = other
                out = [(c, l) for l, c in cases.items()]
            else:
                raise Broken('terminator ' + t.op)
            es = []
            for c, l in out:
                if c is False:
                    continue
                n = self.target(node, l)
                if self.chain[l] and self.chain[l][-1] == l and len(ctx) >= len(n[1]) and n[1][-1] > 0 and c is not True:
                    k = (l, n[1][:-1])
                    undecided[k] = undecided.get(k, 0) + 1
                    if undecided[k] > SYMBOLIC:
                        raise Broken('loop %s: number of iterations not known' % l)
                es.append((c, n))
                if c is not True and not self.guess:
                    self.guess = True      # which way depends on the inputs
                    if not alg.LAX[0]:
                        alg.LAST[0] = mem.clone()
                if n not in self.preds:
                    self.preds[n] = []
                    heapq.heappush(heap, (self.order(n), n))
                if node not in self.preds[n]:
                    self.preds[n].append(node)
            self.edges[node] = es
        if not rets and not self.guess:
            raise alg.Endless('%s: no return' % f.name)
        if len(rets) != 1:
            raise Broken('%s: %s' % (f.name, 'several returns' if rets else 'no return'))
        self.ret, self.mem = rets[0][1], rets[0][2]

    def common(self, a, b):
        while a != b:
            if self.lvl[a] >= self.lvl[b]:
                a = self.idom[a]
            else:
                b = self.idom[b]
        return a

    def ev_at(self, node, v, ty):
        self.val.ctx = node[1]
        return self.ev(v, ty)

    def merge(self, node, preds):
        if not preds:
            return self.mem0.clone()
        mo = self.mem_out
        if len(preds) == 1:
            return mo[preds[0]].clone()
        return self.join([mo[p] for p in preds], lambda vals: self.gate(node, lambda p: vals[preds.index(p)]))

    def gate(self, n, pick):
        if len(self.preds[n]) == 1:
            return pick(self.preds[n][0])
        memo = {}
        kn = self.okey[n]

        def edge(x, y):
            if y == n:
                return pick(x)
            k = self.okey.get(y)
            if k is None or k > kn:
                return UNDEF
            return at(y)

        def at(x):
            if x in memo:
                return memo[x]
            es = self.edges[x]
            r = UNDEF
            for j, (c, y) in enumerate(reversed(es or ())):
                if c is True or j == 0:
                    r = edge(x, y)
                else:
                    r = ite(c, edge(x, y), r)
            memo[x] = r
            return r
        return at(self.idom[n])

    def block_id(self, res):
        c = self.val.ctx
        return self.at + (res if not c else '%s#%s' % (res, '.'.join(map(str, c))))

    # --- conditions known to hold where an instruction executes
    def known(self):
        return self.facts.get(self.here, {})

    def simplify(self, v):
        k = self.known()
        if not k or isinstance(v, (bool, dict)):
            return v
        if isinstance(v, alg.Poly):
            return self.subst().poly(v) if v.conds() & k.keys() else v
        if isinstance(v, alg.Ptr):
            return alg.Ptr(v.base, self.simplify(v.off))
        if isinstance(v, alg.PIte):
            c = self.simplify(v.c)
            if c is True:
                return self.simplify(v.a)
            if c is False:
                return self.simplify(v.b)
            return v
        if isinstance(v, tuple) and v and v[0] == 'c':
            return self.subst().cond(v[1])
        if isinstance(v, tuple) and v and v[0] == 'not':
            return alg.cnot(self.simplify(v[1]))
        if isinstance(v, tuple) and v and v[0] == 'and':
            return alg.cand(self.simplify(v[1]), self.simplify(v[2]))
        return v

    def subst(self):
        s = self.substs.get(self.here)
        if s is None:
            s = self.substs[self.here] = alg.Subst(self.known())
        return s

    def learn(self, node, pred):
        """Facts at a node: those of its dominator and, on its only way in, the condition of that edge."""
        base = self.facts.get(self.idom[node], {})
        if pred is not None:
            c = [c for c, n in self.edges[pred] if n == node]
            if len(c) == 1:
                lits = []

                def walk(x, pos):
                    if x is True or x is False:
                        return
                    if x[0] == 'c':
                        lits.append((x[1], pos))
                    elif x[0] == 'not':
                        walk(x[1], not pos)
                    elif x[0] == 'and' and pos:
                        walk(x[1], True)
                        walk(x[2], True)
                walk(c[0], True)
                if lits:
                    base = dict(base)
                    for ci, v in lits:
                        base.update(alg.implied(ci, v))
        self.facts[node] = base
        if base is self.facts.get(self.idom[node]) and self.idom[node] in self.substs:
            self.substs[node] = self.substs[self.idom[node]]
