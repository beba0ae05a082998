"""Stand-ins for the threading primitives that the analysed code calls: what they do to the state, and counters of how they were used."""
G = ('ghost', 0)
HELD, BAD, OUTSIDE, NOTIFIED, LOCKS, UNLOCKS, FAULT, LOOSE = (8 * k for k in range(8))
SLOTS = 64


def get(g, mem, k):
    import alg
    return alg.asnum(g.fetch(mem, G, k, 'double'))


def put(g, mem, k, v):
    g.put(mem.edit(G), k, v, 8)


def add(g, mem, k, v):
    import alg
    put(g, mem, k, get(g, mem, k) + (alg.con(v) if isinstance(v, int) else v))


def word(g, p):
    import alg
    p = g.simplify(p)
    if not isinstance(p, alg.Ptr) or p.off.const() is None:
        raise alg.Broken('mutex at an unknown address')
    return p


def guarded(g, p):
    import alg
    if not isinstance(p, alg.Ptr):
        return False
    o = p.off.const()
    for base, lo, hi in g.m.guards:
        if p.base == base and (o is None or lo <= o < hi):
            return True
    return False


def touch(g, mem, i, p):
    import alg
    if isinstance(p, alg.PIte):
        touch(g, mem, i, p.a)
        touch(g, mem, i, p.b)
    elif guarded(g, p):
        h = get(g, mem, HELD)
        free = alg.eq0(h)
        if free is not False:
            add(g, mem, OUTSIDE, alg.ite(free, alg.con(1), alg.ZERO))


def lock(g, i, args, mem):
    import alg
    p = word(g, args[0])
    was = alg.asnum(g.fetch(mem, p.base, int(p.off.const()), 'i32'))
    add(g, mem, BAD, alg.ite(alg.eq0(was), alg.ZERO, alg.con(1)))
    g.put(mem.edit(p.base), int(p.off.const()), alg.con(1), 4)
    add(g, mem, LOCKS, 1)
    if guarded(g, p):
        add(g, mem, HELD, 1)
    if i.res:
        g.val[i.res] = alg.ZERO


def unlock(g, i, args, mem):
    import alg
    p = word(g, args[0])
    was = alg.asnum(g.fetch(mem, p.base, int(p.off.const()), 'i32'))
    add(g, mem, BAD, alg.ite(alg.eq0(was), alg.con(1), alg.ZERO))
    g.put(mem.edit(p.base), int(p.off.const()), alg.ZERO, 4)
    add(g, mem, UNLOCKS, 1)
    if guarded(g, p):
        add(g, mem, HELD, -1)
    if i.res:
        g.val[i.res] = alg.ZERO


def trylock(g, i, args, mem):
    import alg
    p = word(g, args[0])
    was = alg.asnum(g.fetch(mem, p.base, int(p.off.const()), 'i32'))
    if was.const() != 0:
        raise alg.Broken('trylock')
    lock(g, i, args, mem)


def notify(g, i, args, mem):
    import alg
    add(g, mem, NOTIFIED, 1)
    if guarded(g, g.simplify(args[0])):
        add(g, mem, LOOSE, alg.ite(alg.eq0(get(g, mem, HELD)), alg.con(1), alg.ZERO))


def nothing(g, i, args, mem):
    import alg
    if i.res:
        g.val[i.res] = alg.ZERO


def guard(g, i, args, mem):
    p = word(g, args[0])
    o, n = int(p.off.const()), int(args[1].const())
    g.m.guards.append((p.base, o, o + n))


def unguard(g, i, args, mem):
    g.m.guards.clear()


def ghost(g, i, args, mem):
    g.val[i.res] = get(g, mem, 8 * int(args[0].const()))


def tick(g, i, args, mem):
    """law_tick(k): counter k of the law before the increment."""
    import alg
    k = SLOTS + 8 * int(args[0].const())
    v = get(g, mem, k)
    put(g, mem, k, v + alg.con(1))
    g.val[i.res] = v


def peek(g, i, args, mem):
    g.val[i.res] = get(g, mem, SLOTS + 8 * int(args[0].const()))


MODELS = {
    'pthread_mutex_lock': lock, 'pthread_mutex_unlock': unlock, 'pthread_mutex_trylock': trylock, 'pthread_mutex_destroy': nothing, 'pthread_mutex_init': nothing,
    'pthread_cond_destroy': nothing, 'pthread_cond_init': nothing, 'pthread_cond_signal': notify, 'pthread_cond_broadcast': notify,
    '_ZNSt18condition_variable10notify_oneEv': notify, '_ZNSt18condition_variable10notify_allEv': notify,
    '_ZNSt18condition_variableC1Ev': nothing, '_ZNSt18condition_variableD1Ev': nothing, '_ZNSt18condition_variableC2Ev': nothing, '_ZNSt18condition_variableD2Ev': nothing,
    'law_guard': guard, 'law_unguard': unguard, 'law_ghost': ghost, 'law_tick': tick, 'law_peek': peek,
}
