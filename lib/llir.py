"""Minimal reader for textual LLVM IR (clang 18, opaque pointers).

Parses only what the analyses need; an instruction it does not understand is
kept with op='?' so that an analysis that reaches it reports "analysis broken"
instead of silently ignoring it.
"""
import re
import struct
from fractions import Fraction


class Instr:
    __slots__ = ('res', 'op', 'ty', 'args', 'x', 'text', 'blk', 'dbg')

    def __init__(self, res, op, ty, args, x, text):
        self.res, self.op, self.ty, self.args, self.x, self.text = res, op, ty, args, x, text
        self.blk = None
        self.dbg = None

    def __repr__(self):
        return self.text.strip()


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred')

    def __init__(self, name):
        self.name, self.ins, self.succ, self.pred = name, [], [], []


class Function:
    def __init__(self, name, ret, params):
        self.name, self.ret, self.params = name, ret, params
        self.blocks = {}
        self.order = []
        self.entry = None


class Module:
    def __init__(self):
        self.structs = {}
        self.funcs = {}
        self.globals = {}
        self.guards = []
        self.sizes = {}      # bytes of the objects of a law
        self.md = {}


# ------------------------------------------------------------------ lexing
TOK = re.compile(r'''\s*(
    %"(?:[^"\\]|\\.)*" | @"(?:[^"\\]|\\.)*" | c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
    %[-a-zA-Z$._0-9]+ | @[-a-zA-Z$._0-9]+ | ![-a-zA-Z$._0-9]* | \#\d+ |
    -?\d+\.\d+(?:e[+-]?\d+)? | 0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+ | [a-zA-Z_][a-zA-Z0-9_.]* |
    \.\.\. | [(){}\[\],=*<>|:]
)''', re.X)


def lex(s):
    out, i, n = [], 0, len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            out.append(s[i])
            i += 1
            continue
        out.append(m.group(1))
        i = m.end()
    return out


class P:
    """Token cursor."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def eat(self, *opts):
        if self.peek() in opts:
            return self.next()
        return None

    def expect(self, v):
        if self.next() != v:
            raise ValueError('expected %s in %s' % (v, ' '.join(self.t)))


PARAM_ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'zeroext',
               'signext', 'inreg', 'returned', 'immarg', 'noext', 'nofree', 'swiftself', 'nest', 'dead_on_unwind',
               'writable', 'allocptr', 'local_unnamed_addr', 'unnamed_addr', 'noreturn'}
PARAM_ATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'inalloca',
                   'range', 'nofpclass', 'captures', 'memory', 'initializes', 'elementtype', 'preallocated'}


def parse_type(p):
    t = p.next()
    if t == '[':
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect(']')
        return ('arr', n, e)
    if t == '<':
        if p.peek() == '{':
            s = parse_type(p)
            p.expect('>')
            return ('pstruct',) + s[1:]
        n = int(p.next())
        p.expect('x')
        e = parse_type(p)
        p.expect('>')
        return ('vec', n, e)
    if t == '{':
        el = []
        while p.peek() != '}':
            el.append(parse_type(p))
            p.eat(',')
        p.expect('}')
        return ('struct', tuple(el))
    if t.startswith('%'):
        return ('named', t)
    base = t
    if p.peek() == '(' and t not in ('ptr',):
        # function type
        p.next()
        el = []
        while p.peek() != ')':
            if p.peek() == '...':
                p.next()
            else:
                el.append(parse_type(p))
            p.eat(',')
        p.expect(')')
        return ('fn', base, tuple(el))
    return base


def skip_attrs(p):
    out = {}
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            out[p.next()] = True
        elif t in PARAM_ATTRS_ARG:
            k = p.next()
            if p.peek() == '(':
                d, st = 0, p.i
                while True:
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
                out[k] = p.t[st + 1:p.i - 1]
            else:
                out[k] = p.next()
        elif t is not None and t.startswith('"'):
            p.next()
            if p.peek() == '=':
                p.next()
                p.next()
        else:
            return out


def fconst(tok):
    """Exact rational of an LLVM double/float literal."""
    if tok.startswith('0x'):
        h = tok[2:]
        if h and h[0] in 'KLMHR':
            raise ValueError('odd float const ' + tok)
        v = struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    else:
        v = float(tok)
    return v


def parse_value(p, ty):
    """-> ('reg',name) | ('int',v) | ('fp',float) | ('undef',) | ('null',) | ('global',name) | ('zero',) |
          ('expr', op, ...) | ('agg', [(ty,val)..])"""
    t = p.next()
    if t.startswith('%'):
        return ('reg', t)
    if t.startswith('@'):
        return ('global', t)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'null':
        return ('null',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'none':
        return ('undef',)
    if ty in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
        return ('fp', fconst(t))
    if re.match(r'-?\d+$', t):
        return ('int', int(t))
    if t in ('getelementptr',):
        kw = p.eat('inbounds', 'nuw', 'nusw')
        while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
            p.next()
            if p.peek() == '(' and kw is None:
                break
        p.expect('(')
        bt = parse_type(p)
        ops = []
        while p.eat(','):
            while p.peek() in ('inrange', 'inbounds'):
                p.next()
            et = parse_type(p)
            ops.append((et, parse_value(p, et)))
        p.expect(')')
        return ('expr', 'gep', bt, ops)
    if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
        p.expect('(')
        st = parse_type(p)
        v = parse_value(p, st)
        p.expect('to')
        dt = parse_type(p)
        p.expect(')')
        return ('expr', t, st, v, dt)
    if t in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[t]
        packed = False
        if t == '<' and p.peek() == '{':
            p.next()
            close = '}'
            packed = True
        el = []
        while p.peek() != close:
            et = parse_type(p)
            el.append((et, parse_value(p, et)))
            p.eat(',')
        p.expect(close)
        if packed:
            p.expect('>')
        return ('agg', el)
    if t.startswith('c"'):
        raw = t[2:-1]
        b = bytearray()
        i = 0
        while i < len(raw):
            if raw[i] == '\\':
                b.append(int(raw[i + 1:i + 3], 16))
                i += 3
            else:
                b.append(ord(raw[i]))
                i += 1
        return ('bytes', bytes(b))
    if t == 'metadata':
        return ('undef',)
    if t in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'icmp'):
        d = 0
        while True:
            x = p.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    break
        return ('undef',)
    raise ValueError('value? %r in %s' % (t, ' '.join(p.t)))


FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nuw', 'nsw', 'exact', 'inbounds',
       'disjoint', 'nneg', 'tail', 'musttail', 'notail', 'volatile', 'samesign', 'nusw'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
         'inttoptr', 'bitcast', 'addrspacecast'}


def parse_instr(line):
    body = line
    dbg = re.search(r'!dbg (!\d+)', body)
    body = re.sub(r',\s*![a-zA-Z_.]+[\w.]* ![\w]+', '', body)
    body = re.sub(r';.*$', '', body) if '"' not in body else body
    toks = lex(body)
    p = P(toks)
    res = None
    if p.peek() and p.peek().startswith('%') and p.peek(1) == '=':
        res = p.next()
        p.next()
    ins = _pi(p, res, line)
    if dbg:
        ins.dbg = dbg.group(1)
    return ins


def _flags(p):
    f = set()
    while p.peek() in FMF:
        f.add(p.next())
    return f


def _pi(p, res, line):
    while p.peek() in ('tail', 'musttail', 'notail'):
        p.next()
    op = p.next()
    if op in BIN:
        fl = _flags(p)
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Instr(res, op, ty, [a, b], fl, line)
    if op in ('fneg', 'freeze'):
        _flags(p)
        ty = parse_type(p)
        return Instr(res, op, ty, [parse_value(p, ty)], None, line)
    if op in ('fcmp', 'icmp'):
        _flags(p)
        pred = p.next()
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect(',')
        b = parse_value(p, ty)
        return Instr(res, op, ty, [a, b], pred, line)
    if op in CASTS:
        _flags(p)
        ty = parse_type(p)
        a = parse_value(p, ty)
        p.expect('to')
        dt = parse_type(p)
        return Instr(res, op, dt, [a], ty, line)
    if op == 'select':
        _flags(p)
        ct = parse_type(p)
        c = parse_value(p, ct)
        p.expect(',')
        t1 = parse_type(p)
        a = parse_value(p, t1)
        p.expect(',')
        t2 = parse_type(p)
        b = parse_value(p, t2)
        return Instr(res, op, t1, [c, a, b], None, line)
    if op == 'phi':
        _flags(p)
        ty = parse_type(p)
        inc = []
        while True:
            p.expect('[')
            v = parse_value(p, ty)
            p.expect(',')
            l = p.next()
            p.expect(']')
            inc.append((v, l))
            if not p.eat(','):
                break
        return Instr(res, op, ty, [v for v, _ in inc], [l for _, l in inc], line)
    if op == 'load':
        at = p.eat('atomic')
        _flags(p)
        ty = parse_type(p)
        p.expect(',')
        pt = parse_type(p)
        a = parse_value(p, pt)
        return Instr(res, op, ty, [a], at, line)
    if op == 'fence':
        return Instr(None, op, None, [], None, line)
    if op == 'atomicrmw':
        _flags(p)
        how = p.next()
        pt = parse_type(p)
        a = parse_value(p, pt)
        p.expect(',')
        ty = parse_type(p)
        v = parse_value(p, ty)
        return Instr(res, op, ty, [a, v], how, line)
    if op == 'cmpxchg':
        p.eat('weak')
        _flags(p)
        pt = parse_type(p)
        a = parse_value(p, pt)
        p.expect(',')
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        parse_type(p)
        w = parse_value(p, ty)
        return Instr(res, op, ty, [a, v, w], None, line)
    if op == 'store':
        at = p.eat('atomic')
        _flags(p)
        ty = parse_type(p)
        v = parse_value(p, ty)
        p.expect(',')
        pt = parse_type(p)
        a = parse_value(p, pt)
        return Instr(res, op, ty, [v, a], at, line)
    if op == 'getelementptr':
        _flags(p)
        bt = parse_type(p)
        ops = []
        while p.eat(','):
            et = parse_type(p)
            ops.append((et, parse_value(p, et)))
        return Instr(res, 'gep', 'ptr', [v for _, v in ops], (bt, [t for t, _ in ops]), line)
    if op == 'alloca':
        ty = parse_type(p)
        n = []
        if p.eat(',') and p.peek() != 'align':
            et = parse_type(p)
            n = [parse_value(p, et)]
        return Instr(res, op, ty, n, None, line)
    if op in ('call', 'invoke'):
        _flags(p)
        while p.peek() in ('fastcc', 'coldcc', 'ccc'):
            p.next()
        skip_attrs(p)
        _flags(p)
        rt = parse_type(p)
        if isinstance(rt, tuple) and rt[0] == 'fn':
            rt = rt[1]
        callee = p.next()
        if callee == 'asm':
            return Instr(res, '?', rt, [], None, line)
        p.expect('(')
        args, tys = [], []
        while p.peek() != ')':
            t = parse_type(p)
            if t == 'metadata':
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    x = p.next()
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                args.append(('undef',))
                tys.append(t)
                p.eat(',')
                continue
            at = skip_attrs(p)
            args.append(parse_value(p, t))
            tys.append((t, at))
            p.eat(',')
        p.expect(')')
        x = {'callee': callee, 'tys': tys}
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next()
            p.next()
            x['normal'] = p.next()
            p.expect('unwind')
            p.next()
            x['unwind'] = p.next()
        return Instr(res, op, rt, args, x, line)
    if op == 'br':
        if p.peek() == 'label':
            p.next()
            return Instr(None, 'br', None, [], [p.next()], line)
        ty = parse_type(p)
        c = parse_value(p, ty)
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return Instr(None, 'br', None, [c], [a, b], line)
    if op == 'switch':
        ty = parse_type(p)
        c = parse_value(p, ty)
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cases = []
        while p.peek() != ']':
            t = parse_type(p)
            v = parse_value(p, t)
            p.expect(',')
            p.expect('label')
            cases.append((v[1], p.next()))
        return Instr(None, 'switch', ty, [c], (d, cases), line)
    if op == 'ret':
        ty = parse_type(p)
        if ty == 'void':
            return Instr(None, 'ret', ty, [], None, line)
        return Instr(None, 'ret', ty, [parse_value(p, ty)], None, line)
    if op == 'unreachable':
        return Instr(None, op, None, [], None, line)
    if op in ('extractvalue', 'insertvalue'):
        ty = parse_type(p)
        a = parse_value(p, ty)
        args = [a]
        if op == 'insertvalue':
            p.expect(',')
            et = parse_type(p)
            args.append(parse_value(p, et))
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return Instr(res, op, ty, args, idx, line)
    return Instr(res, '?' + op, None, [], None, line)


DEF = re.compile(r'^define .*?(@[-a-zA-Z$._0-9]+|@"[^"]*")\((.*)\)[^()]*\{')


def parse_module(path):
    m = Module()
    cur = None
    blk = None
    want_join = None
    with open(path) as f:
        for line in f:
            line = line.rstrip('\n')
            if want_join is not None:
                want_join += ' ' + line
                if ']' in line:
                    ins = parse_instr(want_join)
                    blk.ins.append(ins)
                    want_join = None
                continue
            if cur is None:
                if line.startswith('%') and ' = type ' in line:
                    nm, rhs = line.split(' = type ', 1)
                    if rhs.strip() == 'opaque':
                        continue
                    m.structs[nm.strip()] = parse_type(P(lex(rhs)))
                elif line.startswith('define '):
                    cur = parse_define(line)
                    m.funcs[cur.name] = cur
                    blk = None
                elif line.startswith('@'):
                    g = re.match(r'^(@[-\w$.]+|@"[^"]*") = (.*?)\b(constant|global) (.*)$', line)
                    if g and 'external' not in g.group(2).split():
                        try:
                            p = P(lex(re.sub(r',\s*(comdat|align|section|!).*$', '', g.group(4))))
                            ty = parse_type(p)
                            m.globals[g.group(1)] = (ty, parse_value(p, ty), g.group(3))
                        except Exception:
                            m.globals[g.group(1)] = None
                continue
            if line == '}':
                finish(cur)
                cur = None
                continue
            s = line.strip()
            if not s:
                continue
            lm = re.match(r'^([-a-zA-Z$._0-9]+|"[^"]*"):', line)
            if lm:
                nm = '%' + lm.group(1)
                blk = Block(nm)
                cur.blocks[nm] = blk
                cur.order.append(nm)
                continue
            if blk is None:
                nm = '%' + str(cur.nparams)
                blk = Block(nm)
                cur.blocks[nm] = blk
                cur.order.append(nm)
            if s.startswith('switch ') and ']' not in s:
                want_join = line
                continue
            ins = parse_instr(line)
            blk.ins.append(ins)
    return m


def parse_define(line):
    mm = re.search(r'(@"[^"]*"|@[-\w$.]+)\(', line)
    name = mm.group(1)
    i = mm.end() - 1
    d, j = 0, i
    while True:
        if line[j] == '(':
            d += 1
        elif line[j] == ')':
            d -= 1
            if d == 0:
                break
        j += 1
    p = P(lex(line[i + 1:j]))
    params = []
    while p.peek() is not None:
        if p.peek() == '...':
            p.next()
            continue
        t = parse_type(p)
        at = skip_attrs(p)
        nm = p.next() if p.peek() and p.peek().startswith('%') else '%' + str(len(params))
        params.append((t, nm, at))
        p.eat(',')
    f = Function(name[1:].strip('"'), None, params)
    f.nparams = len(params)
    sp = re.search(r'!dbg (!\d+)', line[j:])
    f.dbg = sp.group(1) if sp else None
    return f


def finish(f):
    f.entry = f.order[0]
    for b in f.blocks.values():
        t = b.ins[-1] if b.ins else None
        if t is None:
            continue
        if t.op == 'br':
            b.succ = list(t.x)
        elif t.op == 'switch':
            b.succ = [t.x[0]] + [l for _, l in t.x[1]]
        elif t.op == 'invoke':
            b.succ = [t.x['normal'], t.x['unwind']]
    for b in f.blocks.values():
        for i in b.ins:
            i.blk = b.name
        for s in dict.fromkeys(b.succ):
            f.blocks[s].pred.append(b.name)
    # Reverse post-order.
    seen, post = set(), []
    st = [(f.entry, iter(f.blocks[f.entry].succ))]
    seen.add(f.entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succ)))
                break
        else:
            post.append(n)
            st.pop()
    f.rpo = post[::-1]
    idx = {n: i for i, n in enumerate(f.rpo)}
    f.rpoidx = idx
    f.cyclic = any(s in idx and idx[s] <= idx[n] for n in f.rpo for s in f.blocks[n].succ)


def idoms(f):
    idx = f.rpoidx
    dom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in f.rpo[1:]:
            new = None
            for p in f.blocks[n].pred:
                if p in dom:
                    if new is None:
                        new = p
                    else:
                        a, b = p, new
                        while a != b:
                            while idx[a] > idx[b]:
                                a = dom[a]
                            while idx[b] > idx[a]:
                                b = dom[b]
                        new = a
            if dom.get(n) != new:
                dom[n] = new
                ch = True
    return dom


SCALAR_SIZE = {'float': 4, 'double': 8, 'ptr': 8, 'i1': 1, 'i8': 1, 'i16': 2, 'i32': 4, 'i64': 8, 'i128': 16}


def size_align(m, t):
    if isinstance(t, str):
        s = SCALAR_SIZE[t]
        return s, s
    k = t[0]
    if k == 'named':
        return size_align(m, m.structs[t[1]])
    if k in ('arr', 'vec'):
        s, a = size_align(m, t[2])
        return s * t[1], a
    if k == 'struct':
        o, al = 0, 1
        for e in t[1]:
            s, a = size_align(m, e)
            o = (o + a - 1) // a * a + s
            al = max(al, a)
        return (o + al - 1) // al * al, al
    if k == 'pstruct':
        return sum(size_align(m, e)[0] for e in t[1]), 1
    raise ValueError(t)


def field_offset(m, t, i):
    """(byte offset of element i, element type)"""
    if t[0] == 'named':
        return field_offset(m, m.structs[t[1]], i)
    if t[0] in ('arr', 'vec'):
        return size_align(m, t[2])[0] * i, t[2]
    o = 0
    for j, e in enumerate(t[1]):
        s, a = size_align(m, e)
        if t[0] == 'struct':
            o = (o + a - 1) // a * a
        if j == i:
            return o, e
        o += s
    raise ValueError


if __name__ == '__main__':
    import sys
    mod = parse_module(sys.argv[1])
    print(len(mod.funcs), len(mod.structs), len(mod.globals))
    from collections import Counter
    c = Counter(i.op for f in mod.funcs.values() for b in f.blocks.values() for i in b.ins)
    print(c)
