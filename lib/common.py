"""Shared services: tiers, builds, evidence, verdicts."""
import json, os, re, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
LLVM = '/usr/lib/llvm-18/bin/'
JOBS = os.cpu_count() or 4

IRFLAGS = ('-std=c++17 -O2 -fno-delete-null-pointer-checks -fno-vectorize -fno-slp-vectorize -fno-exceptions -fno-rtti -fno-math-errno '
           '-ffp-contract=off -mllvm -inline-threshold=100000 -mllvm -unroll-threshold=50000 '
           '-mllvm -unroll-full-max-count=16 -DEDYN_DISABLE_ASSERT -DNDEBUG -w '
           '-I{v}/stub -I{v}/stub/gen_double -I{r}/include').format(v=VERIF, r=REPO).split()
ASTFLAGS = ('-std=c++17 -DEDYN_DEBUG -w -I{v}/stub -I{v}/stub/gen -I{r}/include').format(v=VERIF, r=REPO).split()


class CheckError(Exception):
    """Analysis broken: neither a pass nor a violation."""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def scratch(name):
    d = os.path.join(BUILD, 'work')
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, '%d-%s' % (os.getpid(), name))


def compile_ir(src, extra=()):
    """LLVM IR of a harness with the sources of /repo that it includes."""
    if '//@registry' in open(src).read():        # against the model of the registry
        extra = ['-I%s/stubf' % VERIF] + list(extra)
    out = scratch(re.sub(r'\W', '_', os.path.basename(src)) + str(abs(hash(tuple(extra))) % 9973) + '.ll')
    r = run(['clang++'] + list(extra) + IRFLAGS + ['-S', '-emit-llvm', src, '-o', out])
    if r.returncode and not link_ir(src, extra, out):
        raise CheckError('clang cannot compile %s against /repo:\n%s' % (src, r.stderr[-3000:]))
    r = run([LLVM + 'opt', '-passes=loop-simplify,lcssa', '-S', out, '-o', out])
    if r.returncode:
        raise CheckError('opt: ' + r.stderr[-2000:])
    return out


def link_ir(src, extra, out):
    """Every source as a translation unit of its own, linked and optimised together: names local to two sources do not clash."""
    inc = re.compile(r'^#include "(/repo/src/[^"]*\.cpp)"[^\n]*\n', re.M)
    text = open(src).read()
    units = [src + '.own.cpp'] + inc.findall(text)
    own = scratch(os.path.basename(src) + '.own.cpp')
    with open(own, 'w') as f:
        f.write(inc.sub(lambda m: '\n'.join(re.findall(r'^#include .*', open(m.group(1)).read(), re.M)) + '\n', text))
    units[0] = own
    bcs, ok = [], True
    for i, u in enumerate(units):
        bc = out + '.%d.bc' % i
        bcs.append(bc)
        ok = ok and run(['clang++'] + list(extra) + IRFLAGS + ['-I', os.path.dirname(src), '-Xclang', '-disable-llvm-passes', '-c', '-emit-llvm', u, '-o', bc]).returncode == 0
    ok = ok and run([LLVM + 'llvm-link'] + bcs + ['-o', out + '.bc']).returncode == 0
    keep = ','.join('law_' + m for m in re.findall(r'(?:LAW\(|//@law )\s*(\w+)', text))
    ok = ok and run([LLVM + 'opt', '-passes=internalize,default<O2>', '-internalize-public-api-list=' + keep, '-inline-threshold=100000', '-unroll-threshold=50000',
                     '-unroll-full-max-count=16', '-vectorize-slp=false', '-vectorize-loops=false', '-S', out + '.bc', '-o', out]).returncode == 0
    for f in bcs + [own, out + '.bc']:
        if os.path.exists(f):
            os.remove(f)
    return ok


def extractor():
    exe = os.path.join(BUILD, 'edyn-extract')
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = exe + '.%d' % os.getpid()
    r = run(['clang++', '-O0', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
             '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1'])
    if r.returncode:
        raise CheckError('extractor build failed:\n' + r.stderr[-3000:])
    os.replace(tmp, exe)
    return exe


class Check:
    def __init__(self, pid, level='other'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.violations = []      # (key, text)
        self.known = []
        self.cov = {}
        self.rules = []
        self.assumptions = []
        self.notes = []

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def set(self, **kw):
        self.cov.update(kw)

    def violate(self, key, text):
        """key identifies the construct (stable text), text is the report."""
        if key not in [k for k, _ in self.violations]:
            self.violations.append((key, text))

    def require(self, what, n, least):
        if n < least:
            raise CheckError('%s: found %d, the rule needs at least %d' % (what, n, least))

    def known_findings(self):
        out = []
        p = os.path.join(VERIF, 'known_findings.txt')
        if os.path.exists(p):
            for l in open(p):
                m = re.match(r'known: property=(\S+) key=\[(.*?)\] (.*)', l.strip())
                if m and m.group(1) == self.pid:
                    out.append((m.group(2), m.group(3)))
        return out

    def finish(self):
        kn = self.known_findings()
        new = []
        for key, text in self.violations:
            hit = [d for k, d in kn if k == key]
            if hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, hit[0]))
                self.known.append(key)
            else:
                new.append((key, text))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.cov)
        if self.rules:
            cov['rules'] = self.rules
        cov.setdefault('explanation', 'Source analysed on this run: ' + ', '.join('%s %s' % (v, k.replace('_', ' ')) for k, v in self.cov.items()
                                                                              if isinstance(v, int)) + '. ' + ' '.join(self.rules))
        ev = {'property': self.pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': self.level,
              'coverage': cov, 'wall_s': round(time.time() - self.t0, 3),
              'violations': len(new), 'assumptions': self.assumptions}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        rp = os.path.join(VERIF, 'evidence', self.pid + '.report.txt')
        with open(rp, 'w') as f:
            f.write('property %s: %d violation(s)\n' % (self.pid, len(new)))
            for k, t in new:
                f.write('\n[%s]\n%s\n' % (k, t))
            for n in self.notes:
                f.write('\nnote: %s\n' % n)
        print('%s: %s' % (self.pid, ', '.join('%s=%s' % (k, v) for k, v in cov.items()
                                               if isinstance(v, (int, float)))))
        if new:
            for k, t in new[:20]:
                print('  [%s] %s' % (k, t.replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        return 0


def pmap(fn, items, procs=None):
    with cf.ProcessPoolExecutor(max_workers=procs or JOBS) as ex:
        return list(ex.map(fn, items))


def tmap(fn, items):
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex:
        return list(ex.map(fn, items))


def locate(names):
    """Definition sites in /repo of the functions a law constrains (for the report only)."""
    out = []
    for n in names:
        base = n.split('::')[-1]
        if not re.match(r'[a-z_]\w+$', base):
            continue
        r = run(['grep', '-rnE', r'^[A-Za-z_].*\b%s\(.*(\{|,)\s*$' % base, REPO + '/src', REPO + '/include'])
        for l in r.stdout.splitlines()[:2]:
            f, ln = l.split(':')[:2]
            out.append('%s at %s:%s' % (n, os.path.relpath(f, REPO), ln))
    return out
