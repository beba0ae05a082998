#!/usr/bin/env python3
"""Mutation campaign: tool/mutate.py OUT N PROC FILE:PROPS... Small changes to /repo's files, one at a time, in private
mount namespaces with copies of /repo and /verif; prints which the checks of the listed properties report."""
import sys, os, re, random, subprocess, json, concurrent.futures as cf, shutil, hashlib, threading, queue
out, per, procs = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
targets = sys.argv[4:]
R = random.Random(int(os.environ.get('SEED', '7')))
OPS = [(r' \+ ', [' - ']), (r' - ', [' + ']), (r' \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' < ', [' <= ', ' > ']), (r' > ', [' >= ', ' < ']), (r' <= ', [' < ']), (r' >= ', [' > ']),
       (r' && ', [' || ']), (r' \|\| ', [' && ']), (r' == ', [' != ']), (r' != ', [' == ']), (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']),
       (r'\.x\b', ['.y']), (r'\.y\b', ['.z', '.x']), (r'\.z\b', ['.x', '.y']), (r'\.w\b', ['.x']), (r'\[0\]', ['[1]']), (r'\[1\]', ['[0]', '[2]']), (r'\[2\]', ['[1]', '[0]']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']), (r'\b0\b', ['1']), (r'\b1\b', ['0', '2']), (r'\b2\b', ['1', '3']), (r'\b3\b', ['2']),
       (r'A\b', ['B']), (r'B\b', ['A']), (r'0\b(?<=[a-z]0)', ['1']), (r'1\b(?<=[a-z]1)', ['0']), (r'([(,=] ?)-(?=[a-z(])', [r'\1']), (r'!(?=[a-z(])', ['']), (r'\babs\(', ['(']), (r'\bcos\(', ['sin(']), (r'\bsin\(', ['cos(']),
       (r'EDYN_EPSILON', ['0']), (r'\bbreak;', [';']), (r'\bcontinue;', [';']), (r'push_back', ['pop_back(), (void)']), (r'scalar\(0\.5\)', ['scalar(0.25)']), (r'half', ['']), (r'notify_one|notify_all', ['native_handle']),
       (r'\+\+', ['--']), (r'begin\(\)', ['end()']), (r'lower_bound', ['upper_bound']), (r'(\w+), (\w+)\)', [r'\2, \1)'])]


def sites(f):
    L = open('/repo/' + f).read().split('\n')
    res, com = [], False
    for n, l in enumerate(L):
        c = l.strip()
        if com:
            com = '*/' not in c
            continue
        if c.startswith('/*'):
            com = '*/' not in c
            continue
        if not c or c.startswith(('//', '#', '*', 'template', 'namespace', 'using', 'static_assert', 'EDYN_ASSERT', 'struct', 'class', 'friend', 'typedef')):
            continue
        body = l.split('//')[0]
        for pat, news in OPS:
            for m in re.finditer(pat, body):
                for new in news:
                    r = m.expand(new) if '\\' in new else new
                    if r != m.group(0):
                        res.append((n, body[:m.start()] + r + body[m.end():]))
        if c.endswith(';') and re.match(r'\s+\S', l) and not re.match(r'(return|auto|const|using|friend|case|default|public|private|virtual)\b', c) and ('=' in c or '(' in c) and not re.match(r'[\w:<>,&\* ]+ \w+( \{.*\}| = .*)?;$', c):
            res.append((n, re.match(r'\s*', l).group(0) + ';'))
    return L, res


slots = queue.Queue()
for k in range(procs):
    slots.put(k)
def prep(k):
    d = '/tmp/mut/s%d' % k
    subprocess.run(['rm', '-rf', d])
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'])
    os.makedirs(d + '/verif')
    for x in ('bin', 'lib', 'harness', 'tool', 'stub', 'stubf', 'known_findings.txt', 'build'):
        if os.path.exists('/verif/' + x):
            subprocess.run(['cp', '-a', '/verif/' + x, d + '/verif/' + x])
for k in range(procs):
    prep(k)
lock = threading.Lock()
fo = open(out, 'a')


def one(job):
    f, props, n, new, old = job
    k = slots.get()
    try:
        d = '/tmp/mut/s%d' % k
        p = d + '/repo/' + f
        src = open('/repo/' + f).read()
        L = src.split('\n')
        L[n] = new
        open(p, 'w').write('\n'.join(L))
        cmd = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && for q in %s; do timeout 300 bin/check $q > /tmp/mut/s%d/out.$q 2>&1; echo "$q $?"; done' % (d, d, ' '.join(props), k)
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', cmd], capture_output=True, text=True)
        st = dict(l.split() for l in r.stdout.split('\n') if l)
        und = sum(int(x) for q in props for x in re.findall(r'undecided=(\d+)', open('%s/out.%s' % (d, q)).read()) if os.path.exists('%s/out.%s' % (d, q)))
        open(p, 'w').write(src)
        v = 'CAUGHT' if '1' in st.values() else 'nocompile' if '2' in st.values() and any('cannot compile' in open('%s/out.%s' % (d, q)).read() for q in props) else 'SURVIVED'
        with lock:
            fo.write(json.dumps(dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), verdict=v, status=st, undecided=und)) + '\n')
            fo.flush()
    except Exception as e:
        print('error', job, e)
    finally:
        slots.put(k)


jobs = []
for t in targets:
    f, props = t.split(':')
    L, s = sites(f)
    R.shuffle(s)
    seen = set()
    for n, new in s:
        if len(seen) >= per:
            break
        key = (n, new)
        if key in seen:
            continue
        seen.add(key)
        jobs.append((f, props.split(','), n, new, L[n]))
print(len(jobs), 'mutants')
with cf.ThreadPoolExecutor(procs) as ex:
    list(ex.map(one, jobs))
for k in range(procs):
    subprocess.run(['rm', '-rf', '/tmp/mut/s%d' % k])
