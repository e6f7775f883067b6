#!/usr/bin/env python3
"""Driver of the contract checks: python3 tool/lfv.py check C02   (VERIF_TIER, VERIF_SEED)

Compiles /repo's current sources to LLVM IR, links the contracts of harness/, lets
build/lfvc generate and discharge every obligation, replays counterexamples against the
natively compiled code, and writes evidence/<id>.json."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LFV_REPO', '/repo')
LIB = REPO + '/lib/lf'
B = os.environ.get('LFV_BUILD', V + '/build')
JOBS = int(os.environ.get('LFV_JOBS', str(os.cpu_count() or 8)))
sys.path.insert(0, V + '/tool')
from checks import CHECKS  # noqa: E402

DEFS = ('-std=gnu++20 -I%s/lib -isystem /usr/include/eigen3 -DBOOST_ENABLE_ASSERT_DEBUG_HANDLER -DFMT_SHARED '
        '-DLF_REDIRECT_ASSERTS -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -w -I%s/rt' % (REPO, V)).split()
VFLAGS = DEFS + ('-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_OFF -DEIGEN_DONT_VECTORIZE -DLFV_VERIFY -O1 -Xclang -disable-llvm-passes '
                 '-emit-llvm -c -ffp-contract=off -fno-math-errno -gline-tables-only -fdebug-info-for-profiling').split() + ['-include', V + '/rt/pre.h']
NFLAGS = DEFS + '-DSPDLOG_ACTIVE_LEVEL=SPDLOG_LEVEL_TRACE -O1 -c -fPIC'.split()
T0 = time.time()
QUICK_BUDGET = 840  # a quick check answers within this many seconds: native runs that no longer fit are skipped


def left():
    return QUICK_BUDGET - (time.time() - T0) if os.environ.get('VERIF_TIER', 'quick') != 'thorough' else 1e6


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


_h = {}


def fhash(p):
    if p not in _h:
        try:
            _h[p] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
        except OSError:
            _h[p] = 'missing'
    return _h[p]


def cached_compile(args):
    cxx, flags, src, out = args
    man = out + '.man'
    key = hashlib.sha1((cxx + ' '.join(flags) + src).encode()).hexdigest()
    try:
        m = json.load(open(man))
        if m['key'] == key and os.path.exists(out) and all(fhash(d) == h for d, h in m['deps'].items()):
            return (src, 0, '')
    except (OSError, ValueError, KeyError):
        pass
    tmp = out + '.%d.tmp' % os.getpid()
    r = subprocess.run([cxx] + flags + [src, '-o', tmp, '-MMD', '-MF', tmp + '.d'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return (src, r.returncode, r.stdout)
    deps = open(tmp + '.d').read().replace('\\\n', ' ').split(':', 1)[1].split()
    os.replace(tmp, out)
    os.remove(tmp + '.d')
    json.dump({'key': key, 'deps': {d: fhash(d) for d in deps}}, open(man, 'w'))
    return (src, 0, '')


def sources(chk):
    s = []
    for pat in ['base/*.cc'] + chk['src']:
        for f in sorted(glob.glob(LIB + '/' + pat)):
            if 'has_backtrace' in f or f in s:
                continue
            s.append(f)
    return s


def build_engine():
    os.makedirs(B, exist_ok=True)
    with open(B + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(['make', '-s', '-C', V + '/engine', '-j', str(JOBS), 'B=' + B], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            print(r.stdout)
            sys.exit(3)


def objname(src, ext):
    return src.replace(REPO + '/lib/lf/', 'lf_').replace(V + '/', 'v_').replace('/', '_') + ext


def compile_all(srcs, flags, cxx, sub, ext):
    d = B + '/' + sub
    os.makedirs(d, exist_ok=True)
    jobs = [(cxx, flags, s, d + '/' + objname(s, ext)) for s in srcs]
    with open(d + '/.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(cached_compile, jobs))
    bad = [r for r in res if r[1]]
    for r in bad:
        print('COMPILE ERROR', r[0], r[2][-3000:])
    if bad:
        return None
    return [j[3] for j in jobs]


class Native:
    """the contracts compiled against the real code, for replay and sampling"""

    def __init__(self, pid, chk):
        self.pid, self.chk, self.bin = pid, chk, None

    def get(self):
        if self.bin is None:
            t = time.time()
            hs = [V + '/harness/' + h for h in self.chk['harness']]
            objs = compile_all(sources(self.chk) + hs + [V + '/rt/native.cc'], NFLAGS, 'g++', 'nat', '.o')
            if objs is None:
                self.bin = ''
            else:
                out = B + '/nat/run_' + self.pid + '_%d' % os.getpid()
                r = subprocess.run(['g++', '-rdynamic', '-o', out] + objs + ['-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,lazy', '-lspdlog', '-lfmt', '-ldl'] + self.chk.get('ldflags', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    print(r.stdout[-3000:])
                    self.bin = ''
                else:
                    self.bin = out
            log('native build %.1fs' % (time.time() - t))
        return self.bin

    def run(self, args, timeout):
        if left() < (25 if self.bin else 150):
            return 5, 'no time left for a native run'
        b = self.get()
        if not b:
            return 3, 'native build failed'
        timeout = max(1, min(timeout, left() - 5))
        try:
            r = subprocess.run([b] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace', text=True)
            return r.returncode, r.stdout[-6000:]
        except subprocess.TimeoutExpired as e:
            return 124, (e.stdout or b'').decode(errors='replace')[-3000:] if isinstance(e.stdout, bytes) else ''

    def close(self):
        if self.bin and os.path.exists(self.bin):
            os.remove(self.bin)


def known_findings(pid):
    r = []
    p = V + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                m = re.match(r'finding: property=\S+ unit=(\S+) obligation="([^"]*)" (.*)', l)
                if m:
                    r.append((m.group(1), m.group(2), m.group(3)))
    return r


def check(pid):
    chk = CHECKS[pid]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    build_engine()
    hs = [V + '/harness/' + h for h in chk['harness']]
    srcs = sources(chk)
    bcs = compile_all(srcs + hs + [V + '/rt/shim.cc'], VFLAGS, 'clang++', 'bc', '.bc')
    if bcs is None:
        print('ERROR: sources do not compile')
        return 2
    log('compiled %d translation units of %s' % (len(srcs), REPO))
    out = '%s/out_%s_%d.jsonl' % (B, pid, os.getpid())
    tl = chk.get('unit_limit', {}).get(tier, 150 if tier == 'quick' else 1500)
    total = chk.get('total', {}).get(tier, 500 if tier == 'quick' else 7200)
    total = int(max(60, min(total, left() - 190)))
    cmd = [B + '/lfvc', '-j', str(JOBS), '-t', str(tl), '-T', str(total), '-m', str(chk.get('mem', 7)), '-o', out, '-v']
    if tier == 'quick':
        cmd += ['-x', 'prove_T_']
    if os.environ.get('LFV_UNITS'):
        cmd += ['-u', os.environ['LFV_UNITS']]
    cmd += bcs
    t = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=total + 240)
        if p.returncode:
            print(p.stdout[-3000:])
            print('ERROR: verifier ended with', p.returncode)
            return 2
        log('lfvc:', p.stdout.strip()[-300:])
    except subprocess.TimeoutExpired:
        print('ERROR: verifier timed out')
        return 2
    res = [json.loads(l) for l in open(out)]
    os.remove(out)
    units = {}
    for r in res:
        units.setdefault(r['unit'], []).append(r)
    log('%d units, %d jobs in %.1fs' % (len(units), len(res), time.time() - t))

    if os.environ.get('LFV_STOP'):  # development aid (tool/mutate.py): no replay, no evidence
        fl = [(u, f['name'], f['status']) for u in units for r in units[u] for f in r['failures']]
        for x in fl[:3]:
            print('  failed: %s : %s (%s)' % x)
        for u in units:
            for r in units[u]:
                if r['error'] or (r['incomplete'] and not fl):
                    print('UNDECIDED', u, r['error'] or 'incomplete')
        return 1 if fl else 0
    nat = Native(pid, chk)
    rdir = '%s/replay/%s' % (B, pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    known = known_findings(pid)
    seen_known = set()
    violations, bounded, lines = [], [], []
    nrep = [0]

    def replay_file(u, f, nout, kind):
        nrep[0] += 1
        fn = '%s/%03d.replay' % (rdir, nrep[0])
        with open(fn, 'w') as o:
            o.write('# property %s, contract %s\n# obligation: %s\n# verifier: %s (%s)\n# %s\n' % (pid, u, f['name'], f['status'], f['how'], f['detail'].replace('\n', ' ')))
            o.write('# %s\n# replay: <native contract binary> replay %s <this file>\n' % (kind, u))
            o.write('seed %d\n' % (f.get('seed', 1000) if f.get('seed', -1) >= 0 else 1000))
            for c in f.get('choices', []):
                o.write('choice %s %d\n' % (c[0], c[1]))
            for c in f.get('inputs', []):
                o.write('input %s %.17g\n' % (c[0], c[1]))
            for l in nout.split('\n'):
                o.write('# native: %s\n' % l)
        return fn

    def random_search(u, secs, n=100000, sd=None, mode='random'):
        return nat.run([mode, u, str(n), str(sd or seed), str(secs)], secs + 90)

    def is_known(u, f):
        for ku, ko, d in known:
            if re.fullmatch(ku, u) and ko == f['name']:
                return (ku, ko, d)
        return None

    nwork = 0
    for u, rs in sorted(units.items()):
        fl = [f for r in rs for f in r['failures']]
        inc = [r for r in rs if r['incomplete'] or r['error']]
        bynames = {}
        for f in fl:
            k = is_known(u, f)
            if k:
                seen_known.add(k)
                continue
            bynames.setdefault(f['name'], []).append(f)
        found_here = False
        for name, fs in bynames.items():
            if len(violations) >= 6 or (found_here and nwork > 4):
                break
            nwork += 1
            fs.sort(key=lambda f: 0 if f['status'] == 'violated' else 1)
            done = False
            for f in fs[:4]:
                if f['status'] != 'violated':
                    continue
                fn = replay_file(u, f, '', 'counterexample of the verifier')
                rc, o = nat.run(['replay', u, fn], 100)
                if rc == 1 or rc == 79:
                    with open(fn, 'a') as fo:
                        fo.write('# native run of the real code fails:\n' + ''.join('# %s\n' % l for l in o.split('\n')))
                    violations.append((fn, False, u, name))
                    done = True
                    break
            if not done and fs[0]['status'] != 'covered':
                rc, o = random_search(u, 12 if tier == 'quick' else 60)
                if rc == 0:
                    rc, o = random_search(u, 8 if tier == 'quick' else 60, mode='special')
                if rc == 1:
                    m = re.search(r'SEED (\d+)', o)
                    f = dict(fs[0])
                    f['seed'] = int(m.group(1)) if m else 1000
                    f['choices'] = []
                    f['inputs'] = []
                    fn = replay_file(u, f, o, 'failing input found by sampling the contract on the real code')
                    violations.append((fn, False, u, name))
                else:
                    fn = replay_file(u, fs[0], o, 'no failing input found; the obligation is not discharged')
                    violations.append((fn, True, u, name))
            found_here = True
        if inc and not found_here:
            why = '; '.join(sorted(set(r['error'] or 'incomplete' for r in inc)))[:400]
            rc, o = random_search(u, 15 if tier == 'quick' else 60)
            if rc == 1:
                m = re.search(r'SEED (\d+)', o)
                f = {'name': 'contract ' + u, 'status': 'undecided', 'how': 'verifier limit: ' + why, 'detail': '', 'seed': int(m.group(1)) if m else 1000}
                violations.append((replay_file(u, f, o, 'failing input found by sampling the contract on the real code'), False, u, f['name']))
            else:
                m = re.search(r'RAN (\d+)', o)
                bounded.append({'unit': u, 'reason': why, 'native_samples': int(m.group(1)) if m else 0})
        # vacuity
        if not inc and not found_here:
            ob = sum(r['obligations'] for r in rs)
            cov = sum(sum(r['covers'].values()) for r in rs)
            if ob == 0 or cov == 0:
                f = {'name': 'vacuity: the contract generates obligations and its cover is reached', 'status': 'violated', 'how': 'vacuity', 'detail': 'obligations=%d covers=%d' % (ob, cov)}
                if not is_known(u, f):
                    rc, o = random_search(u, 10)
                    if rc == 1:
                        m = re.search(r'SEED (\d+)', o)
                        f['seed'] = int(m.group(1)) if m else 1000
                        violations.append((replay_file(u, f, o, 'failing input found by sampling'), False, u, f['name']))
                    else:
                        violations.append((replay_file(u, f, o, 'no failing input found'), True, u, f['name']))
    sampled = 0
    if tier == 'thorough' and not violations:
        for u in sorted(units):
            if known and any(re.fullmatch(k[0], u) for k in known):
                continue
            rc, o = random_search(u, 3, 300)
            m = re.search(r'RAN (\d+)', o)
            sampled += int(m.group(1)) if m else 0
            if rc == 1:
                m = re.search(r'SEED (\d+)', o)
                f = {'name': 'contract ' + u, 'status': 'sampled', 'how': 'native sampling', 'detail': '', 'seed': int(m.group(1)) if m else 1000}
                violations.append((replay_file(u, f, o, 'failing input found by sampling the contract on the real code'), False, u, f['name']))
    nat.close()

    for k in sorted(known):
        if k in seen_known:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    names, how, fns, ext, notes, covers = {}, {}, set(), set(), set(), {}
    tot = prv = paths = steps = 0
    solver = {'queries': 0, 'seconds': 0.0, 'unsat': 0, 'sat': 0, 'unknown': 0}
    for r in res:
        tot += r['obligations']
        prv += r['proved']
        paths += r['paths']
        steps += r['steps']
        fns.update(r['functions'])
        ext.update(r['externals'])
        notes.update(r['notes'])
        for c, n in r['covers'].items():
            covers[c] = covers.get(c, 0) + n
        for n, d in r['byName'].items():
            e = names.setdefault(n, {})
            for h, c in d.items():
                e[h] = e.get(h, 0) + c
                how[h] = how.get(h, 0) + c
        for k in solver:
            solver[k] += r['solver'].get(k, 0)
    level = chk['level']
    cov = {
        'explanation': chk['explain'],
        'obligations': tot, 'discharged': prv, 'by_obligation': names, 'by_back_end': how,
        'contracts': len(units), 'contract_units': sorted(units), 'paths': paths, 'instructions_executed': steps,
        'functions_under_contract': sorted(fns), 'functions_count': len(fns), 'covers': covers,
        'solver': solver, 'checker_cmd': 'VERIF_TIER=%s python3 tool/lfv.py check %s' % (tier, pid),
        'trusted_base': TRUSTED + ['external function: ' + e for e in sorted(ext)],
        'scope': 'the whole domain of the property (bounds: see there)' if level == 'proof' else 'all data of every instance of a bounded family of instances (see bounds); bounded, not counted as an unbounded proof',
        'bounds': chk.get('bounds', []), 'bounded_fallback': bounded, 'native_cross_check_samples': sampled,
        'evaluations': tot, 'distinct_nontrivial': prv, 'rule': 'one obligation per contract clause and path; non-trivial = discharged by a back end', 'samples': sorted(names)[:20],
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': chk.get('assumptions', []) + ASSUME + sorted(notes), 'wall_s': round(time.time() - T0, 2), 'violations': len(violations)}
    os.makedirs(V + '/evidence', exist_ok=True)
    json.dump(ev, open('%s/evidence/%s.json' % (V, pid), 'w'), indent=1)
    for b in bounded:
        print('UNDECIDED (outside the verifier\'s reach, bounded stand-in: %d native samples) %s: %s' % (b['native_samples'], b['unit'], b['reason']))
    log('%s: %d obligations, %d discharged, %d contracts, %d functions, %d paths' % (pid, tot, prv, len(units), len(fns), paths))
    violations.sort(key=lambda v: v[1])
    for fn, noinp, u, name in violations:
        print('  failed: %s : %s' % (u, name))
        print('VIOLATION property=%s replay=%s%s' % (pid, fn, ' no-failing-input-found' if noinp else ''))
        if not noinp:
            pass
    return 1 if violations else 0


TRUSTED = [
    'clang 18 front end and LLVM O1 scalar passes (the verified text is the IR they produce from the current sources)',
    'build/lfvc: VC generator and symbolic evaluator, rational-function normal forms (GMP)', 'z3 4.8.12 for the remaining conditions',
    'rt/pre.h: Eigen determinant / inverse / QR solve of orders 1..3 satisfy their mathematical contract', 'rt/shim.cc: libstdc++ red-black tree, hash policy and list hooks',
]
ASSUME = [
    'doubles derived from symbolic inputs are treated as mathematical reals (rounding, overflow and NaN are outside the model); concrete doubles are IEEE',
    'integers are machine integers (wrap-around modelled)', 'allocation succeeds; output streams and loggers have no observable effect',
    'termination is not proved',
]

if __name__ == '__main__':
    if len(sys.argv) < 3 and sys.argv[1:2] != ['setup']:
        print(__doc__)
        sys.exit(3)
    if sys.argv[1] == 'setup':
        build_engine()
        sys.exit(0)
    try:
        sys.exit(check(sys.argv[2]))
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
