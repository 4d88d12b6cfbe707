#!/usr/bin/env python3
"""Decide one property: run.py <property id>

Compiles the property's harnesses against /repo/include, encodes them, lets the
solver decide every obligation, replays counterexamples on the real code.
exit 0 held, 1 violated (replayed), 2 undecided.
"""
import concurrent.futures as cf
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
ENG = os.path.join(HERE, 'engine')
REPO = '/repo'
CLANG = '/usr/bin/clang++-18'
CLANGC = '/usr/bin/clang-18'
OPT = shutil.which('opt-18') or '/usr/lib/llvm-18/bin/opt'
JOBS = os.cpu_count() or 8

SAN = ('signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,return,bool,enum,'
       'builtin,float-cast-overflow')
INC = ['-I' + os.path.join(HERE, 'include'), '-I' + os.path.join(REPO, 'include')]
COMMON = ['-D_GLIBCXX_ASSERTIONS', '-fno-rtti', '-w', '-Wno-c++11-narrowing', '-ferror-limit=3']
PASSES = ('function(lowerinvoke,sroa,early-cse,simplifycfg),cgscc(inline),'
          'function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse,'
          'instcombine<no-verify-fixpoint>,simplifycfg,dce,loop-simplify),globaldce,strip-dead-prototypes')
CBMC = ['cbmc', '--unwinding-assertions', '--no-self-loops-to-assumptions', '--no-standard-checks', '--pointer-check', '--bounds-check',
        '--object-bits', '12', '--no-array-field-sensitivity', '--sat-solver', 'cadical', '--json-ui', '--trace', '--verbosity', '8']

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = float(os.environ.get('VP_BUDGET', '840'))


def left():
    return max(1.0, BUDGET - (time.time() - T0))


def sh(cmd, timeout=None, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', b'', b''


def log(*a):
    print(*a, flush=True)


def rejected(path, flags, errors):
    """the library itself fails while the compiler evaluates it, and does so for the other
    compiler too; -> what fails or None"""
    inc = re.escape(os.path.join(REPO, 'include'))
    first = re.search(r'^(\S+?):\d+:\d+: (?:fatal )?error: .*', errors, re.M)
    if not first or re.search(r'file not found|no member named|undeclared|unknown type|no type named|no template named',
                              first.group(0)):
        return None
    constant = ((re.search(r'constant expression', first.group(0)) or first.group(1).startswith('/usr/')) and
                re.search(r'^%s/\S+: note: ' % inc, errors, re.M))
    if not re.match(inc, first.group(1)) and not constant:
        return None
    rc, o, e = sh(['g++-13'] + [f for f in flags if not f.startswith('-fbracket')] + INC +
                  ['-D_GLIBCXX_ASSERTIONS', '-fno-rtti', '-w', '-fsyntax-only', path], left())
    e = e.decode(errors='replace')
    if rc != 1 or not re.search(r'^%s/\S+: ' % inc, e, re.M) or not re.search(r' error: ', e):
        return None
    return first.group(0)[:400]


class Unit:
    """one harness file in one build configuration"""

    def __init__(self, path, cfg, flags, work):
        self.path, self.cfg, self.flags = path, cfg, flags
        self.name = os.path.splitext(os.path.basename(path))[0] + '.' + cfg
        self.dir = os.path.join(work, self.name)
        os.makedirs(self.dir)
        self.lock = threading.Lock()
        self.natives = {}

    def encode(self):
        t = time.time()
        try:
            return self.encode1()
        finally:
            self.tenc = time.time() - t
            if os.environ.get('VP_VERBOSE'):
                log('%s encoded in %.1fs (%s)' % (self.name, self.tenc, getattr(self, 'split', '')))

    def encode1(self):
        ll, oll = self.dir + '/a.ll', self.dir + '/b.ll'
        self.excluded = []
        self.refused = []
        for _ in range(10):
            rc, o, e = sh([CLANG] + self.flags + INC + COMMON + [
                '-O1', '-Xclang', '-disable-llvm-passes', '-fsanitize=' + SAN, '-fsanitize-trap=all', '-ferror-limit=0',
                '-fno-finite-loops', '-S', '-emit-llvm', self.path, '-o', ll], left())
            if rc == 0:
                break
            e = e.decode(errors='replace')
            before = self.path
            n = len(self.excluded)
            if not self.exclude(e):
                if rejected(before, self.flags, e):
                    self.refused.append((None, before, rejected(before, self.flags, e)))
                return 'compile: ' + e[:1500]
            for name, _ in self.excluded[n:]:
                alone = self.alone(before, name)
                rc1, o, e1 = sh([CLANG] + self.flags + INC + COMMON + ['-fsyntax-only', alone], left())
                why = rc1 == 1 and rejected(alone, self.flags, e1.decode(errors='replace'))
                if why:
                    self.refused.append((name, alone, why))
        if rc != 0:
            return 'compile: ' + e[:1500]
        t1 = time.time()
        rc, o, e = sh([OPT, '-S', '-passes=' + PASSES, '-inline-threshold=100000', '-inlinecold-threshold=100000',
                       '-inline-cold-callsite-threshold=100000', ll, '-o', oll], left())
        if rc != 0:
            return 'opt: ' + e.decode(errors='replace')[:800]
        t2 = time.time()
        rc, o, e = sh([sys.executable, ENG + '/ir2c.py', oll, self.dir], left())
        if rc != 0:
            return 'ir2c: ' + e.decode(errors='replace')[-800:]
        self.split = 'opt %.1f ir2c %.1f' % (t2 - t1, time.time() - t2)
        self.info = json.load(open(self.dir + '/info.json'))
        return None

    @staticmethod
    def harnesses(lines):
        """(name, first line, last line) of each"""
        i = 0
        while i < len(lines):
            m = re.match(r'VP_HARNESS\((\w+),', lines[i])
            if m:
                j = i
                if not lines[i].rstrip().endswith('}'):
                    while j < len(lines) and lines[j] != '}':
                        j += 1
                yield m.group(1), i, j
                i = j
            i += 1

    def alone(self, path, name):
        """a copy of the file with no other harness than this one"""
        lines = open(path).read().split('\n')
        for h, i, j in list(self.harnesses(lines)):
            if h != name and not any(l.startswith('#') for l in lines[i:j + 1]):
                lines[i:j + 1] = [''] * (j + 1 - i)
        out = self.dir + '/' + name + '.cpp'
        with open(out, 'w') as f:
            f.write('\n'.join(lines))
        return out

    def exclude(self, errors):
        """blank out the harnesses that do not compile, so that the others still run"""
        base = os.path.basename(self.path)
        at = {int(n) for n in re.findall(re.escape(base) + r':(\d+):\d+: ', errors)}
        lines = open(self.path).read().split('\n')
        gone = [(h, i, j) for h, i, j in self.harnesses(lines) if any(i < n <= j + 1 for n in at)]
        if not gone or any(l.startswith('#') for _, i, j in gone for l in lines[i:j + 1]):
            return False
        for name, i, j in gone:
            lines[i:j + 1] = [''] * (j + 1 - i)
            self.excluded.append((name, (re.search(r'[^\n]* error: [^\n]*', errors) or [''])[0]))
        self.path = self.dir + '/' + base
        with open(self.path, 'w') as f:
            f.write('\n'.join(lines))
        return True

    VARIANTS = {
        'asan': ['-O0', '-fsanitize=address,' + SAN, '-fno-sanitize-recover=all', '-fsanitize-address-use-after-scope'],
        'pattern': ['-O0', '-ftrivial-auto-var-init=pattern'],
        'zero': ['-O0', '-ftrivial-auto-var-init=zero'],
        'opt': ['-O2'],
    }

    def native(self, variant):
        with self.lock:
            if variant not in self.natives:
                exe = self.dir + '/nat.' + variant
                if variant == 'translated':
                    rc, o, e = sh([CLANGC, '-w', '-O0', '-fwrapv', '-I' + ENG, '-c', self.dir + '/all.c', '-o', exe + '.o'], left())
                    if rc == 0:
                        rc, o, e = sh([CLANG, '-w', '-rdynamic', exe + '.o', ENG + '/rt.cpp', '-o', exe, '-ldl'], left())
                else:
                    rc, o, e = sh([CLANG] + self.flags + INC + COMMON + ['-g'] + self.VARIANTS[variant] +
                                  ['-rdynamic', self.path, ENG + '/rt.cpp', '-o', exe, '-ldl'], left())
                self.natives[variant] = exe if rc == 0 else None
                if rc != 0:
                    log('native build %s of %s failed: %s' % (variant, self.name, e.decode(errors='replace')[:600]))
            return self.natives[variant]

    def run_native(self, variant, h, inputs, tag):
        exe = self.native(variant)
        if not exe:
            return None, [], 'no build'
        base = '%s/%s.%s.%s' % (self.dir, h, variant, tag)
        with open(base + '.in', 'w') as f:
            f.write('\n'.join(str(x) for x in inputs) + '\n')
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=1:exitcode=99',
                   UBSAN_OPTIONS='print_stacktrace=1')
        sym = ('f_' if variant == 'translated' else '') + h
        rc, o, e = sh([exe, sym, base + '.in', base + '.log'], 20, env=env)
        try:
            lines = open(base + '.log').read().split('\n')
        except OSError:
            lines = []
        return rc, [x for x in lines if x], e.decode(errors='replace')


def trace_inputs(trace):
    v = []
    for s in trace:
        if s.get('stepType') == 'assignment' and not s.get('hidden') and s.get('lhs', '').startswith('vp_in'):
            b = s['value'].get('binary')
            if b is None:
                d = s['value'].get('data', '0')
                v.append(int(re.sub(r'[^0-9-]', '', d) or 0))
            else:
                v.append(int(b, 2))
    return v


class Result:
    pass


def solve(u, h, levels):
    r = Result()
    r.unit, r.h = u, h
    r.err = None
    r.fails, r.unwind, r.cover_bad, r.end = [], [], [], None
    r.n = r.discharged = r.covers = 0
    r.vars = r.clauses = 0
    r.tsym = r.tsolve = 0.0
    r.queries = 0
    info = u.info[h]
    if 'error' in info:
        r.err = 'encode: ' + info['error']
        return r
    base = int(re.search(r'__u(\d+)__', h).group(1))

    def bound(level):
        return (base, 3 * base, max(8 * base, 72))[level]

    unw = str(bound(levels.get('', 0)))
    r.raised = ['%s %d' % (k or 'all', bound(v)) for k, v in sorted(levels.items())]
    cmd = CBMC + os.environ.get('VP_CBMC', '').split() + ['-I' + ENG, u.dir + '/' + h + '.c', '--function', 'f_' + h, '--unwind', unw]
    if any(levels):
        cmd += ['--unwindset', ','.join('%s:%d' % (k, bound(v)) for k, v in sorted(levels.items()) if k)]
    t = time.time()
    rc, o, e = sh(cmd, min(left(), 500 if h.endswith('__t') else 700))
    r.wall = time.time() - t
    if rc == 'timeout':
        r.err = 'solver time limit'
        return r
    try:
        d = json.loads(o)
    except ValueError:
        r.err = 'cbmc output (rc=%s): %s %s' % (rc, o[-300:], e[-300:])
        return r
    got = False
    for x in d:
        if x.get('messageType') == 'ERROR':
            r.err = 'cbmc: ' + x.get('messageText', '')
        mt = x.get('messageText', '')
        m = re.match(r'Runtime Symex: ([\d.e+-]+)s', mt)
        if m:
            r.tsym += float(m.group(1))
        m = re.match(r'Runtime Solver: ([\d.e+-]+)s', mt)
        if m:
            r.tsolve += float(m.group(1))
            r.queries += 1
        m = re.match(r'(\d+) variables, (\d+) clauses', mt)
        if m:
            r.vars, r.clauses = max(r.vars, int(m.group(1))), max(r.clauses, int(m.group(2)))
        if 'result' not in x:
            continue
        got = True
        for p in x['result']:
            ds = p['description']
            st = p['status']
            if ds.startswith('COVER'):
                r.covers += 1
                if st == 'FAILURE':
                    if ds == 'COVER END' and r.end is None:
                        r.end = trace_inputs(p.get('trace', []))
                else:
                    r.cover_bad.append(ds)
                continue
            r.n += 1
            if st == 'SUCCESS':
                r.discharged += 1
            elif st == 'FAILURE':
                f = {'desc': ds, 'id': p['property'], 'inputs': trace_inputs(p.get('trace', []))}
                (r.unwind if 'unwinding' in ds or 'recursion' in ds else r.fails).append(f)
            else:
                r.err = 'status %s for %s' % (st, ds)
    if not got and not r.err:
        r.err = 'no result (rc=%s)' % rc
    return r


def fmt_in(v):
    return ' '.join('0x%x' % x for x in v)


def replay(u, h, f, variants=('asan', 'pattern', 'zero', 'opt')):
    """run the counterexample on the real code; -> description or None"""
    for variant in variants:
        rc, lines, err = u.run_native(variant, h, f['inputs'], 'cex')
        if rc is None or rc in (0, 11):
            continue
        if rc == 10:
            bad = [x for x in lines if x.startswith('check 0')]
            return '%s build: %s' % (variant, bad[-1][8:] if bad else 'check failed')
        if rc == 'timeout':
            return '%s build: does not terminate' % variant
        if rc == 2:
            continue
        m = re.search(r'(runtime error: .*|ERROR: AddressSanitizer: .*|Assertion .*|terminate called.*)', err)
        return '%s build: %s' % (variant, m.group(1)[:200] if m else 'crashed with status %s' % rc)
    return None


def strip(lines):
    return [re.sub(r'[^ -!#-\[\]-~]', '_', x) for x in lines if not x.startswith(('cover', 'exit'))]


def validate(u, h, inputs, tag):
    """same behaviour of the real code and of the encoded program on these inputs"""
    rc1, l1, e1 = u.run_native('asan', h, inputs, tag)
    rc2, l2, e2 = u.run_native('translated', h, inputs, tag)
    if rc1 is None or rc2 is None:
        return 'build', rc1
    if rc1 == rc2 and strip(l1) == strip(l2):
        return 'same', rc1
    return 'differ: native %s translated %s\n%s\n---\n%s\n%s' % (rc1, rc2, strip(l1)[-3:], strip(l2)[-3:], e1[:300]), rc1


def configs(path):
    out = []
    for ln in open(path):
        m = re.match(r'//\s*VP-CONFIG\s+(\w+)\s*:?\s*(.*)', ln)
        if m:
            name, fl = m.group(1), m.group(2).split()
            if name.startswith('t_') and TIER != 'thorough':
                continue
            out.append((name, [f.replace('@VP@', HERE) for f in fl]))
    return out or [('d', ['-std=c++20'])]


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'known: property=(\S+) harness=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    pid = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    work = os.path.join(VERIF, '.work', pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    reps = os.path.join(VERIF, 'replays')
    os.makedirs(reps, exist_ok=True)
    files = sorted(glob.glob(os.path.join(HERE, 'h', pid + '*.cpp')))
    units = [Unit(f, c, fl, work) for f in files for c, fl in configs(f)]
    known = known_findings(pid)
    problems = []
    incomplete = []
    results = []
    vio = []
    val = {'same': 0, 'runs': 0}
    lock = threading.Lock()
    rng = random.Random(SEED)
    ex = cf.ThreadPoolExecutor(JOBS)

    def pick(h):
        if only and not re.search(only, h):
            return False
        return h.endswith('__q') or TIER == 'thorough'

    def job(u, h):
        # one replayed violation settles the run
        if vio and not os.environ.get('VP_ALL'):
            return
        name = '%s/%s' % (u.name, h)
        kf = [k for k in known if re.fullmatch(k[0], h)]
        levels = {}  # how far the bound of a loop has been raised ('': of all)
        while True:
            r = solve(u, h, levels)
            r.violation = None
            r.known = None
            bad = r.fails + r.unwind
            # a loop longer than its bound: raise the bound
            raised = dict(levels)
            for f in r.unwind:
                m = re.fullmatch(r'(.*)\.unwind\.(\d+)', f['id'])
                k = '%s.%s' % m.groups() if m else ''
                raised[k] = max(levels.get(k, 0), levels.get('', 0)) + 1
            more = r.unwind and not r.fails and max(raised.values()) <= 2
            # that does not need every build
            for f in bad[:6]:
                what = replay(u, h, f, ('asan',) if more else ('asan', 'pattern', 'zero', 'opt'))
                if what:
                    r.violation = (f, what)
                    break
            if r.violation or not more:
                break
            levels = raised
        if bad:
            if r.violation and kf:
                r.known, r.violation = kf[0][1], None
            elif not r.violation:
                r.err = r.err or 'not reproduced natively: %s inputs %s' % (bad[0]['desc'], fmt_in(bad[0]['inputs']))
                if not r.fails:
                    r.err = 'unwinding bound too small: ' + bad[0]['id']
        elif not r.err:
            if r.cover_bad:
                r.err = 'unreachable: ' + '; '.join(r.cover_bad)
            if r.end is None:
                r.err = 'vacuous harness'
        # encoder validation on a solver-made input and on random ones
        if not r.err and not r.violation and not r.known:
            sets = [r.end]
            lr = random.Random('%s %s' % (SEED, name))
            for k in range(3):
                sets.append([lr.getrandbits(64) if k else lr.getrandbits(3) for _ in range(len(r.end) + 8)])
            for i, s in enumerate(sets):
                st, rc = validate(u, h, s, 'v%d' % i)
                with lock:
                    val['runs'] += 1
                    val['same'] += st == 'same'
                if st != 'same':
                    r.err = 'encoder validation: %s inputs %s' % (st, fmt_in(s)[:300])
                    break
                if i == 0 and rc != 0:
                    r.err = 'witness does not run to the end natively (%s)' % rc
                    break
        with lock:
            results.append(r)
            if r.violation:
                f, what = r.violation
                path = os.path.join(reps, '%s.%s.json' % (pid, name.replace('/', '.')))
                if u.excluded:
                    kept = path[:-5] + '.cpp'
                    shutil.copy(u.path, kept)
                    u.path = kept
                json.dump({'property': pid, 'file': u.path, 'config': u.cfg, 'flags': u.flags, 'harness': h,
                           'obligation': f['desc'], 'inputs': f['inputs'], 'observed': what,
                           'run': 'python3 vp/replay.py ' + path}, open(path, 'w'), indent=1)
                vio.append((path, f['desc'], what))
                log('VIOLATION property=%s replay=%s' % (pid, path))
                log('  %s: %s' % (name, f['desc']))
                log('  replayed: %s' % what)
                log('  inputs: %s' % fmt_in(f['inputs'])[:400])
            elif r.known:
                log('KNOWN-FINDING: property=%s %s' % (pid, r.known))
            if r.err == 'solver time limit' and h.endswith('__t'):
                # the deeper exploration goes as far as time allows
                incomplete.append(name)
                log('NOT FINISHED %s' % name)
            elif r.err:
                problems.append('%s: %s' % (name, r.err))
                log('UNDECIDED %s: %s' % (name, r.err))
            if os.environ.get('VP_VERBOSE'):
                log('%-60s %5.1fs obl %d/%d' % (name, getattr(r, 'wall', 0), r.discharged, r.n))

    futs = []

    def prep(u):
        e = u.encode()
        for name, src, why in u.refused:
            if name and only and not re.search(only, name):
                continue
            with lock:
                path = os.path.join(reps, '%s.%s.%s.json' % (pid, u.name, name or 'all'))
                kept = path[:-5] + '.cpp'
                shutil.copy(src, kept)
                json.dump({'property': pid, 'file': kept, 'config': u.cfg, 'flags': u.flags, 'harness': name,
                           'compile': True, 'observed': why, 'run': 'python3 vp/replay.py ' + path}, open(path, 'w'), indent=1)
                vio.append((path, 'evaluation by the compiler', why))
                log('VIOLATION property=%s replay=%s' % (pid, path))
                log('  %s/%s: the library cannot be evaluated for these arguments: %s' % (u.name, name or '*', why))
        if e:
            with lock:
                problems.append('%s: %s' % (u.name, e))
                log('UNDECIDED %s: %s' % (u.name, e))
            return
        for name, why in u.excluded:
            with lock:
                problems.append('%s/%s: compile: %s' % (u.name, name, why))
                log('UNDECIDED %s/%s: compile: %s' % (u.name, name, why))
        for h in sorted(u.info, key=lambda h: (h.endswith('__t'), h)):
            if pick(h):
                with lock:
                    futs.append(ex.submit(job, u, h))
        if not only:
            ex.submit(u.native, 'asan')
            ex.submit(u.native, 'translated')

    pre = [ex.submit(prep, u) for u in units]
    for p in pre:
        p.result()
    i = 0
    while i < len(futs):
        futs[i].result()
        i += 1
    ex.shutdown()

    wall = time.time() - T0
    ok = [r for r in results if not r.err and not r.violation]
    fn = set()
    for u in units:
        for h, inf in getattr(u, 'info', {}).items():
            if pick(h):
                fn.update(inf.get('emitted', []))
    src = set()
    for u in units:
        try:
            for m in re.findall(r'_ZN(?:K?)4stdx2v1[A-Za-z0-9_]*', open(u.dir + '/a.ll').read()):
                src.add(m)
        except OSError:
            pass
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic model checking of the real headers: every harness is compiled from '
                           '/repo/include to LLVM IR, encoded, and decided by CBMC/SAT for all values of its symbolic '
                           'inputs within the unwinding bound in its name (__uN); unwinding assertions make the bound '
                           'itself an obligation.',
            'harnesses': len(results), 'harnesses_decided': len(ok),
            'library_functions_encoded': len(src), 'functions_after_inlining': len(fn),
            'obligations': sum(r.n for r in results), 'discharged': sum(r.discharged for r in results),
            'cover_goals': sum(r.covers for r in results),
            'cover_goals_reached': sum(r.covers - len(r.cover_bad) for r in results),
            'solver_queries': sum(r.queries for r in results),
            'solver_time_s': round(sum(r.tsolve for r in results), 2),
            'symbolic_execution_time_s': round(sum(r.tsym for r in results), 2),
            'largest_formula': {'variables': max([r.vars for r in results] or [0]),
                                'clauses': max([r.clauses for r in results] or [0])},
            'encoder_validation_runs': val['runs'], 'encoder_validation_agreeing': val['same'],
            'symbolic_inputs_max': max([len(r.end or []) for r in results] or [0]),
            'samples': [{'harness': r.unit.name + '/' + r.h, 'obligations': r.n, 'discharged': r.discharged,
                         'solver_s': round(r.tsolve, 2), 'bounds_raised': getattr(r, 'raised', []), 'witness_inputs': fmt_in(r.end or [])[:120]}
                        for r in sorted(results, key=lambda r: (r.unit.name, r.h))[:400]],
            'checker_cmd': ' '.join(CBMC[:1] + ['--function f_<harness>', '--unwind N'] + CBMC[1:]),
        },
        'assumptions': ['clang-18 front end and the listed opt passes preserve the source semantics',
                        'CBMC 6.11 and its SAT solver are correct',
                        'x86-64 Linux ABI, libstdc++ 13, two\'s complement, little endian',
                        'dynamic memory, exceptions past the first throw and floating point environment are outside the encoding'],
        'undecided': problems, 'not_finished_in_time': incomplete,
        'wall_s': round(wall, 2), 'violations': len(vio),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s: %d harnesses, %d/%d obligations discharged, %d violations, %d undecided, solver %.1fs, wall %.1fs' % (
        pid, len(results), ev['coverage']['discharged'], ev['coverage']['obligations'], len(vio), len(problems),
        ev['coverage']['solver_time_s'], wall))
    if not os.environ.get('VP_KEEP'):
        shutil.rmtree(work, ignore_errors=True)
    if vio:
        sys.exit(1)
    if problems or not results:
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
