#!/usr/bin/env python3
"""Builds libglibutil from /repo's working tree under sanitizers together with
the monitors and workloads of /verif, runs them and reports.

  run.py check C05          the check of one property (VERIF_SEED, VERIF_TIER)
  run.py replay FILE        runs a recorded failure again
  run.py build              compiles everything (to see that it builds)
"""
import sys, os, json, glob, threading, hashlib, subprocess, time, struct, tempfile, shutil, re, signal
from concurrent.futures import ThreadPoolExecutor
import props

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
NCPU = int(os.environ.get('VERIF_JOBS', '8'))
FACTOR = float(os.environ.get('VERIF_FACTOR', '1'))     # for experiments
STALL = 60              # seconds without progress until a run is taken for hung
MAX_INCONCLUSIVE = 20

class HarnessError(Exception): pass

# ------------------------------------------------------------------ building
GLIB = subprocess.run(['pkg-config', '--cflags', 'gobject-2.0', 'gio-2.0', 'gthread-2.0'],
                      capture_output=True, text=True).stdout.split()
LIBS = subprocess.run(['pkg-config', '--libs', 'gobject-2.0', 'gio-2.0'],
                      capture_output=True, text=True).stdout.split()
ASAN = ['-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
        '-fno-sanitize=nonnull-attribute', '-fno-sanitize-recover=all',
        # NULL + 0 is harmless: see __ubsan_on_report in vh.cc
        '-fsanitize-recover=pointer-overflow']
TSAN = ['-g1', '-fno-omit-frame-pointer', '-fsanitize=thread']
# Hooks where delays are injected (vh_delays)
DELAY = ['-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores']
# The driver and harness objects are shared by the variants of the same kind
KINDS = {
    'asan': dict(drv=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address'], link=['-fsanitize=address,undefined']),
    'tsan': dict(drv=['-O1'] + TSAN, link=['-fsanitize=thread']),
    'plain': dict(drv=['-O1', '-g1'], link=[]),
}
VARIANTS = {
    'dbg': dict(kind='asan', lib=['-DDEBUG', '-O1'] + ASAN),
    'dbgl': dict(kind='asan', lib=['-DDEBUG', '-O1'] + ASAN),        # with log statements enabled
    'rel': dict(kind='asan', lib=['-O2'] + ASAN),
    'tsan': dict(kind='tsan', lib=['-O1'] + TSAN + DELAY),
    'dly': dict(kind='asan', lib=['-O1'] + ASAN + DELAY),
    # What the Makefile does
    'gccd': dict(kind='plain', cc='gcc', lib=['-DDEBUG', '-g']),
    'gcc': dict(kind='plain', cc='gcc', lib=['-O2']),
    'o3': dict(kind='plain', lib=['-O3', '-fno-semantic-interposition', '-fstrict-aliasing']),
    'vg': dict(kind='plain', lib=['-O1', '-g1', '-DDEBUG']),         # under valgrind
    'vgl': dict(kind='plain', lib=['-O1', '-g1', '-DDEBUG']),        # with log statements enabled
}
LIBFLAGS = ['-fPIC', '-w', '-I' + REPO + '/include', '-U_FORTIFY_SOURCE',
            '-DGLIB_VERSION_MAX_ALLOWED=GLIB_VERSION_2_32',
            '-DGLIB_VERSION_MIN_REQUIRED=GLIB_VERSION_MAX_ALLOWED']
DRVFLAGS = ['-std=c++17', '-w', '-I' + REPO + '/include', '-U_FORTIFY_SOURCE']

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(path):
    with open(path, 'rb') as f: return f.read()

def headers_hash():
    h = []
    for d in (REPO + '/include', REPO + '/src', VERIF + '/harness'):
        for n in sorted(os.listdir(d)):
            if n.endswith('.h'): h += [n, read(os.path.join(d, n))]
    return sha(*h)

def compile_one(cmd, src, key):
    out = os.path.join(BUILD, 'obj', key + '.o')
    if not os.path.exists(out):
        tmp = out + '.%d-%d.tmp' % (os.getpid(), threading.get_ident())
        p = subprocess.run(cmd + ['-c', src, '-o', tmp], capture_output=True, text=True)
        if p.returncode: raise HarnessError('cannot compile %s:\n%s' % (src, p.stderr[-3000:]))
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out

def lib_sources():
    return sorted(os.path.join(REPO, 'src', n) for n in os.listdir(REPO + '/src') if n.endswith('.c'))

SOLIB = {}
def solib():
    """Builds the shared libraries the way the Makefile does it, in a copy of the tree,
    and generates the list of what the public headers declare"""
    src = [REPO + '/Makefile', REPO + '/libglibutil.ver', REPO + '/libglibutil.pc.in'] + lib_sources()
    for d in ('include', 'src'):
        src += [os.path.join(REPO, d, n) for n in sorted(os.listdir(os.path.join(REPO, d))) if n.endswith('.h')]
    key = sha(*[x for f in src for x in (f, read(f))], read(__file__))
    top = os.path.join(BUILD, 'so-' + key)
    if not os.path.exists(top):
        tmp = top + '.%d-%d.tmp' % (os.getpid(), threading.get_ident())
        shutil.rmtree(tmp, ignore_errors=True)
        for f in src:
            dst = os.path.join(tmp, os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(f, dst)
        r = subprocess.run(['make', '-C', tmp, '-j%d' % NCPU, 'debug', 'release'], capture_output=True, text=True)
        if r.returncode: raise HarnessError('cannot build the shared library:\n%s' % r.stderr[-3000:])
        names = [n for n in sorted(os.listdir(tmp + '/include')) if n.endswith('.h')]
        with open(tmp + '/all.h', 'w') as f: f.write(''.join('#include <%s>\n' % n for n in names))
        cc = ['clang', '-DDEBUG', '-I' + tmp + '/include', '-x', 'c', tmp + '/all.h'] + GLIB
        def out(a):
            r = subprocess.run(cc + a, capture_output=True, text=True)
            if r.returncode: raise HarnessError('cannot compile the headers:\n%s' % r.stderr[-3000:])
            return r.stdout
        ast = ''.join(out(['-fsyntax-only', '-fno-color-diagnostics', '-Xclang', '-ast-dump', '-Xclang', '-ast-dump-filter=' + x]) for x in 'gG_')
        syms = {}
        for l in ast.splitlines():
            m = re.match(r'(FunctionDecl|VarDecl) 0x\S+ (?:prev 0x\S+ )?<([^>]*)> (\S+) (.*?)(\w+) \'([^\']*)\'(?::\'[^\']*\')?(.*)', l)
            if m and 'include/gutil_' in m.group(2) + m.group(3):
                if 'static' not in m.group(7): syms[m.group(5)] = 1
        if len(syms) < 20: raise HarnessError('cannot parse the headers')
        vers = sorted({tuple(map(int, m)) for m in re.findall(r'#define GUTIL_VERSION_(\d+)_(\d+)_(\d+)\s', out(['-dM', '-E']))})
        with open(tmp + '/so_bind.inc', 'w') as f:
            for n in syms: f.write('static decltype(%s)* vs_%s;\n#define %s (*vs_%s)\n' % (n, n, n, n))
            f.write('static const SoSym so_symbols[] = {\n')
            for n in syms: f.write('{"%s", (void**)&vs_%s},\n' % (n, n))
            f.write('};\nstatic const SoVer so_versions[] = {\n')
            for v in vers: f.write('{"GUTIL_VERSION_%d_%d_%d", GUTIL_VERSION_%d_%d_%d, {%d, %d, %d}},\n' % (v * 3))
            f.write('};\n')
        try: os.rename(tmp, top)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    for n in os.listdir(BUILD):
        d = os.path.join(BUILD, n)
        if n.startswith('so-') and d != top and time.time() - os.path.getmtime(d) > 600: shutil.rmtree(d, ignore_errors=True)
    SOLIB.update(dbg=top + '/build/debug/libglibutil.so', rel=top + '/build/release/libglibutil.so')
    return top

LOCALES = os.path.join(BUILD, 'locale')
def locales():
    """Compiles a few locales, there are none in the system except for C"""
    for name, lang, charset in (('tr_TR.ISO-8859-9', 'tr_TR', 'ISO-8859-9'), ('cs_CZ.ISO-8859-2', 'cs_CZ', 'ISO-8859-2'), ('lt_LT.UTF-8', 'lt_LT', 'UTF-8')):
        d = os.path.join(LOCALES, name)
        if os.path.exists(d): continue
        os.makedirs(LOCALES, exist_ok=True)
        tmp = os.path.join(LOCALES, 'tmp.%d.%s' % (os.getpid(), lang))
        try: subprocess.run(['localedef', '--no-archive', '-c', '-i', lang, '-f', charset, tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except OSError: pass
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)

def build(pairs):
    """pairs: set of (driver, variant). Returns {(driver, variant): path}"""
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    locales()
    hh = headers_hash()
    jobs = {}
    keys = {}
    def want(name, cmd, src):
        if name not in keys:
            k = keys[name] = sha(' '.join(cmd), src, read(src), hh)
            jobs[k] = (cmd, src, k)
    plan = {}
    for driver, variant in sorted(pairs):
        v = VARIANTS[variant]; k = KINDS[v['kind']]
        objs = []
        cxx = ['clang++'] + DRVFLAGS + k['drv'] + GLIB
        if driver == 'solib': cxx = cxx + ['-I' + solib()]
        for src in [VERIF + '/drivers/d_%s.cc' % driver, VERIF + '/harness/vh.cc']:
            if src.endswith('vh.cc'): cxx = ['clang++'] + DRVFLAGS + k['drv'] + GLIB
            n = (v['kind'], src); want(n, cxx, src); objs.append(n)
        for extra in sorted(glob.glob(VERIF + '/drivers/d_%s_c*.c' % driver)):
            n = (v['kind'], extra)
            want(n, ['clang', '-w', '-I' + REPO + '/include'] + k['drv'] + GLIB, extra)
            objs.append(n)
        cc = [v.get('cc', 'clang')] + LIBFLAGS + v['lib'] + GLIB
        for src in lib_sources():
            n = (variant, src); want(n, cc, src); objs.append(n)
        plan[(driver, variant)] = objs
    # Long ones first
    order = sorted(jobs, key=lambda k: -len(read(jobs[k][1])) * (4 if jobs[k][1].endswith('.cc') else 1))
    with ThreadPoolExecutor(NCPU) as ex:
        objs = dict(zip(order, ex.map(lambda k: compile_one(*jobs[k]), order)))
    outs = {n: objs[k] for n, k in keys.items()}
    def link(p):
        driver, variant = p
        v = VARIANTS[variant]
        objs = [outs[n] for n in plan[p]]
        wraps = ['gutil_log_assert'] + props.WRAPS.get(driver, [])
        cmd = ['clang++'] + KINDS[v['kind']]['link'] + ['-Wl,--wrap=' + w for w in wraps]
        exe = os.path.join(BUILD, 'd_%s-%s-%s' % (driver, variant, sha(' '.join(cmd), *objs)))
        if not os.path.exists(exe):
            tmp = exe + '.%d-%d.tmp' % (os.getpid(), threading.get_ident())
            r = subprocess.run(cmd + objs + ['-o', tmp, '-lpthread', '-ldl'] + LIBS, capture_output=True, text=True)
            if r.returncode: raise HarnessError('cannot link %s:\n%s' % (driver, r.stderr[-3000:]))
            os.rename(tmp, exe)
        else:
            os.utime(exe)
        return exe
    with ThreadPoolExecutor(NCPU) as ex:
        keys = sorted(plan)
        res = dict(zip(keys, ex.map(link, keys)))
    prune()
    return res

def prune():
    files = []
    for d in (BUILD, os.path.join(BUILD, 'obj')):
        for n in os.listdir(d):
            p = os.path.join(d, n)
            try:
                if os.path.isfile(p): files.append((os.path.getmtime(p), os.path.getsize(p), p))
            except OSError: pass
    files.sort(reverse=True)
    total = 0
    for m, s, p in files:
        total += s
        if total > 3 << 30 and time.time() - m > 3600:
            try: os.unlink(p)
            except OSError: pass

# ------------------------------------------------------------------- running
PROG = struct.Struct('<QQQ64s4096sQ')
def read_progress(path):
    try: b = read(path)
    except OSError: return None
    if len(b) < PROG.size: return None
    idx, hb, failed, kind, msg, n = PROG.unpack_from(b)
    trace = []
    for i in range(max(0, n - 60), n):
        o = PROG.size + (i % 256) * 192
        trace.append(b[o:o + 192].split(b'\0')[0].decode('utf-8', 'replace'))
    cs = lambda x: x.split(b'\0')[0].decode('utf-8', 'replace')
    return dict(idx=idx, hb=hb, failed=failed, kind=cs(kind), msg=cs(msg), n=n, trace=trace)

def environment(variant):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('GUTIL_', 'G_', 'ASAN', 'UBSAN', 'TSAN'))}
    if variant in ('dbgl', 'vgl'): e['VH_LIB_LOG'] = '1'
    if os.path.isdir(LOCALES): e['LOCPATH'] = LOCALES
    if variant in SOLIB: e['VH_SO'] = SOLIB[variant]
    e.update(LC_ALL='C.UTF-8', VH_FREED_FILL='1', G_SLICE='always-malloc', TZ='UTC0',
        ASAN_OPTIONS='detect_leaks=0:exitcode=71:handle_abort=1:allocator_may_return_null=0:'
            'strict_string_checks=1:detect_stack_use_after_return=1:max_malloc_fill_size=4096:'
            'malloc_fill_byte=190:free_fill_byte=222:max_free_fill_size=256:quarantine_size_mb=16:'
            'hard_rss_limit_mb=3500:symbolize=1:print_legend=0:print_summary=1:intercept_tls_get_addr=0',
        UBSAN_OPTIONS='exitcode=71:print_stacktrace=1:halt_on_error=0',
        TSAN_OPTIONS='suppressions=' + VERIF + '/harness/tsan.supp:exitcode=71:halt_on_error=1:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0')
    return e

def scratch():
    # The file system workloads are much faster in memory
    shm = '/dev/shm'
    ok = os.path.isdir(shm) and os.access(shm, os.W_OK) and shutil.disk_usage(shm).free > 1 << 30
    return tempfile.mkdtemp(prefix='vh-', dir=shm if ok else None)

def run_proc(exe, variant, args, tmp, tag, stall=STALL):
    """Runs one process. Returns dict(outcome=..., ...)"""
    prog = os.path.join(tmp, tag + '.prog')
    scratch = os.path.join(tmp, tag + '.d')
    log = os.path.join(tmp, tag + '.log')
    os.makedirs(scratch, exist_ok=True)
    cmd = [exe] + args + ['--variant', variant, '--progress', prog, '--scratch', scratch]
    if variant in ('vg', 'vgl'):
        cmd = ['valgrind', '-q', '--error-exitcode=72', '--exit-on-first-error=yes', '--num-callers=20',
               '--leak-check=no', '--fair-sched=try', '--suppressions=' + VERIF + '/harness/vg.supp'] + cmd
        stall *= 4
    try: os.unlink(prog)
    except OSError: pass
    with open(log, 'wb') as lf:
        p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, env=environment(variant),
                             cwd=scratch, start_new_session=True)
        last, since = None, time.time()
        hung = False
        while True:
            try:
                p.wait(timeout=0.02 if last is None else 0.1); break
            except subprocess.TimeoutExpired: pass
            st = read_progress(prog)
            key = st and (st['idx'], st['hb'], st['n'])
            if key != last: last, since = key, time.time()
            elif time.time() - since > stall:
                hung = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
    st = read_progress(prog) or dict(idx=-1, hb=0, failed=0, kind='', msg='', n=0, trace=[])
    out = read(log)[-60000:].decode('utf-8', 'replace')
    rc = p.returncode
    res = dict(rc=rc, st=st, log=out, cmd=cmd, outcome='ok', idx=st['idx'])
    if hung: res.update(outcome='fail', kind='hang', msg='no progress for %d s' % stall)
    elif rc == 0: pass
    elif rc == 70: res.update(outcome='error' if st['kind'] == 'harness' else 'fail', kind=st['kind'], msg=st['msg'])
    elif rc in (71, 72):
        m = re.search(r'(ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*|WARNING: ThreadSanitizer[^\n]*|==\d+== [^\n]*)', out)
        kind = 'sanitizer'
        if 'hard rss limit' in out or 'out-of-memory' in out or 'allocation-size-too-big' in out: kind = 'memory'
        res.update(outcome='fail', kind=kind, msg=m.group(1) if m else 'sanitizer report')
    elif rc in (-signal.SIGKILL, -signal.SIGTERM, 2, 127, 126):
        res.update(outcome='error', kind='process', msg='exit status %d' % rc)
    else: res.update(outcome='fail', kind='crash', msg='exit status %d' % rc)
    shutil.rmtree(scratch, ignore_errors=True)
    return res

SOFT = ('leak', 'fdleak', 'freed', 'hang', 'source', 'memory')      # have to be reproduced to count

class Checker:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.p = props.PROPS[pid]
        self.tmp = scratch()
        self.stop = False
        self.inconclusive = []
        self.violations = []
        self.known = []
        self.results = {}

    def base_args(self, run):
        a = ['--prop', run['prop'], '--seed', str(self.seed)]
        if self.tier == 'thorough': a.append('--thorough')
        return a

    def shard(self, job):
        run, exe, start, stride, count = job
        tag = '%s-%s-%s-%d' % (run['driver'], run['prop'], run['variant'], start)
        base = self.base_args(run)
        pieces = []
        done = 0
        retries = 0
        while done < count and not self.stop:
            first = start + done * stride
            f = os.path.join(self.tmp, '%s-%d' % (tag, done))
            r = run_proc(exe, run['variant'], base + ['--start', str(first), '--stride', str(stride),
                '--count', str(count - done), '--out', f + '.json', '--digests', f + '.dig'], self.tmp, tag)
            if r['outcome'] == 'ok':
                pieces.append((run, first, stride, f))
                break
            if r['outcome'] == 'error':
                if self.stop: break
                retries += 1
                if retries > 1: raise HarnessError('%s: %s\n%s' % (tag, r.get('msg'), r['log'][-2000:]))
                continue
            if self.stop: break
            v = self.confirm(run, exe, r, first, stride, tag)
            if v:
                self.violations.append(v)
                self.stop = True
                break
            # Not reproduced: carry on behind it
            self.inconclusive.append(dict(run=tag, case=r['idx'], kind=r['kind'], msg=r['msg'][:300]))
            if len(self.inconclusive) > MAX_INCONCLUSIVE: raise HarnessError('too many inconclusive cases: %s' % self.inconclusive[:3])
            done = (r['idx'] - start) // stride + 1 if r['idx'] >= 0 else count
        return pieces

    def confirm(self, run, exe, r, first, stride, tag):
        base = self.base_args(run)
        idx = max(r['idx'], first)
        attempts = [['--start', str(idx), '--count', '1'],
                    ['--start', str(first), '--stride', str(stride), '--count', str((idx - first) // stride + 1)]]
        for k, a in enumerate(attempts):
            r2 = run_proc(exe, run['variant'], base + a, self.tmp, tag + '-c%d' % k)
            if r2['outcome'] == 'fail':
                return self.violation(run, r2, base + a, idx, True)
        if r['kind'] in SOFT: return None
        return self.violation(run, r, base + attempts[1], idx, False)

    def violation(self, run, r, args, idx, reproduced):
        d = os.path.join(EVID, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s-%s.json' % (self.pid, run['variant'], idx))
        with open(path, 'w') as f:
            json.dump(dict(property=self.pid, driver=run['driver'], variant=run['variant'], args=args, case=idx,
                kind=r['kind'], message=r['msg'], reproduced=reproduced, trace=r['st']['trace'],
                output=r['log'][-12000:],
                how='python3 /verif/run.py replay ' + path), f, indent=1)
        return dict(path=path, kind=r['kind'], msg=r['msg'], case=idx, run=run)

    def scenarios(self, exes):
        for k in known_findings(self.pid):
            exe = exes[(k['driver'], 'dbg')]
            r = run_proc(exe, 'dbg', ['--scenario', k['scenario']], self.tmp, 'known-' + k['scenario'])
            if r['outcome'] == 'fail' and re.search(k['match'], r['msg']):
                self.known.append(k)
            elif r['outcome'] == 'fail':
                self.violations.append(self.violation(dict(driver=k['driver'], variant='dbg'), r,
                    ['--scenario', k['scenario']], 0, True))
            elif r['outcome'] == 'error':
                raise HarnessError('scenario %s: %s' % (k['scenario'], r['log'][-1000:]))

    def main(self):
        t0 = time.time()
        runs = self.p['runs']
        pairs = {(r['driver'], r['variant']) for r in runs}
        for k in known_findings(self.pid): pairs.add((k['driver'], 'dbg'))
        exes = build(pairs)
        t1 = time.time()
        jobs = []
        for r in runs:
            n = r[self.tier]
            if not n: continue
            n = max(1, int(n * FACTOR))
            shards = min(r.get('shards', NCPU), n)
            for s in range(shards):
                jobs.append((r, exes[(r['driver'], r['variant'])], r.get('base', 0) + s, shards, (n - s + shards - 1) // shards))
        jobs.sort(key=lambda j: j[0].get('order', 0))
        try:
            with ThreadPoolExecutor(NCPU) as ex:
                pieces = [p for l in ex.map(self.shard, jobs) for p in l]
            if not self.violations: self.scenarios(exes)
            self.collect(pieces)
            if self.p.get('compare') and not self.violations: self.compare(pieces)
            if self.p.get('post') and not self.violations:
                getattr(props, self.p['post'])(self)
        finally:
            shutil.rmtree(self.tmp, ignore_errors=True)
        self.write(t0, t1)
        for k in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        if self.violations:
            v = self.violations[0]
            print('%s: [%s] %s' % (self.pid, v['kind'], v['msg'][:1000]))
            print('VIOLATION property=%s replay=%s' % (self.pid, v['path']))
            return 1
        missing = [n for n in self.p.get('need', []) if not self.counters.get(n)]
        if missing and FACTOR == 1:
            raise HarnessError('nothing was observed of: ' + ', '.join(missing))
        if not self.distinct: raise HarnessError('no non-trivial case was run')
        print('%s: held on %d cases (%d distinct non-trivial), %d inconclusive, build %.1f s, total %.1f s' % (
            self.pid, self.evaluations, self.distinct, len(self.inconclusive), t1 - t0, time.time() - t0))
        return 0

    def collect(self, pieces):
        self.counters, self.samples, self.per = {}, [], {}
        self.evaluations = 0
        dig = set()
        for run, first, stride, f in pieces:
            try: j = json.loads(read(f + '.json'))
            except OSError: continue
            key = run['prop'] + '/' + run['variant']
            per = self.per.setdefault(key, dict(cases=0, nontrivial=0))
            per['cases'] += j['cases']; per['nontrivial'] += j['nontrivial']
            self.evaluations += j['cases']
            for n, v in j['counters'].items(): self.counters[n] = self.counters.get(n, 0) + v
            if len(self.samples) < 4 and j['samples']: self.samples.append('%s %s' % (key, j['samples'][0][:900]))
            b = read(f + '.dig')
            for d, rd, nt in struct.iter_unpack('<QQQ', b):
                if nt: dig.add((run['prop'], d))
        self.distinct = len(dig)

    def compare(self, pieces):
        """Same case in different builds has to produce the same results"""
        res = {}
        self.compared = 0
        for run, first, stride, f in pieces:
            for i, (d, rd, nt) in enumerate(struct.iter_unpack('<QQQ', read(f + '.dig'))):
                k = (run['driver'], run['prop'], first + i * stride)
                if k not in res: res[k] = (rd, d, run)
                else:
                    self.compared += 1
                    if res[k][0] != rd or res[k][1] != d:
                        a = res[k][2]['variant']
                        st = dict(trace=[])
                        msg = 'case %d of %s: %s and %s builds produce different %s' % (k[2], k[1], a, run['variant'],
                            'results' if res[k][0] != rd else 'sequences of operations')
                        self.violations.append(self.violation(run, dict(kind='difference', msg=msg, st=st, log=''),
                            self.base_args(run) + ['--start', str(k[2]), '--count', '1', '--verbose'], k[2], True))
                        return

    def write(self, t0, t1):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=self.distinct, rule=self.p['rule'],
                   samples=self.samples, runs=self.per, observed=dict(sorted(self.counters.items())),
                   inconclusive=self.inconclusive, build_s=round(t1 - t0, 2))
        if getattr(self, 'compared', None) is not None: cov['compared_across_builds'] = self.compared
        if getattr(self, 'extra', None): cov.update(self.extra)
        if self.known: cov['known_findings'] = [k['what'] for k in self.known]
        os.makedirs(EVID, exist_ok=True)
        path = os.path.join(EVID, self.pid + '.json')
        with open(path + '.tmp', 'w') as f:
            json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.p.get('level', 'exploration'),
                coverage=cov, assumptions=props.ASSUMPTIONS + self.p.get('assumptions', []),
                wall_s=round(time.time() - t0, 2), violations=len(self.violations)), f, indent=1)
        os.rename(path + '.tmp', path)

def known_findings(pid):
    out = []
    for l in read(os.path.join(VERIF, 'known_findings.txt')).decode().splitlines():
        m = re.match(r'known: property=(\S+) driver=(\S+) scenario=(\S+) match="([^"]*)" (.*)', l)
        if m and m.group(1) == pid:
            out.append(dict(driver=m.group(2), scenario=m.group(3), match=m.group(4), what=m.group(5)))
    return out

def main():
    if len(sys.argv) == 3 and sys.argv[1] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'): tier = 'quick'
        try: seed = int(os.environ.get('VERIF_SEED', '1'), 0)
        except ValueError: seed = 1
        try:
            return Checker(sys.argv[2], tier, seed).main()
        except HarnessError as e:
            print('ERROR: %s' % e)
            return 2
    if len(sys.argv) == 3 and sys.argv[1] == 'replay':
        j = json.loads(read(sys.argv[2]))
        exe = build({(j['driver'], j['variant'])})[(j['driver'], j['variant'])]
        tmp = scratch()
        r = run_proc(exe, j['variant'], j['args'], tmp, 'replay')
        shutil.rmtree(tmp, ignore_errors=True)
        print(r['log'])
        print(r['outcome'], r.get('kind', ''), r.get('msg', ''))
        return 0 if r['outcome'] == 'ok' else 1
    if len(sys.argv) >= 2 and sys.argv[1] == 'build':
        build({(r['driver'], r['variant']) for p in props.PROPS.values() for r in p['runs']})
        return 0
    print(__doc__)
    return 2

if __name__ == '__main__':
    sys.exit(main())
