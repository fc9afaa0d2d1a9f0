#!/usr/bin/env python3
"""Builds the model checker and the code under test from /repo's working tree,
explores the scenarios of one property and writes the evidence file."""
import glob, sys, os, json, subprocess, tempfile, shutil, time, hashlib, signal, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('MC_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'mc'))
import scenarios
NCPU = os.cpu_count() or 8
WRAP = ("pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_mutex_init pthread_mutex_destroy "
 "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_mutexattr_init pthread_mutexattr_destroy pthread_mutexattr_settype pthread_cond_init "
 "pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_signal pthread_cond_broadcast pthread_create pthread_join pthread_detach pthread_self "
 "pthread_equal pthread_setaffinity_np pthread_once pthread_key_create pthread_key_delete pthread_setspecific pthread_getspecific sched_yield usleep nanosleep "
 "sched_getcpu malloc calloc realloc free posix_memalign aligned_alloc memcpy memmove memset memcmp rand srand time __assert_fail __stack_chk_fail abort exit "
 "__cxa_guard_acquire __cxa_guard_release __cxa_guard_abort").split()
TFLAGS = ("-std=c++11 -fPIC -w -g1 -O0 -fno-inline -fsanitize=thread --param tsan-instrument-func-entry-exit=0 "
 "-fsanitize=bounds,integer-divide-by-zero,shift -fno-gnu-unique -fstack-protector-all -fno-builtin-memcpy -fno-builtin-memset -fno-builtin-memmove "
 "-ftrivial-auto-var-init=pattern").split()
BASEDEF = "-DMAX_DIMENSIONS=4 -DTHREADSAFE -DUSE_PTHREAD -DUSE_MPI3 -DROUND_ROBIN".split()

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

KNOWN = ['grid/grid.cpp', 'io/netcdfreader.cpp', 'mpi/commthread.cpp', 'mpi/mpicomm.cpp', 'numa/nonuma.cpp', 'numa/numa.cpp', 'perf/counter.cpp', 'types/structtype.cpp']
class Build:
    def __init__(self, d):
        self.d = d; self.pool = ThreadPoolExecutor(NCPU); self.jobs = {}
    def obj(self, src, flags, cc='g++'):
        key = (src, tuple(flags))
        if key not in self.jobs:
            o = os.path.join(self.d, hashlib.md5(repr(key).encode()).hexdigest()[:12] + '.o')
            def job():
                r = sh([cc] + list(flags) + ['-c', src, '-o', o])
                if r.returncode: return (None, r.stdout)
                return (o, '')
            self.jobs[key] = self.pool.submit(job)
        return self.jobs[key]
    def exe(self):
        f = ['-std=c++17', '-O2', '-g1', '-w', '-U_FORTIFY_SOURCE']
        rt = os.path.join(HERE, 'mc/rt/')
        return [self.obj(rt + n + '.cpp', f) for n in ('core', 'sim_pthread', 'sim_nc', 'sim_mpi')] + [self.obj(rt + 'stubs.S', [], 'gcc')]
    def unit_objs(self, u, filt):
        defs = list(BASEDEF) + ['-D' + x for x in u.get('defs', [])]
        for x in u.get('undefs', []): defs = [d for d in defs if d != '-D' + x and not d.startswith('-D' + x + '=')]
        inc = ['-I' + HERE + '/mc/include', '-I' + HERE + '/mc/rt', '-I' + HERE + '/mc/h', '-I' + REPO, '-I' + REPO + '/include']
        base = TFLAGS + defs + inc
        tf = ['-DMC_TYPES=' + u['types']] if filt and u.get('types') else []
        objs = [self.obj(os.path.join(HERE, 'mc/h', u['src']), base + tf)]
        lib = list(u.get('lib', []))
        if len(lib) > 3: # the whole library: also sources that have been added, and none that have been merged into others
            lib = [s for s in lib if os.path.exists(os.path.join(REPO, s))]
            for m in ('allocator', 'cache', 'fortran', 'grid', 'io', 'magic', 'mpi', 'numa', 'perf', 'threads', 'transfer', 'types'):
                if m == 'mpi' and 'ASAGI_NOMPI' in u.get('defs', []): continue
                for s in sorted(glob.glob(os.path.join(REPO, m, '**', '*.cpp'), recursive=True)):
                    s = os.path.relpath(s, REPO)
                    if s not in KNOWN: lib.append(s)
        for s in lib: objs.append(self.obj(os.path.join(REPO, s), base + (tf if s.startswith('grid') or s == 'asagi.cpp' else [])))
        return objs

def link(out, objs, args):
    r = sh(['g++', '-o', out] + objs + args)
    if r.returncode: return r.stdout
    return None

def build(units, d):
    b = Build(d)
    exe = b.exe(); uo = {n: b.unit_objs(u, True) for n, u in units.items()}
    objs = []
    for j in exe:
        o, e = j.result()
        if not o: print(e); raise SystemExit(2)
        objs.append(o)
    mcrt = os.path.join(d, 'mcrt')
    e = link(mcrt, objs, ['-rdynamic', '-Wl,-z,now', '-ldl', '-lpthread'])
    if e: print(e); raise SystemExit(2)
    sos = {}
    for n, u in units.items():
        res = [j.result() for j in uo[n]]
        if any(o is None for o, e in res) and u.get('types'):
            res = [j.result() for j in b.unit_objs(u, False)]
        if u.get('private') and res[0][0] is None and all(o for o, e in res[1:]):
            # the library is fine, but an interface inside of it is not the one this harness is written for
            print('unit %s is not used, it does not compile with the interface it finds:\n%s' % (n, res[0][1][:1500])); continue
        for o, e in res:
            if o is None: print('unit %s does not compile:\n%s' % (n, e[-6000:])); raise SystemExit(2)
        so = os.path.join(d, n + '.so')
        e = link(so, [o for o, e in res], ['-shared', '-nodefaultlibs', '-Wl,-Bsymbolic'] + ['-Wl,--wrap=' + w for w in WRAP])
        if e: print('unit %s does not link:\n%s' % (n, e[-6000:])); raise SystemExit(2)
        sos[n] = so
    return mcrt, sos

def symbolize(so, text):
    import re
    offs = sorted(set(re.findall(r'@([0-9a-f]+)\]', text)))
    if not offs: return text
    r = sh(['addr2line', '-e', so] + ['0x' + o for o in offs]).stdout.split('\n')
    for o, l in zip(offs, r):
        text = text.replace('@' + o + ']', os.path.relpath(l.split(' ')[0], REPO) + ']' if l.startswith('/') else l + ']')
    return text

def end(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except OSError: pass

def known(pid):
    res = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                run, rest = rest.split(' ', 1); match, desc = rest.split(' -- ', 1)
                res.append((run[4:], match[len('match='):].strip('"'), desc))
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None; replay = None; keep = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'): tier = x
        elif x == '--only': only = a.pop(0)
        elif x == '--replay': replay = a.pop(0)
        elif x == '--keep': keep = a.pop(0)
    prop = scenarios.PROPS[pid]
    runs = scenarios.runs(pid, tier)
    if only: runs = [r for r in runs if only in r['name']]
    t0 = time.time()
    if keep: d = keep; os.makedirs(d, exist_ok=True)
    else: d = tempfile.mkdtemp(prefix='mc_%s_' % pid)
    try:
        return go(pid, tier, prop, runs, d, t0, replay, only)
    finally:
        if not keep: shutil.rmtree(d, ignore_errors=True)

def go(pid, tier, prop, runs, d, t0, replay, only):
    info = {}
    if replay:
        for l in open(replay):
            if ': ' in l: k, v = l.rstrip('\n').split(': ', 1); info.setdefault(k, v)
        runs = [r for r in scenarios.runs(pid, info['tier']) if r['name'] == info['run']]
    units = {r['unit']: scenarios.UNITS[r['unit']] for r in runs}
    mcrt, sos = build(units, d)
    skipped = sorted(set(units) - set(sos))
    if skipped:
        runs = [r for r in runs if r['unit'] in sos]; more = scenarios.FALLBACK.get(pid, []); runs += more
        sos.update(build({r['unit']: scenarios.UNITS[r['unit']] for r in more}, d)[1])
        if not runs: print('INCONCLUSIVE no run is left'); return 3
    tb = time.time() - t0
    if replay:
        r = runs[0]
        cmd = [mcrt, '--so', sos[r['unit']], '--ranks', str(r.get('ranks', 1)), '--replay', replay] + r.get('opts', []) + ['%s=%d' % kv for kv in sorted(r.get('args', {}).items())]
        p = sh(cmd); print(symbolize(sos[r['unit']], p.stdout)); return p.returncode
    budget = float(os.environ.get('MC_BUDGET', 820 if tier == 'quick' else 100000))
    kf = known(pid); kseen = {}
    results = []
    live = set(); stop = threading.Event()
    def one(r):
        # After a violation no further run is started, and the others are ended
        if stop.is_set(): return (r, None, None)
        out = os.path.join(d, r['name'].replace('/', '_') + '.json')
        left = budget - (time.time() - t0)
        cmd = [mcrt, '--so', sos[r['unit']], '--ranks', str(r.get('ranks', 1)), '--out', out, '--workers', str(r.get('workers', 4)),
               '--timeout', str(max(1, min(r.get('timeout', 60), left))), '--vbits', str(r.get('vbits', 20))] + r.get('opts', [])
        for run, match, desc in kf:
            if run == '*' or r['name'].startswith(run): cmd += ['--ignore', match]
        cmd += ['%s=%d' % kv for kv in sorted(r.get('args', {}).items())]
        if os.path.exists(out): os.unlink(out)
        p = subprocess.Popen(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
        live.add(p)
        if stop.is_set(): end(p)
        text = p.communicate()[0]; live.discard(p)
        try: j = json.load(open(out))
        except Exception: j = None
        if j and j['violation'] and not stop.is_set():
            stop.set()
            for q in list(live): end(q)
        elif stop.is_set() and (j is None or not j['violation']): return (r, None, None)
        p.text = text
        return (r, p, j)
    par = max(1, NCPU // 4)
    with ThreadPoolExecutor(par) as ex: results = list(ex.map(one, runs))
    bad = None; broken = None
    tot = {}
    ev_runs = []
    for r, p, j in results:
        if p is None: continue
        if j is None: broken = broken or 'run %s gave no result (exit %d): %s' % (r['name'], p.returncode, p.text[-2000:]); continue
        so = sos[r['unit']]
        for k in ('executions', 'complete', 'pruned_visited', 'sleep_blocked', 'transitions', 'states', 'truncated', 'discarded'): tot[k] = tot.get(k, 0) + j[k]
        ev_runs.append(dict(name=r['name'], ranks=r.get('ranks', 1), parameters=r.get('args', {}), options=r.get('opts', []), executions=j['executions'], complete=j['complete'], states=j['states'], transitions=j['transitions'],
            max_depth=j['max_depth'], shared_objects=j['shared_objects'], exhaustive=j['exhaustive'], truncated=j['truncated'], discarded=j['discarded'], wall_s=round(j['wall_s'], 2), outcomes=dict(list(j['outcomes'].items())[:40]), outcomes_distinct=len(j['outcomes'])))
        for m, c in j['known'].items():
            kseen[m] = kseen.get(m, 0) + c
        if j['violation']:
            v = symbolize(so, j['violation'])
            if not bad:
                rp = os.path.join(HERE, 'evidence', 'replay_%s.txt' % pid); os.makedirs(os.path.dirname(rp), exist_ok=True)
                with open(rp, 'w') as f: f.write('run: %s\nunit: %s\ntier: %s\n%s' % (r['name'], r['unit'], tier, j['replay']))
                bad = (r['name'], v, rp)
        elif not j['exhaustive'] and not r.get('partial'):
            broken = broken or 'run %s is not exhaustive (timeout=%s truncated=%d) after %.1f s' % (r['name'], j['timeout'], j['truncated'], j['wall_s'])
        missing = [o for o in r.get('expect', []) if not any(x.startswith(o) for x in j['outcomes'])]
        if missing and not j['violation']: broken = broken or 'run %s: expected outcomes %s were not reached: the scenario is vacuous' % (r['name'], missing)
    samples = []
    for r, p, j in results:
        if j and j['samples'] and len(samples) < 4: samples.append(dict(run=r['name'], schedule=j['samples'][0][:1500]))
    exh = all(e['exhaustive'] for e in ev_runs)
    ev = scenarios.evidence(pid, tier, tot, ev_runs, samples, exh, prop, bad, broken, kseen, time.time() - t0, tb, int(os.environ.get('VERIF_SEED', '1') or 1))
    if skipped: ev['coverage']['units_not_used'] = skipped
    if not only:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for e in ev_runs: print('%-34s states %8d transitions %9d executions %8d complete %7d depth %4d %s %6.1fs' % (e['name'], e['states'], e['transitions'], e['executions'], e['complete'], e['max_depth'], 'exhaustive' if e['exhaustive'] else 'PARTIAL', e['wall_s']))
    for run, match, desc in kf:
        print('KNOWN-FINDING: property=%s %s' % (pid, desc) + ('' if match in kseen else ' (not reached by this run)'))
    print('%s: build %.1fs total %.1fs' % (pid, tb, time.time() - t0))
    if bad:
        print('run %s: %s' % (bad[0], bad[1])); print('VIOLATION property=%s replay=%s' % (pid, bad[2])); return 1
    if broken: print('INCONCLUSIVE ' + broken); return 3
    return 0
if __name__ == '__main__': sys.exit(main())
