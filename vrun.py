#!/usr/bin/env python3
"""Builds /repo's current sources with sanitizers and a monitor harness in a scratch directory, runs the
workload in shards, and turns what the monitors recorded into a verdict.   usage: vrun.py <property> [tier]"""
import os, sys, json, time, subprocess, tempfile, shutil, re, signal, glob
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import checks
REPO = os.environ.get('VMON_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = min(8, os.cpu_count() or 8)
T0 = time.time()
BASE = ['-DUSE_BOOST', '-g1', '-O1', '-w', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fopenmp'],
    'tsan': ['-fsanitize=thread', '-fopenmp'],
    'none': ['-fopenmp'],
    'memcheck': ['-fopenmp', '-DVMON_UNDEF'],
}
SKIP = {'mnormal.cpp', 'expsmoothing.cpp', 'tsfilter.cpp', 'api.cpp', 'matrix_la.cpp'}

def log(*a): print(*a, file=sys.stderr, flush=True)

class Broken(Exception): pass      # the check itself cannot answer

def sources(group):
    out = []
    for root, _, fs in os.walk(os.path.join(REPO, 'src')):
        rel = os.path.relpath(root, os.path.join(REPO, 'src'))
        for f in sorted(fs):
            if not f.endswith(('.cpp', '.c')) or f in SKIP: continue
            if group == 'base' and rel.startswith('ldt_statistics'): continue
            if group == 'stats' and rel.startswith('ldt_statistics/modeling'): continue
            mod = rel.split('/')[2] if rel.startswith('ldt_statistics/modeling/') else ''
            if group in ('search', 'linear', 'discrete', 'time_series') and mod in ('linear', 'discrete', 'time_series') and mod != group: continue
            out.append(os.path.join(root, f))
    # biggest first so that the pool drains evenly
    slow = ['discrete_choice_modelset', 'matrix.cpp', 'group_data', 'distributions_uni', 'discrete_choice', 'hcluster', 'modelset', 'nelder']
    out.sort(key=lambda p: next((k for k, s in enumerate(slow) if s in p), 99))
    return out

def cc(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr

def build(tmp, run):
    if run['harness'].endswith('.R'):
        import rbuild
        return rbuild.build(REPO, tmp, HERE, sources('all'), BASE + SAN['asan'] + run.get('flags', []), run, NPROC, Broken)
    inc = ['include', 'include/math', 'include/blas', 'include/math/statistics', 'include/math/statistics/inference',
           'include/math/statistics/inference/models']
    I = ['-I' + os.path.join(REPO, i) for i in inc] + ['-I' + os.path.join(HERE, 'h')]
    flags = BASE + SAN[run.get('san', 'asan')] + run.get('flags', [])
    d = os.path.join(tmp, 'o_' + run.get('san', 'asan')); os.makedirs(d, exist_ok=True)
    hobj = [(os.path.join(HERE, 'h', h), os.path.join(tmp, re.sub(r'\W', '_', h) + '_' + run.get('san', 'asan') + '.o')) for h in [run['harness']] + run.get('extra', [])]
    def comp(so):
        s, o = so
        if os.path.exists(o): return 0, ''
        c = ['gcc'] if s.endswith('.c') else ['g++', '-std=c++17']
        f = [x for x in flags if not x.startswith('-fsanitize')] if os.path.basename(s).startswith('plain_') else flags
        return cc(c + f + I + ['-c', s, '-o', o])
    exe = os.path.join(tmp, re.sub(r'\W', '_', run['harness']) + '_' + run.get('san', 'asan'))
    for group in ([run.get('group', 'all'), 'all'] if run.get('group', 'all') != 'all' else ['all']):
        jobs = hobj + [(s, os.path.join(d, re.sub(r'\W', '_', os.path.relpath(s, REPO)) + '.o')) for s in sources(group) + [os.path.join(REPO, x) for x in run.get('src', [])]]
        with ThreadPoolExecutor(NPROC) as ex: res = list(ex.map(comp, jobs))
        for (s, o), (rc, txt) in zip(jobs, res):
            if rc: raise Broken('compilation failed: %s\n%s' % (s, txt[-3000:]))
        rc, txt = cc(['g++', *flags, '-rdynamic', *[o for _, o in jobs], '-o', exe, '-llapack', '-lblas', '-lpthread', *run.get('link', [])])
        if rc == 0: return exe
    raise Broken('link failed\n' + txt[-3000:])

ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:handle_abort=1:abort_on_error=0:exitcode=77:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_odr_violation=0:symbolize=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=0:exitcode=77:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4',
    'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
}

def crash_key(section, rc, err):
    m = re.search(r'SUMMARY: AddressSanitizer: ([\w-]+) (?:\S*?)([\w.]+\.\w+):\d+(?::\d+)? in (.+)', err)
    if m:
        # innermost frame inside the repository
        f = [x for x in re.findall(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):\d+', err) if '/src/' in x[1] or '/include/' in x[1]]
        f = [x for x in f if x[1].startswith(REPO)]
        fn = re.sub(r'\(.*', '', (f[0][0] if f else m.group(3)))
        return 'crash.%s.%s' % (m.group(1), re.sub(r'\s+', '_', fn))
    m = re.search(r'SUMMARY: ThreadSanitizer: (SEGV|ABRT|FPE|BUS|ILL)\b', err)
    if m:
        f = [x for x in re.findall(r'#\d+ (?:0x[0-9a-f]+ in )?([^\n]+?) (/\S+?):\d+', err[err.find('ERROR: ThreadSanitizer'):]) if x[1].startswith(REPO)]
        return 'crash.%s.%s' % (m.group(1), re.sub(r'\s+', '_', re.sub(r'\(.*|\[.*', '', f[0][0])) if f else section)
    m = re.search(r'([\w.]+):\d+:\d+: runtime error: (.*)', err)
    if m:
        msg = re.sub(r"[-+]?0x[0-9a-f]+|[-+]?\d[\d.e+-]*", 'N', m.group(2))
        return 'crash.ubsan.%s.%s' % (m.group(1), re.sub(r'[^A-Za-z]+', '-', msg)[:60].strip('-'))
    m = re.search(r'Assertion (.*?) failed', err)
    if m: return 'crash.assert.%s.%s' % (section, re.sub(r'[^A-Za-z_]+', '-', m.group(1))[:50])
    return 'crash.exit%s.%s' % (rc, section)

def run_shard(exe, run, i, n, tier, tmp, tag):
    """returns (records, problems)"""
    out = os.path.join(tmp, '%s.%d.out' % (tag, i)); recs = []; crashes = []
    env = {**os.environ, **ENV, **run.get('env', {}), 'VMON_TMP': tmp}
    base = (['valgrind', '-q', '--error-limit=no', '--track-origins=no'] if run.get('san') == 'memcheck' else []) + [exe, '--seed', str(SEED), '--shard', str(i), '--nshards', str(n), '--tier', tier, '--out', out]
    if run.get('sections'): base += ['--sections', ','.join(run['sections'])]
    if run.get('scale'): base += ['--scale', str(run['scale'])]
    extra = []; limit = run.get('wall', 600 if tier == 'quick' else 6000); end = time.time() + limit
    for attempt in range(run.get('max_crashes', 25) + 1):
        left = end - time.time()
        if left < 5: return out, crashes, 'wall limit'
        with open(out + '.err', 'w') as ef:
            try: p = subprocess.run(base + extra, stdout=subprocess.DEVNULL, stderr=ef, env=env, timeout=left, cwd=tmp); rc = p.returncode
            except subprocess.TimeoutExpired:
                cur = open(out + '.cur', 'rb').read(128).split(b'\0')[0].decode('latin1')
                return out, crashes, 'wall limit in case ' + cur
        err = open(out + '.err', errors='replace').read()
        if rc == 0: return out, crashes, None
        if rc == 77 and run.get('san') == 'tsan' and open(out, errors='replace').read()[-6:].strip() == 'DONE': return out, crashes, None  # ThreadSanitizer's exit code after reports
        raw = open(out + '.cur', 'rb').read(); cur = raw[:128].split(b'\0')[0].decode('latin1'); note = raw[128:].split(b'\0')[0].decode('latin1')
        if ':' not in cur: return out, crashes, 'harness ended with %s before any case: %s' % (rc, err[-800:])
        sec, k = cur.rsplit(':', 1)
        if rc == -signal.SIGPROF:
            # CPU limit of one case: run it again alone; only a repeat counts
            try: p2 = subprocess.run(base + ['--only', cur, '--out', out + '.again'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=max(5, end - time.time()), cwd=tmp)
            except subprocess.TimeoutExpired: return out, crashes, 'wall limit in case ' + cur
            if p2.returncode == -signal.SIGPROF: crashes.append(('hang.' + sec, cur, 'the case did not end within its CPU-time limit, twice. ' + note))
        elif rc == -signal.SIGKILL: return out, crashes, 'killed (memory?) in case ' + cur
        else:
            m = re.search(r'(ERROR: AddressSanitizer.*|runtime error.*|terminate called.*|Assertion.*)', err)
            st = re.findall(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+)', err)
            crashes.append((crash_key(sec, rc, err), cur, ((m.group(1)[:200] if m else 'exit code %s: %s' % (rc, err[-300:])) + ' | ' + ' < '.join('%s %s' % (re.sub(r'\(.*', '', a), b.replace(REPO + '/', '')) for a, b in st[:6]) + ' | ' + note)[:1500]))
        extra = ['--resume', '%s:%d' % (sec, int(k) + n)]
    return out, crashes, None

def known(prop):
    kn = {}
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+)\s+(.*)', l.strip())
            if m and m.group(1) == prop: kn[m.group(2)] = m.group(3)
    return kn

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    cfg = checks.CHECKS[prop]
    tmp = tempfile.mkdtemp(prefix='vmon_%s_' % prop)
    viols = []; counters = {}; seen = set(); evals = 0; skipped = 0; samples = []; incon = []; extra_cov = {}
    try:
        for ri, run in enumerate(cfg['runs']):
            if run.get('tiers') and tier not in run['tiers']: continue
            tag = 'r%d' % ri; t = time.time()
            if run.get('py'):
                mod = __import__(run['py'])
                res = mod.run(dict(repo=REPO, here=HERE, tmp=tmp, seed=SEED, tier=tier, nproc=NPROC, log=log, env=ENV, **run))
                viols += [(k, c, d) for k, c, d in res['viol']]; evals += res['evals']; seen |= set(res['seen']); samples += res['samples'][:3]
                incon += res.get('inconclusive', [])
                for k, v in res['counters'].items(): counters[k] = counters.get(k, 0) + v
                log('%s: %s took %.1fs' % (prop, run['py'], time.time() - t)); continue
            exe = build(tmp, run); log('%s: build %.1fs' % (prop, time.time() - t)); t = time.time()
            n = run.get('shards', NPROC)
            with ThreadPoolExecutor(min(n, NPROC)) as ex: rs = list(ex.map(lambda i: run_shard(exe, run, i, n, tier, tmp, tag), range(n)))
            log('%s: run %.1fs' % (prop, time.time() - t))
            for out, crashes, bad in rs:
                if bad: incon.append(bad)
                for k, c, d in crashes: viols.append((k, c, d))
                evals += len(crashes); ended = False
                for l in open(out, errors='replace'):
                    f = l.rstrip('\n').split('\t')
                    if f[0] == 'V' and len(f) >= 4: viols.append((f[1], f[2], f[3]))
                    elif f[0] == 'C': counters[f[1]] = counters.get(f[1], 0) + int(f[2])
                    elif f[0] == 'D': seen.add(f[1])
                    elif f[0] == 'S' and len(samples) < 6: samples.append({'case': f[1], 'what': f[2]})
                    elif f[0] == 'E': evals += int(f[1]); skipped += int(f[2]); ended = True
                if not ended and not bad and not crashes: incon.append('a shard ended without its final record')
            if run.get('post'):
                rs2 = run['post'](tmp, tag, n)
                viols += rs2
            for v in range(len(viols)):
                if len(viols[v]) == 3: viols[v] = viols[v] + (ri,)
    except Broken as e:
        log(str(e)); log('check %s cannot answer' % prop); sys.exit(2)
    finally:
        if not os.environ.get('VMON_KEEP'): shutil.rmtree(tmp, ignore_errors=True)
    kn = known(prop); bykey = {}
    for v in viols:
        bykey.setdefault(v[0], []).append(v)
    fresh = {k: v for k, v in bykey.items() if k not in kn}
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(seen), 'rule': cfg['rule'], 'samples': samples,
                       'observed': {k: counters[k] for k in sorted(counters)}, 'outside_domain': skipped},
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time() - T0, 2), 'violations': len(fresh)}
    ev['coverage'].update(extra_cov)
    if len(kn): ev['coverage']['known_findings_seen'] = sorted(k for k in bykey if k in kn)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k, what in kn.items(): print('KNOWN-FINDING: property=%s %s%s' % (prop, what, '' if k in bykey else ' (not reached in this run)'))
    if fresh:
        rd = os.path.join(HERE, 'replays'); os.makedirs(rd, exist_ok=True)
        for n, (k, vs) in enumerate(sorted(fresh.items())):
            if n >= 20: break
            path = os.path.join(rd, '%s-%d.json' % (prop, n)); case = vs[0][1]; run = cfg['runs'][vs[0][3] if len(vs[0]) > 3 else 0]
            with open(path, 'w') as f:
                json.dump({'property': prop, 'key': k, 'seed': SEED, 'tier': tier, 'case': case, 'harness': run.get('harness', run.get('py')),
                           'how': 'VERIF_SEED=%d VMON_KEEP=1 python3 vrun.py %s %s, then <scratch>/<harness exe> --seed %d --only %s' % (SEED, prop, tier, SEED, case),
                           'details': [v[2] for v in vs[:5]]}, f, indent=1)
            log('  %s [%s] %s' % (k, case, vs[0][2][:400]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        sys.exit(1)
    miss = [c for c in cfg.get('require', []) if counters.get(c, 0) <= 0]
    if incon or evals == 0 or miss:
        log('inconclusive: %s missing=%s evals=%d' % (incon[:5], miss, evals)); sys.exit(2)
    print('%s held: %d cases, %d distinct non-trivial, %.0fs' % (prop, evals, len(seen), time.time() - T0))

if __name__ == '__main__': main()
