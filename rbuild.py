"""Builds the two R packages of /repo (tdata and ldt) from the working tree into a scratch library, with the C++
code compiled with sanitizers, and writes a launcher that runs an R monitor harness on them."""
import os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor

ROXY = r'''options(keep.source = TRUE)
dst <- commandArgs(TRUE)[1]
Rcpp::compileAttributes(dst)
suppressMessages(roxygen2::roxygenise(dst, roclets = "namespace", load_code = function(path) {
  env <- roxygen2::load_source(path)
  for (f in list.files(file.path(path, "data"), "[.]rda$", full.names = TRUE)) load(f, envir = env)
  env
}))
'''

def sh(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
    return r.returncode, r.stdout

def build(repo, tmp, here, sources, flags, run, nproc, Broken):
    """sources: the library's sources; returns the launcher's path"""
    inc = ['include', 'include/math', 'include/blas', 'include/math/statistics', 'include/math/statistics/inference',
           'include/math/statistics/inference/models']
    I = ['-I' + os.path.join(repo, i) for i in inc]
    rinc = subprocess.run(['R', 'CMD', 'config', '--cppflags'], capture_output=True, text=True).stdout.split()
    site = subprocess.run(['Rscript', '--vanilla', '-e', 'cat(dirname(system.file(package="Rcpp")), "\n"); cat(dirname(system.file(package="BH")))'], capture_output=True, text=True).stdout.split()
    if len(site) < 2: raise Broken('Rcpp or BH is not installed')
    rinc += ['-I%s/Rcpp/include' % site[0], '-I%s/BH/include' % site[1]]
    lib = os.path.join(tmp, 'rlib'); os.makedirs(lib, exist_ok=True)
    pk = {}
    want = run.get('packages', ['tdata', 'ldt'])
    for d, name in (('Rpackage_F', 'tdata'), ('Rpackage', 'ldt')):
        if name not in want: continue
        dst = os.path.join(tmp, 'pkg', name); os.makedirs(os.path.join(dst, 'src'))
        s = os.path.join(repo, d)
        for x in ('R', 'data', 'inst', 'man-roxygen'):
            if os.path.isdir(os.path.join(s, x)): shutil.copytree(os.path.join(s, x), os.path.join(dst, x))
        shutil.copy(os.path.join(s, 'DESCRIPTION'), dst)
        with open(os.path.join(dst, 'NAMESPACE'), 'w') as f: f.write('# Generated by roxygen2: do not edit by hand\n')
        for x in sorted(os.listdir(os.path.join(s, 'src'))):
            if re.match(r'r_.*\.(cpp|h)$', x): shutil.copy(os.path.join(s, 'src', x), os.path.join(dst, 'src'))
        pk[name] = (s, dst)
    san = any('fsanitize' in x for x in flags)
    pre = ' '.join(os.path.realpath(subprocess.run(['g++', '-print-file-name=' + l], capture_output=True, text=True).stdout.strip()) for l in ('libasan.so', 'libubsan.so', 'libstdc++.so.6')) if san else ''
    env = {**os.environ, 'R_LIBS': lib, 'R_PROFILE_USER': '', 'R_ENVIRON_USER': '', 'LD_PRELOAD': pre, 'ASAN_OPTIONS': 'detect_leaks=0:detect_odr_violation=0'}
    rox = os.path.join(tmp, 'roxy.R'); open(rox, 'w').write(ROXY)
    attr = os.path.join(tmp, 'attr.R'); open(attr, 'w').write('Rcpp::compileAttributes(commandArgs(TRUE)[1])\n')
    for name, (s, dst) in pk.items():
        rc, o = sh(['Rscript', '--vanilla', attr, dst])
        if rc: raise Broken('compileAttributes failed for %s\n%s' % (name, o[-2000:]))
    od = os.path.join(tmp, 'o_r'); os.makedirs(od, exist_ok=True)
    jobs = []; objs = {n: [] for n in pk}
    fr = lambda p: '/src/frequency/' in p or '/src/variable/' in p
    both = lambda p: os.path.basename(p) in ('helpers.cpp', 'array.cpp') and os.path.dirname(p) == os.path.join(repo, 'src')
    for name, (s, dst) in pk.items():
        for x in sorted(os.listdir(os.path.join(dst, 'src'))):
            if x.endswith('.cpp'):
                o = os.path.join(od, name + '_' + x + '.o'); objs[name].append(o)
                jobs.append((os.path.join(dst, 'src', x), o, rinc + ['-I' + os.path.join(dst, 'src')]))
    for p in sources:
        o = os.path.join(od, re.sub(r'\W', '_', os.path.relpath(p, repo)) + '.o'); used = False
        if 'tdata' in pk and (fr(p) or both(p)): objs['tdata'].append(o); used = True
        if 'ldt' in pk and not fr(p): objs['ldt'].append(o); used = True
        if used: jobs.append((p, o, ['-I%s/BH/include' % site[1]]))
    def comp(j):
        s, o, extra = j
        c = ['gcc'] if s.endswith('.c') else ['g++', '-std=c++17']
        return sh(c + flags + ['-fPIC'] + extra + I + ['-c', s, '-o', o])
    def ns(n): # the R part: NAMESPACE; ldt needs tdata installed for its imports only when it is loaded
        return sh(['Rscript', '--vanilla', rox, pk[n][1]], env=env)
    with ThreadPoolExecutor(nproc) as ex:
        res = list(ex.map(comp, jobs))
    for (s, o, _), (rc, txt) in zip(jobs, res):
        if rc: raise Broken('compilation failed: %s\n%s' % (s, txt[-3000:]))
    for name, (s, dst) in pk.items():
        so = os.path.join(dst, 'src', name + '.so')
        rc, txt = sh(['g++', *flags, '-shared', '-o', so, *objs[name], '-llapack', '-lblas', '-lpthread', *run.get('link', [])])
        if rc: raise Broken('link failed\n' + txt[-2000:])
    for name in [n for n in ('tdata', 'ldt') if n in pk]:
        s, dst = pk[name]
        rc, o = ns(name)
        if rc: raise Broken('NAMESPACE of %s: %s' % (name, o[-2000:]))
        shutil.copy(os.path.join(s, 'DESCRIPTION'), dst)
        so = os.path.join(dst, 'src', name + '.so'); keep = os.path.join(tmp, name + '.so'); shutil.move(so, keep)
        for x in os.listdir(os.path.join(dst, 'src')): os.remove(os.path.join(dst, 'src', x))
        # the compiled part is put in place afterwards; R installs the rest
        os.rmdir(os.path.join(dst, 'src'))
        rc, o = sh(['R', '--vanilla', 'CMD', 'INSTALL', '--no-docs', '--no-test-load', '--no-staged-install', '--no-byte-compile', '--library=' + lib, dst],
                   env=env)
        if rc: raise Broken('R CMD INSTALL %s: %s' % (name, o[-3000:]))
        os.makedirs(os.path.join(lib, name, 'libs'), exist_ok=True); shutil.copy(keep, os.path.join(lib, name, 'libs', name + '.so'))
    fast = os.path.join(tmp, 'libfastsleep.so')
    rc, o = sh(['gcc', '-O1', '-fPIC', '-shared', '-o', fast, os.path.join(here, 'h', 'plain_fastsleep.c')])
    if rc: raise Broken('fastsleep\n' + o)
    exe = os.path.join(tmp, 'launch_' + re.sub(r'\W', '_', run['harness']))
    with open(exe, 'w') as f:
        f.write('#!/bin/bash\nexport R_LIBS=%s R_PROFILE_USER= R_ENVIRON_USER= VMON_HERE=%s\nexport R_HOME=$(R RHOME)\n. $R_HOME/etc/ldpaths\n' % (lib, here))
        f.write('LD_PRELOAD="%s %s" exec $R_HOME/bin/exec/R --no-echo --no-restore --vanilla --file=%s --args "$@"\n' % (pre, fast, os.path.join(here, 'h', run['harness'])))
    os.chmod(exe, 0o755)
    return exe
