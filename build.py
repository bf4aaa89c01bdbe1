#!/usr/bin/env python3
"""Builds the simulator (simrun) and the code under test plus workloads (libef.so) from /repo's working tree.
Everything lands in /verif/build/<key>, which git ignores; <key> is a hash of every input."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
PETSC_INC, PETSC_LIB = '/usr/lib/petsc/include', '/usr/lib/petsc/lib'

def out(cmd):
    return subprocess.check_output(cmd, text=True).split()

def digest(files, extra):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(' '.join(cmd[:1] + cmd[-3:]) + '\n' + p.stdout[-6000:])

def build(quiet=False):
    mpi_c, mpi_l = out(['mpicxx', '--showme:compile']), out(['mpicxx', '--showme:link'])
    sim_flags = ['-std=c++20', '-O2', '-g', '-fno-threadsafe-statics', '-DOMPI_SKIP_MPICXX', '-I' + HERE + '/sim', '-I' + PETSC_INC] + mpi_c
    ef_flags = ['-std=c++20', '-O1', '-g1', '-w', '-fPIC', '-fno-gnu-unique', '-fpermissive', '-DOMPI_SKIP_MPICXX', '-include', HERE + '/ef/shim.h', '-DUSE_PETSC', '-I' + REPO + '/src', '-I' + PETSC_INC] + mpi_c
    sim_src = [HERE + '/sim/' + f for f in ('core.cpp', 'simmpi.cpp', 'simos.cpp')]
    src = sorted(glob.glob(REPO + '/src/**/*.cpp', recursive=True)) + sorted(glob.glob(HERE + '/ef/*.cpp'))
    # preemption at memory accesses: these go first on the link line, so their copies of inline functions are the ones used
    preempt = [REPO + '/src/EllipticForestApp.cpp', REPO + '/src/GenericSingleton.cpp', HERE + '/ef/w_threads.cpp']
    src = [s for s in preempt if os.path.exists(s)] + [s for s in src if s not in preempt]
    inputs = glob.glob(REPO + '/src/**/*.[ch]pp', recursive=True) + glob.glob(HERE + '/sim/*') + glob.glob(HERE + '/ef/*') + [__file__]
    inputs = [f for f in inputs if os.path.isfile(f)]
    key = digest(inputs, ' '.join(sim_flags + ef_flags))
    d = os.path.join(BUILD, key)
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(d + '/done'):
            os.utime(d); return d
        old = sorted((p for p in glob.glob(BUILD + '/*') if os.path.isdir(p)), key=os.path.getmtime)
        for p in old[:-3]:
            shutil.rmtree(p, ignore_errors=True)
        t0 = time.time()
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        run([sys.executable, HERE + '/sim/mkstubs.py', HERE + '/sim/simmpi.cpp', 'stubs.cpp'], tmp)
        jobs = [(['g++', '-w'] + sim_flags + ['-c', s, '-o', os.path.basename(s)[:-4] + '.o']) for s in sim_src] + [['g++', '-c', 'stubs.cpp', '-o', 'stubs.o']]
        objs = []
        for i, s in enumerate(src):
            o = '%03d_%s.efo' % (i, os.path.basename(s)[:-4]); objs.append(o)
            f = ef_flags + (['-fsanitize=thread', '-Dsim_preempt'] if s in preempt else [])
            jobs.append(['g++'] + f + ['-c', s, '-o', o])
        jobs.sort(key=lambda j: -os.path.getsize(j[j.index('-c') + 1] if os.path.isabs(j[j.index('-c') + 1]) else tmp + '/' + j[j.index('-c') + 1]))
        with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            list(ex.map(lambda j: run(j, tmp), jobs))
        run(['g++', '-rdynamic', '-o', 'simrun', 'core.o', 'simmpi.o', 'simos.o', 'stubs.o', '-L' + PETSC_LIB, '-lpetsc', '-lp4est', '-lsc', '-lblas', '-llapack', '-lz', '-ldl'] + mpi_l + ['-Wl,--no-as-needed'], tmp)
        run(['g++', '-shared', '-o', 'libef.so'] + objs + ['-L' + PETSC_LIB, '-lpetsc', '-lp4est', '-lsc', '-lblas', '-llapack', '-lz'], tmp)
        for f in glob.glob(tmp + '/*.o') + glob.glob(tmp + '/*.efo'):
            os.unlink(f)
        open(tmp + '/done', 'w').write('%.1f\n' % (time.time() - t0))
        shutil.rmtree(d, ignore_errors=True); os.rename(tmp, d)
        if not quiet:
            print('built simulator and code under test in %.1f s' % (time.time() - t0), flush=True)
    return d

if __name__ == '__main__':
    try:
        print(build())
    except BuildError as e:
        print(e); sys.exit(2)
