#!/usr/bin/env python3
"""Compares the simulated libraries with the real ones: the same calls are executed by both.
The results of the real library become a table, which the simulated library has to
reproduce in every schedule. Writes tools/conformance.md."""
import os, sys, subprocess, tempfile, shutil, json, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, HERE + '/mc']
import check
C = HERE + '/tools/conform/'
def real(cmd, env=None): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env)
def need(p, what):
    if p.returncode: print(what, 'fails:\n' + p.stdout[-2000:] + p.stderr[-4000:]); sys.exit(1)
def sim(d, name, src, table, ranks, args=()):
    m, s = check.build({name: dict(src=C + src, defs=['MC_TABLE="%s"' % table])}, d)
    o = d + '/' + name + '.json'
    p = check.sh([m, '--so', s[name], '--ranks', str(ranks), '--out', o, '--workers', '8', '--timeout', '600', '--vbits', '24'] + list(args))
    j = json.load(open(o))
    if j['violation']: print(name, check.symbolize(s[name], j['violation'])); sys.exit(1)
    if not j['exhaustive']: print(name, 'is not exhaustive'); sys.exit(1)
    return j
def main():
    d = tempfile.mkdtemp(prefix='conform_'); out = []
    try:
        need(real(['g++', '-w', '-O1', C + 'nc_real.cpp', '-o', d + '/nc', '-lnetcdf']), 'compiling nc_real')
        p = real([d + '/nc', d + '/f.nc']); need(p, 'nc_real'); open(d + '/nc.h', 'w').write(p.stdout)
        j = sim(d, 'nc', 'nc_sim.cpp', d + '/nc.h', 1)
        out.append('netCDF: %s results of calls to the real library (%s) are reproduced by the simulated one.' % (p.stderr.strip(), real(['nc-config', '--version']).stdout.strip() or 'libnetcdf'))
        print(out[-1])
        if os.path.exists(C + 'mpi_real.cpp'):
            need(real(['mpicxx', '-w', '-O1', C + 'mpi_real.cpp', '-o', d + '/mpi']), 'compiling mpi_real')
            for n in (1, 2, 3):
                env = dict(os.environ, OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', TMPDIR=d)
                tot = states = trans = 0
                for part in range(5 if n > 1 else 4): # OpenMPI offers no window for one process here
                    p = real(['mpirun', '--oversubscribe', '--bind-to', 'none', '-np', str(n), d + '/mpi', d + '/t', str(part)], env); need(p, 'mpi_real')
                    tabs = [open('%s/t%d' % (d, r)).read() for r in range(n)]
                    open(d + '/mpi.h', 'w').write('static const long TABLE[][4096] = {' + ',\n'.join('{%s}' % t for t in tabs) + '};\nstatic const int COUNT[] = {%s};\n' % ','.join(str(t.count(',')) for t in tabs))
                    j = sim(d, 'mpi%d_%d' % (n, part), 'mpi_sim.cpp', d + '/mpi.h', n, ['part=%d' % part])
                    tot += sum(t.count(',') for t in tabs); states += j['executions']; trans += j['transitions']
                out.append('MPI, %d process(es): %d results of calls to the real library are reproduced by the simulated one in every schedule (%d executions, %d transitions).' % (n, tot, states, trans))
                print(out[-1])
    finally: shutil.rmtree(d, ignore_errors=True)
    open(HERE + '/tools/conformance.md', 'w').write('\n'.join('* ' + x for x in out) + '\n')
main()
