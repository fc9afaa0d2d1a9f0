LIB = ['asagi.cpp', 'grid/grid.cpp', 'types/structtype.cpp', 'perf/counter.cpp', 'mpi/mpicomm.cpp', 'mpi/commthread.cpp', 'io/netcdfreader.cpp', 'numa/numa.cpp']
UNITS = {
 'sync': dict(src='sync.cpp'),
 'once': dict(src='once.cpp'),
 'numa': dict(src='numa.cpp', lib=['numa/numa.cpp']),
 'fortran': dict(src='fortran.cpp', lib=LIB+['asagi_f90.cpp'], types='types::BasicType<float>'),
 'dict': dict(src='dict.cpp', lib=['numa/numa.cpp','mpi/mpicomm.cpp']),
 'mpimutex': dict(src='mpimutex.cpp', lib=['numa/numa.cpp','mpi/mpicomm.cpp']),
 'nodelocal': dict(src='nodelocal.cpp', lib=LIB, types='types::BasicType<float>'),
 'commthread': dict(src='commthread.cpp', lib=['mpi/commthread.cpp']),
 'cachemgr': dict(src='cachemgr.cpp'),
 'cachelist': dict(src='cachelist.cpp'),
 'gridts': dict(src='grid.cpp', lib=LIB, types='types::BasicType<float>', defs=['THREADSAFE_MPI']),
 'gridtc': dict(src='grid.cpp', lib=LIB, types='types::BasicType<float>', defs=['THREADSAFE_COUNTER']),
 'gridnr': dict(src='grid.cpp', lib=LIB, types='types::BasicType<float>', undefs=['ROUND_ROBIN']),
 'reader': dict(src='reader.cpp', lib=['io/netcdfreader.cpp']),
 'coord': dict(src='coord.cpp', lib=LIB+['asagi_f90.cpp'], types='types::BasicType<float>'),
 'params': dict(src='params.cpp', lib=LIB, types='types::BasicType<float>'),
 'paramsts': dict(src='params.cpp', lib=LIB, types='types::BasicType<float>', defs=['THREADSAFE_MPI']),
 'multi': dict(src='multi.cpp', lib=LIB, types='types::BasicType<float>'),
 'multits': dict(src='multi.cpp', lib=LIB, types='types::BasicType<float>', defs=['THREADSAFE_MPI']),
 'grid': dict(src='grid.cpp', lib=LIB, types='types::BasicType<float>'),
}
NOMPI = [x for x in LIB if not x.startswith('mpi/')]
UNITS.update(
 gridnompi=dict(UNITS['grid'], lib=NOMPI, defs=['ASAGI_NOMPI'], undefs=['USE_MPI3']),
 gridnonuma=dict(UNITS['grid'], defs=['ASAGI_NONUMA']),
 gridbare=dict(UNITS['grid'], lib=NOMPI, defs=['ASAGI_NOMPI', 'ASAGI_NONUMA'], undefs=['USE_MPI3']),
 griddn=dict(UNITS['grid'], defs=['DEBUG_NUMA']),
 gridm2=dict(UNITS['grid'], undefs=['USE_MPI3']),
 gridnt=dict(UNITS['grid'], undefs=['THREADSAFE']),
 numanon=dict(UNITS['numa'], defs=['ASAGI_NONUMA']),
 numadbg=dict(UNITS['numa'], defs=['DEBUG_NUMA']))
ELEM = ['unsigned char', 'int', 'long', 'float', 'double']
for _i, _e in enumerate(ELEM):
    UNITS['types%d' % _i] = dict(src='types.cpp', lib=LIB+['asagi_f90.cpp'], types='types::ArrayType<%s>,types::StructType<%s>,types::BasicType<%s>' % (_e, _e, _e))
UNITS['huge'] = dict(src='huge.cpp', lib=LIB, types='types::BasicType<float>')
UNITS['typests'] = dict(UNITS['types3'], defs=['THREADSAFE_MPI'])
PROPS = {}
def P(pid, **kw): PROPS[pid] = kw
def R(name, unit, ranks=1, **kw):
    d = dict(name=name, unit=unit, ranks=ranks); d.update(kw); return d
def A(**kw): return kw
BFS = ['--bfs']
# C05: cache slots
_c = lambda n, t=60, v=22, **a: R(n, 'cachemgr', args=a, timeout=t, vbits=v)
P('C05', quick=[_c('s1', slots=1, blocks=2, threads=2, ops=2), _c('s2', slots=2, blocks=3, threads=2, ops=3), _c('s1-t3', slots=1, blocks=2, threads=3, ops=2), _c('s3', slots=3, blocks=4, threads=2, ops=3),
   _c('s2-spread0', slots=2, blocks=3, threads=2, ops=3, spread=0), _c('s2-spread5', slots=2, blocks=3, threads=2, ops=3, spread=5), _c('s2-update', slots=2, blocks=2, threads=2, ops=3, touch=1),
   _c('two-s1', two=1, slots=1, blocks=2, threads=2, ops=2), _c('two-s2', two=1, slots=2, blocks=3, threads=2, ops=2), _c('two-s1-t4', two=1, slots=1, blocks=2, threads=4, ops=1)],
  thorough=[_c('s2-t3', 300, 25, slots=2, blocks=3, threads=3, ops=2), _c('s2-o4', 300, 25, slots=2, blocks=3, threads=2, ops=4), _c('two-s2-o3', 300, 25, two=1, slots=2, blocks=3, threads=2, ops=3), _c('s1-t4', 600, 26, slots=1, blocks=2, threads=4, ops=2)])
P('C06', quick=[R('s%d%+d'%(n,h),'cachelist',args=dict(size=n,blocks=n+2,spread=h,reuse=1),opts=BFS) for n in (1,2,3) for h in (-1,0,1,2,3,4)],
  thorough=[R('s4%+d'%h,'cachelist',args=dict(size=4,blocks=6,spread=h,reuse=1),opts=BFS,timeout=300,vbits=24) for h in (-1,0,1,2,3,4,5)])
P('C08', quick=[R('threads2', 'sync', args=dict(threads=2, rounds=4, spurious=1)), R('threads3', 'sync', args=dict(threads=3, rounds=2, spurious=1)), R('threads4', 'sync', args=dict(threads=4, rounds=2))],
  thorough=[R('threads3-r3', 'sync', args=dict(threads=3, rounds=3, spurious=1), timeout=600,vbits=25), R('threads4-sp', 'sync', args=dict(threads=4, rounds=2,spurious=1), timeout=600,vbits=25),R('threads5-r1', 'sync', args=dict(threads=5, rounds=1), timeout=600,vbits=25)])
P('C09', quick=[R('threads2','once',args=dict(threads=2,calls=2,objects=2)),R('threads3','once',args=dict(threads=3,calls=2)),R('threads4','once',args=dict(threads=4,calls=1))], thorough=[])
P('C10', quick=[R('threads2','numa',args=dict(threads=2,regs=2)), R('threads2-inst2','numa',args=dict(threads=2,regs=2,instances=2)), R('threads3','numa',args=dict(threads=3,regs=2)), R('threads3-off','numa',args=dict(threads=3,regs=2,detect=0))],
  thorough=[R('threads3-n3','numa',args=dict(threads=3,nodes=3,regs=1,spurious=1),timeout=300,vbits=25)])
P('C19', quick=[R('threads2','fortran',args=dict(threads=2,ops=2)), R('threads2-ops3','fortran',args=dict(threads=2,ops=3)), R('seq','fortran',args=dict(threads=1,ops=5,kinds=1,live=3)), R('open','fortran',args=dict(threads=2,ops=2,open=1))], thorough=[])
P('C20', quick=[R('h6','dict',args=dict(reuse=1,active=1,holders=6),opts=BFS), R('h5-nolock','dict',args=dict(reuse=1,active=1,holders=5,lock=0),opts=BFS), R('h3','dict',args=dict(reuse=1,holders=3),opts=BFS), R('h3-nolock','dict',args=dict(reuse=1,holders=3,lock=0),opts=BFS)], thorough=[])
P('C21', quick=[R('r2','mpimutex',2,args=dict(rounds=2)), R('r2-nt2','mpimutex',2,args=dict(nt=2)), R('r2-locks2','mpimutex',2,args=dict(locks=2,rounds=2)), R('r3','mpimutex',3,args=dict(rounds=1)), R('r3-r2','mpimutex',3,args=dict(rounds=2))],
  thorough=[R('r2-nt2-r2','mpimutex',2,args=dict(nt=2,rounds=2),timeout=600,vbits=27)])
_q = lambda n, r=2, t=60, v=22, **a: R(n, 'commthread', r, args=a, timeout=t, vbits=v)
P('C22', quick=[_q('r2'), _q('r2-rcv2', receivers=2), _q('r2-nt2', nt=2), _q('r2-oneway', oneway=1), _q('r2-oneway-nt2', oneway=1, nt=2), _q('r2-late', late=1, nt=2), _q('r2-reversed', reversed=1), _q('r2-cycles', cycles=2), _q('r2-twice', twice=1), _q('r2-msgs', msgs=2), _q('r3', 3)]
   + [_q('cpu%+d'%c, 1, sched_cpu=c) for c in (0,3,4,-1,-2,-4,-5)] + [_q('r1-nt2', 1, nt=2, msgs=2, receivers=2), _q('r1-cycles', 1, cycles=3)],
  thorough=[_q('r2-nt2-rcv2', 2, 300, 25, nt=2, receivers=2), _q('r3-rcv2', 3, 300, 25, receivers=2), _q('r2-nt2-msgs2', 2, 900, 27, nt=2, msgs=2)])
P('C23', quick=[R('r3','nodelocal',3,args=dict(names=3)), R('r3-collision','nodelocal',3,args=dict(set=1,names=3)), R('r3-long','nodelocal',3,args=dict(set=4,names=4))], thorough=[R('r4','nodelocal',4,args=dict(names=3),timeout=600,vbits=25)])
H = dict(hide_counters=1)
def G(name, unit='grid', ranks=1, t=300, v=22, expect=None, opts=None, **a):
    d = dict(n0=5, b0=2, hide_counters=1); d.update(a)
    r = R(name, unit, ranks, args=d, timeout=t, vbits=v)
    if expect: r['expect'] = expect
    if opts: r['opts'] = opts
    return r
# C01: one process, one thread: all shapes, block sizes, cache sizes, hand spreads and access sequences
_T = ('full', 'cache', 'pass')
P('C01',
  quick=[G('%s-1d' % _T[t], type=t, dims=1, shapes=6, bmax=7, bneg=1, lk=2 if t == 1 else 1, **(dict(csmax=4, smax=5) if t == 1 else {})) for t in (0, 1, 2)]
   + [G('%s-2d' % _T[t], type=t, dims=2, shapes=3, bmax=4, bneg=1, lk=2 if t == 1 else 1, **(dict(csmax=3) if t == 1 else {})) for t in (0, 1, 2)]
   + [G('%s-3d' % _T[t], type=t, dims=3, shapes=2, bmax=3, bneg=1 if t != 1 else 0, lk=2 if t == 1 else 1, **(dict(csmax=2) if t == 1 else {})) for t in (0, 1, 2)]
   + [G('%s-4d' % _T[t], type=t, dims=4, shapes=2, bmax=2, lk=1) for t in (0, 1, 2)]
   + [G('cache-lk3', type=1, dims=2, shapes=3, bmax=3, csmax=3, lk=3, smax=4), G('cache-lk5', type=1, n0=8, b0=2, csmax=4, lk=5, smax=6), G('cache-lk7', type=1, n0=6, b0=2, csmax=2, lk=7, smax=4),
      G('full-nr-2d', 'gridnr', type=0, dims=2, shapes=3, bmax=4, bneg=1), G('full-numa-2d', type=0, dims=2, shapes=3, bmax=3, nt=2, nd=2, det=1, v=23), G('full-nr-numa-2d', 'gridnr', type=0, dims=2, shapes=3, bmax=3, nt=2, nd=2, det=1, v=23)],
  thorough=[G('full-2d-4', type=0, dims=2, shapes=4, bmax=5, bneg=1, t=900), G('cache-2d-4', type=1, dims=2, shapes=4, bmax=4, bneg=1, csmax=3, lk=3, t=1800, v=25), G('cache-3d-3', type=1, dims=3, shapes=3, bmax=3, csmax=3, lk=2, t=1800, v=25), G('cache-lk6', type=1, n0=8, b0=2, csmax=4, lk=7, smax=6, t=1800, v=25), G('pass-3d-3', type=2, dims=3, shapes=3, bmax=3, t=900)])
# C02: threads and NUMA domains of one process
P('C02',
  quick=[G('full-off', type=0, nt=2, nd=2, numa=0), G('full-on', type=0, nt=2, nd=2, numa=1, lk=2), G('full-numacache', type=0, nt=2, nd=2, numa=2, lk=2), G('full-on-t3', type=0, nt=3, nd=2, numa=1, det=1, lk=2), G('full-on-cs1', type=0, nt=2, nd=2, numa=1, cs=1, n0=9, lk=2, det=1), G('full-one-domain', type=0, nt=2, lk=2), G('full-nr-on', 'gridnr', type=0, nt=2, nd=2, n0=9, lk=2, det=1),
    G('cache-cs1', type=1, nt=2, cs=1, lk=2), G('cache-cs2', type=1, nt=2, cs=2, lk=2), G('cache-off', type=1, nt=2, nd=2, numa=0, lk=2), G('cache-t3-cs1', type=1, nt=3, cs=1, det=1), G('cache-t3-cs1-lk2', type=1, nt=3, n0=3, cs=1, lk=2, det=1, v=24),
    G('cache-numa-cs1', type=1, nt=2, nd=2, cs=1, lk=1), G('cache-numa-cs1-lk2', type=1, nt=2, nd=2, n0=3, cs=1, lk=2, det=1, v=23), G('cache-numa-cs2', type=1, nt=2, nd=2, cs=2, lk=2, det=1), G('cache-numa-t3', type=1, nt=3, nd=2, cs=1, det=1), G('cache-numa-t4', type=1, nt=4, nd=2, cs=1, np=2, det=1),
    G('pass', type=2, nt=2, lk=2), G('pass-t3', type=2, nt=3, lk=1)]
   + [R('grids-%d%d' % (a, b), 'multi', args=dict(type=a, type2=b, lk=2), timeout=300) for a, b in ((0, 0), (1, 1), (2, 2), (1, 2), (0, 1))]
   + [R('grids-samefile', 'multi', args=dict(type=1, samefile=1, cycles=2)), R('grids-t3', 'multi', args=dict(type=1, nt=3), timeout=300)]
   + [R('types-numa', 'types3', args=dict(elem=3, nt=2, nd=2, tlk=1), timeout=300), R('types-pass', 'types3', args=dict(elem=3, nt=2, type=2, tlk=1), timeout=300)],
  thorough=[G('cache-t3-cs2-lk2', type=1, nt=3, cs=2, lk=2, det=1, t=1200, v=26), G('cache-numa-cs1-lk2-open', type=1, nt=2, nd=2, cs=1, lk=2, t=1200, v=26), G('cache-numa-lk3', type=1, nt=2, nd=2, cs=1, lk=3, det=1, t=2400, v=27), G('cache-numa-t3-lk2', type=1, nt=3, nd=2, n0=3, cs=1, lk=2, det=1, t=2400, v=27), G('cache-numa-t3-d3', type=1, nt=3, nd=3, n0=3, cs=1, lk=1, det=1, t=2400, v=27),
    R('types-cache', 'types3', args=dict(elem=3, nt=2, nd=2, type=1, tlk=1), timeout=600, vbits=25), R('types-t3', 'types3', args=dict(elem=3, nt=3, nd=2), timeout=900, vbits=25)])
# C03: windows
P('C03',
  quick=[G('full', ranks=2, type=0, mpi=1, lk=2), G('full-ts', 'gridts', 2, type=0, mpi=1, lk=2, serial_mpi=1), G('full-nr', 'gridnr', 2, type=0, mpi=1, n0=7), G('full-r3', ranks=3, type=0, mpi=1, n0=7),
    G('full-t2', ranks=2, type=0, mpi=1, nt=2, n0=3, v=23), G('full-ts-t2', 'gridts', 2, type=0, mpi=1, nt=2, n0=3, det=1, serial_mpi=1), G('full-numa', ranks=2, type=0, mpi=1, nt=2, nd=2, det=1), G('full-numa-off', ranks=2, type=0, mpi=1, nt=2, nd=2, numa=0, det=1), G('full-nr-numa', 'gridnr', 2, type=0, mpi=1, nt=2, nd=2, n0=9, np=5, det=1), G('full-numacache', ranks=2, type=0, mpi=1, nt=2, nd=2, numa=2, n0=3, det=1, v=24, t=600),
    G('full-2d', ranks=2, type=0, mpi=1, dims=2, n0=3, n1=2, b1=1), G('cache', ranks=2, type=1, mpi=1, n0=3, cs=1, lk=1), G('cache-lk3', ranks=2, type=1, mpi=1, n0=3, cs=1, lk=3, det=1), G('cache-ts', 'gridts', 2, type=1, mpi=1, n0=3, cs=1, lk=2, det=1, serial_mpi=1), G('cache-cs2', ranks=2, type=1, mpi=1, cs=2, lk=2, det=1),
    G('cache-r3', ranks=3, type=1, mpi=1, cs=1, det=1), G('cache-r3-lk2', ranks=3, type=1, mpi=1, n0=3, cs=1, lk=2, np=2, det=1), G('cache-t2', ranks=2, type=1, mpi=1, n0=3, cs=1, nt=2, det=1, v=24, t=600)],
  thorough=[G('cache-ts-t2', 'gridts', 2, type=1, mpi=1, n0=3, cs=1, nt=2, det=1, serial_mpi=1, v=25, t=900), G('cache-numa', ranks=2, type=1, mpi=1, n0=3, cs=1, nt=2, nd=2, np=2, det=1, v=26, t=1800), G('full-numacache-5', ranks=2, type=0, mpi=1, nt=2, nd=2, numa=2, det=1, v=27, t=2400), G('cache-r3-3', ranks=3, type=1, mpi=1, cs=1, lk=2, det=1, v=26, t=1800), G('cache-lk4', ranks=2, type=1, mpi=1, cs=1, lk=4, det=1, v=26, t=1800), G('full-r3-numa', ranks=3, type=0, mpi=1, nt=2, nd=2, n0=7, np=3, det=1, v=26, t=1800)])
# C04: communication threads
P('C04',
  quick=[G('full', ranks=2, type=0, mpi=2, lk=2), G('full-r3', ranks=3, type=0, mpi=2, n0=7, np=3, det=1), G('full-numa', ranks=2, type=0, mpi=2, nt=2, nd=2, n0=3, det=1, v=23), G('full-nr', 'gridnr', 2, type=0, mpi=2, n0=9, np=3), G('full-t2', ranks=2, type=0, mpi=2, nt=2, n0=3, det=1, v=23),
    G('cache-open', ranks=2, type=1, mpi=2, n0=3, cs=1, v=23), G('cache', ranks=2, type=1, mpi=2, n0=3, cs=1, lk=2, det=1, v=23), G('cache-cs2', ranks=2, type=1, mpi=2, n0=3, cs=2, lk=2, det=1, v=23), G('cache-r3', ranks=3, type=1, mpi=2, n0=3, cs=1, np=2, fixed=1, det=1, v=23),
    G('full-levels', ranks=2, type=0, mpi=2, n0=3, levels=2, nt=2, oneLevel=1, np=2, det=1), G('cache-levels', ranks=2, type=1, mpi=2, n0=3, levels=2, nt=2, ntr=1, oneLevel=1, np=2, cs=1, det=1), G('full-eager0', ranks=2, type=0, mpi=2, eager=0), G('cache-eager0', ranks=2, type=1, mpi=2, n0=3, cs=1, lk=1, det=1, eager=0, v=23)],
  thorough=[G('cache-r3-all', ranks=3, type=1, mpi=2, n0=3, cs=1, np=2, det=1, v=23, t=900), G('cache-lk3', ranks=2, type=1, mpi=2, n0=3, cs=1, lk=3, det=1, v=26, t=1800), G('cache-5-cs2', ranks=2, type=1, mpi=2, cs=2, lk=2, det=1, v=26, t=1800), G('cache-t2', ranks=2, type=1, mpi=2, n0=3, nt=2, ntr=1, cs=1, det=1, v=26, t=1800), G('cache-numa', ranks=2, type=1, mpi=2, n0=3, nt=2, nd=2, cs=1, np=2, det=1, v=27, t=3000), G('full-numacache', ranks=2, type=0, mpi=2, n0=3, nt=2, nd=2, numa=2, np=2, det=1, v=27, t=3000), G('cache-r3-3', ranks=3, type=1, mpi=2, n0=5, cs=1, np=3, det=1, v=27, t=3000)])
# C11: failing opens
_f11 = []
for _f in (1, 2, 4, 7):
    _f11.append(G('f%d' % _f, type=0, fault=_f, n0=3)) if _f != 4 else None
    if _f != 4: _f11.append(G('f%d-numa' % _f, type=0, fault=_f, n0=3, nt=2, nd=2, expect=['success', 'failure']))
    if _f in (1, 2): _f11 += [G('f%d-cache-numa' % _f, type=1, fault=_f, n0=3, nt=2, nd=2, lk=0, expect=['success', 'failure']), G('f%d-pass-numa' % _f, type=2, fault=_f, n0=3, nt=2, nd=2, lk=0, expect=['success', 'failure']), G('f%d-t3' % _f, type=1, fault=_f, n0=3, nt=3, nd=2, lk=0, fault_budget=2, expect=['success', 'failure'])]
    for _m in (1, 2):
        for _r in (0, 1):
            for _t in (0, 1):
                if _f == 7 and _t: continue
                _f11.append(G('f%d-%s-%s-r%d' % (_f, 'fc'[_t], 'owt'[_m], _r), ranks=2, type=_t, mpi=_m, fault=_f, fault_rank=_r, n0=3, lk=0, expect=['success', 'failure']))
_f11 += [G('f%d-off-r1' % _f, ranks=2, type=0, mpi=0, fault=_f, fault_rank=1, n0=3, lk=0, expect=['success', 'failure']) for _f in (1, 2, 7)]
_f11 += [G('f%d-%s-w-numa' % (_f, 'fc'[t]), ranks=2, type=t, mpi=1, fault=_f, fault_rank=1, n0=3, nt=2, nd=2, lk=0, v=24, opts=['--bound', '1'], expect=['success', 'failure']) for _f, t in ((1, 0), (7, 0), (2, 1), (4, 1), (4, 0))]
_f11 += [G('f%d-%s-t-numa' % (_f, 'fc'[t]), ranks=2, type=t, mpi=2, fault=_f, fault_rank=1, n0=3, nt=2, nd=2, lk=0, det=1, expect=['success', 'failure']) for _f, t in ((1, 0), (7, 0), (2, 1), (4, 1))]
_t11 = [G('f%d-w-numa' % _f, ranks=2, type=0, mpi=1, fault=_f, fault_rank=1, n0=3, nt=2, nd=2, lk=0, v=25, t=1800, expect=['success', 'failure']) for _f in (1, 7)]
_f11 += [G('missing%d-%s' % (_m, n), missing=_m, **a) for _m in (1, 2) for n, a in (('full', dict(type=0, nt=2, nd=2)), ('cache', dict(type=1, nt=2, nd=2)), ('pass', dict(type=2, nt=2)), ('window', dict(type=0, ranks=2, mpi=1)), ('thread', dict(type=1, ranks=2, mpi=2)), ('levels', dict(type=0, levels=2)))]
_f11 += [G('retry%d%s' % (_f, n), fault=_f, retry=1, expect=['success', 'retried'], n0=3, **a) for _f in (1, 2, 7) for n, a in (('', dict(type=0)), ('-numa', dict(type=0, nt=2, nd=2)), ('-w', dict(type=0, ranks=2, mpi=1, lk=1)), ('-t', dict(type=0, ranks=2, mpi=2, det=1)))]
_f11 = [x for x in _f11 if x]
P('C11', quick=_f11, thorough=_t11)
# C12: reads
_r = dict(reads=1)
P('C12',
  quick=[G('full-%dd' % d, type=0, dims=d, shapes=3 if d < 3 else 2, bmax=4 if d < 3 else 2, bneg=1, reads=1, det=1) for d in (1, 2, 3)] + [G('full-numa-%dd-%s' % (d, u), u, type=0, dims=d, shapes=4 if d < 2 else 3, bmax=3, reads=1, nt=2, nd=2, det=1, v=23) for d in (1, 2) for u in ('grid', 'gridnr')]
   + [G('full-numa-t3', type=0, n0=7, reads=1, nt=3, nd=3, det=1, lk=1), G('full-numa-open', type=0, n0=5, reads=1, nt=2, nd=2, lk=0)]
   + [G('full-%s-%s' % ('owt'[m], u), u, 2, type=0, mpi=m, dims=1, shapes=6, bmax=3, reads=1, det=1, lk=0) for m in (0, 1, 2) for u in ('grid', 'gridnr')]
   + [G('full-%s-r3' % 'owt'[m], 'grid', 3, type=0, mpi=m, dims=1, shapes=6, bmax=3, reads=1, det=1, lk=0) for m in (1, 2)]
   + [G('full-2d-%s-%s' % ('owt'[m], u), u, 2, type=0, mpi=m, dims=2, shapes=3, bmax=2, reads=1, det=1, lk=0) for m in (1, 2) for u in ('grid', 'gridnr')]
   + [G('full-w-numa-%s' % u, u, 2, type=0, mpi=1, dims=1, n0=9, reads=1, nt=2, nd=2, det=1, lk=1, np=3) for u in ('grid', 'gridnr')] + [G('full-w', ranks=2, type=0, mpi=1, reads=1, lk=1), G('full-t', ranks=2, type=0, mpi=2, reads=1, lk=1, det=1)]
   + [G('cache-1d', type=1, dims=1, shapes=6, bmax=4, csmax=4, lk=3, reads=1, bneg=1), G('cache-2d', type=1, dims=2, shapes=3, bmax=3, csmax=3, lk=2, reads=1), G('cache-keep', type=1, n0=5, b0=2, cs=3, lk=4, reads=1, once=1), G('cache-numa', type=1, nt=2, nd=2, cs=3, lk=2, reads=1, once=2, det=1), G('cache-numa-seq', type=1, nt=2, nd=2, cs=3, lk=3, reads=1, once=1, det=1, seq=1), G('cache-numa3-seq', type=1, nt=3, nd=3, cs=3, lk=2, reads=1, once=1, det=1, seq=1), G('cache-threads', type=1, nt=2, cs=3, lk=2, reads=1, once=1), G('cache-numa-cs1', type=1, n0=3, nt=2, nd=2, cs=1, lk=2, reads=1, det=1),
      G('pass', type=2, dims=2, shapes=2, bmax=2, lk=2, reads=1), G('cache-w', ranks=2, type=1, mpi=1, n0=3, cs=2, lk=2, reads=1, once=1, det=1), G('cache-t', ranks=2, type=1, mpi=2, n0=3, cs=2, lk=1, reads=1, once=2, det=1), G('cache-t-seq', ranks=2, type=1, mpi=2, n0=5, cs=3, lk=2, reads=1, once=1, det=1, seq=1), G('cache-w-seq', ranks=2, type=1, mpi=1, n0=5, cs=3, lk=2, reads=1, once=1, det=1, seq=1), G('cache-w3-seq', ranks=3, type=1, mpi=1, n0=5, cs=3, lk=2, reads=1, once=1, det=1, seq=1), G('cache-w-numa-seq', ranks=2, type=1, mpi=1, n0=5, cs=3, lk=1, nt=2, nd=2, reads=1, once=1, det=1, seq=1), G('cache-t-numa-seq', ranks=2, type=1, mpi=2, n0=5, cs=3, lk=1, nt=2, nd=2, reads=1, once=1, det=1, seq=1)],
  thorough=[])
# C13, C14, C16, C18: sequential enumerations
P('C13', quick=[R('%s-1d' % n, 'coord', args=dict(dims=1, type=t, api=a)) for n, t, a in (('full', 0, 0), ('cache-c', 1, 1), ('pass-f', 2, 2))] + [R('levels', 'coord', args=dict(dims=1, levels=2, shapes=3, axes=5)), R('2d', 'coord', args=dict(dims=2, shapes=3, axes=5), timeout=300), R('2d-cache-c', 'coord', args=dict(dims=2, shapes=3, axes=5, type=1, api=1), timeout=300), R('2d-pass-f', 'coord', args=dict(dims=2, shapes=3, axes=3, type=2, api=2), timeout=300), R('3d', 'coord', args=dict(dims=3, shapes=2, axes=2, thin=1), timeout=300)],
  thorough=[R('2d-all', 'coord', args=dict(dims=2, shapes=4), timeout=900, vbits=24), R('3d-3', 'coord', args=dict(dims=3, shapes=2, axes=4, thin=1), timeout=1800, vbits=24), R('levels-f', 'coord', args=dict(dims=1, levels=2, shapes=4, api=2), timeout=900)])
def _ty(i):
    e = dict(elem=i); u = 'types%d' % i; m = lambda **k: dict(e, **k)
    return [R('t%d-full' % i, u, args=m(type=0)), R('t%d-cache-c' % i, u, args=m(type=1, api=1)), R('t%d-pass-f' % i, u, args=m(type=2, api=2)), R('t%d-full-c' % i, u, args=m(type=0, api=1)), R('t%d-full-f' % i, u, args=m(type=0, api=2)), R('t%d-pass' % i, u, args=m(type=2)), R('t%d-misfit' % i, u, args=m(misfit=1)),
      R('t%d-full-w' % i, u, 2, args=m(mpi=1)), R('t%d-cache-w' % i, u, 2, args=m(mpi=1, type=1, rounds=2, cs=3)), R('t%d-full-t' % i, u, 2, args=m(mpi=2, api=1)), R('t%d-cache-t' % i, u, 2, args=m(mpi=2, type=1, api=2, rounds=2, cs=3)), R('t%d-numa-w' % i, u, 2, args=m(mpi=1, nt=2, nd=2, type=1, rounds=2))]
P('C14', quick=sum([_ty(i) for i in range(5)], []), thorough=[])
P('C16', quick=[R(n, 'params', args=dict(test=t)) for n, t in (('blocks', 1), ('levels', 2), ('type', 3), ('cachesize', 4), ('variable', 6), ('position', 7), ('override', 10))]
   + [R('spread', 'params', args=dict(test=5, spell=0, depth=6), timeout=300), R('spread-spelling', 'params', args=dict(test=5, depth=2), timeout=300), R('numa', 'params', args=dict(test=9, nd=2)), R('numa-1', 'params', args=dict(test=9, nd=1)), R('numa-r2', 'params', 2, args=dict(test=9, nd=2)), R('mpi', 'params', 2, args=dict(test=8)), R('mpi-ts', 'paramsts', 2, args=dict(test=8, serial_mpi=1))],
  thorough=[R('spread-deep', 'params', args=dict(test=5, spell=0, depth=8), timeout=1800, vbits=25)])
P('C18', quick=[R('4d', 'reader', args=dict(dims=4, upto=1, smax=2, bmax=3), timeout=300), R('3d', 'reader', args=dict(dims=3, upto=1, smin=1, smax=3, bmax=4, split=1), timeout=300), R('2d', 'reader', args=dict(dims=2, upto=1, smax=4, bmax=5), timeout=300), R('coords', 'reader', args=dict(dims=2, upto=1, smax=3, bmax=1, coords=1, ftype=0)), R('coords-3d', 'reader', args=dict(dims=3, smax=2, bmax=1, coords=1, ftype=0), timeout=300), R('5d', 'reader', args=dict(dims=5, smax=1))],
  thorough=[R('4d-3', 'reader', args=dict(dims=4, smin=1, smax=3, bmax=3, split=1), timeout=1800, vbits=24), R('3d-4', 'reader', args=dict(dims=3, smin=0, smax=4, bmax=5, split=1), timeout=1800, vbits=24)])
# C15: levels
_v = dict(n0=3, b0=2, vary=1)
P('C15',
  quick=[G('cache', type=1, levels=2, cs=1, lk=3, between=1, **_v), G('cache-rev3', type=1, levels=3, cs=1, lk=3, reverse=1, between=1, dims=2, n1=2, b1=1, **_v), G('full-rev3', type=0, levels=3, lk=2, reverse=1, dims=2, n1=2, b1=1, reads=1, **_v), G('pass-rev3', type=2, levels=3, lk=2, reverse=1, between=1, **_v), G('onefile', type=1, levels=2, onefile=1, cs=1, lk=3, n0=3), G('onevar', type=1, levels=2, onefile=2, cs=1, lk=3, n0=3), G('onefile-full', type=0, levels=2, onefile=1, lk=2, n0=3, reverse=1),
    G('cache-numa', type=1, levels=2, nt=2, nd=2, cs=1, lk=1, det=1, **_v), G('full-numa', type=0, levels=2, nt=2, nd=2, lk=2, det=1, reverse=1, **_v), G('cache-threads', type=1, levels=2, nt=2, n0=3, cs=1, lk=1, between=1), G('full-w', ranks=2, type=0, levels=2, mpi=1, lk=2, reverse=1, **_v), G('cache-w', ranks=2, type=1, levels=2, mpi=1, cs=1, lk=2, det=1, **_v), G('full-t', ranks=2, type=0, levels=2, mpi=2, lk=2, reverse=1, det=1, **_v), G('cache-t', ranks=2, type=1, levels=2, mpi=2, cs=1, lk=1, det=1, v=23, **_v),
    G('full-t-t2', ranks=2, type=0, levels=2, mpi=2, nt=2, oneLevel=1, np=2, det=1, **_v), G('cache-t-t2', ranks=2, type=1, levels=2, mpi=2, nt=2, ntr=1, oneLevel=1, np=2, cs=1, det=1, n0=3), G('cache-w-t2', ranks=2, type=1, levels=2, mpi=1, nt=2, oneLevel=1, np=2, cs=1, det=1, n0=3), G('counters', 'gridtc', type=1, levels=2, nt=2, n0=3, cs=3, lk=1, det=1, counters=1, reads=1, hide_counters=0),
    R('coords', 'coord', args=dict(dims=1, levels=2, shapes=3, axes=5)), R('params', 'params', args=dict(test=2))],
  thorough=[G('cache-t-lk2', ranks=2, type=1, levels=2, mpi=2, cs=1, lk=2, det=1, n0=3, v=25, t=900), G('cache-w-3', ranks=2, type=1, levels=3, mpi=1, cs=1, lk=2, det=1, v=25, t=900, **_v)])
# C17: counters
_c17 = dict(reads=1, counters=1, hide_counters=0)
P('C17',
  quick=[G('full-1d', type=0, dims=1, shapes=5, bmax=3, lk=2, **_c17), G('cache-1d', type=1, dims=1, shapes=5, bmax=3, csmax=4, lk=3, **_c17), G('cache-2d', type=1, dims=2, shapes=3, bmax=3, csmax=3, lk=2, **_c17), G('pass-2d', type=2, dims=2, shapes=2, bmax=2, lk=2, **_c17), G('levels', type=1, levels=2, n0=3, cs=1, lk=3, **_c17), G('levels-full', type=0, levels=3, n0=3, lk=2, **_c17), G('levels-pass', type=2, levels=3, n0=3, lk=2, **_c17),
    G('full-threads', 'gridtc', type=0, nt=2, lk=2, det=1, **_c17), G('full-numa', 'gridtc', type=0, nt=2, nd=2, cs=3, lk=2, det=1, **_c17), G('cache-threads', 'gridtc', type=1, nt=2, cs=2, lk=2, det=1, v=23, **_c17), G('cache-numa', 'gridtc', type=1, nt=2, nd=2, cs=3, lk=1, det=1, v=23, **_c17), G('cache-numa-cs1', 'gridtc', type=1, n0=3, nt=2, nd=2, cs=1, lk=2, det=1, v=23, **_c17), G('pass-threads', 'gridtc', type=2, nt=2, lk=2, det=1, **_c17), G('numacache', 'gridtc', type=0, nt=2, nd=2, numa=2, cs=3, lk=2, det=1, **_c17),
    G('full-w', ranks=2, type=0, mpi=1, n0=10, b0=5, np=2, lk=2, det=1, **_c17), G('full-t', ranks=2, type=0, mpi=2, n0=10, b0=5, np=2, lk=2, det=1, **_c17), G('full-o', ranks=2, type=0, mpi=0, n0=10, b0=5, np=2, lk=2, det=1, **_c17), G('cache-w', ranks=2, type=1, mpi=1, n0=40, b0=20, np=2, cs=2, lk=2, det=1, **_c17), G('cache-w-cs1', ranks=2, type=1, mpi=1, n0=40, b0=20, np=2, cs=1, lk=2, det=1, **_c17), G('cache-t', ranks=2, type=1, mpi=2, n0=10, b0=5, np=2, cs=2, lk=2, det=1, v=23, **_c17), G('cache-t-cs1', ranks=2, type=1, mpi=2, n0=10, b0=5, np=2, cs=1, lk=2, det=1, v=23, **_c17)],
  thorough=[G('cache-numa-lk2', 'gridtc', type=1, nt=2, nd=2, cs=3, lk=2, det=1, v=25, t=900, **_c17), G('cache-t3', 'gridtc', type=1, nt=3, cs=1, n0=3, lk=2, det=1, v=25, t=900, **_c17)])
# C24: everything is released
_k = dict(leak=1, n0=3)
P('C24',
  quick=[G('%s' % _T[t], type=t, levels=2, cycles=2, lk=1, **_k) for t in (0, 1, 2)] + [G('%s-numa' % _T[t], type=t, nt=2, nd=2, lk=1, det=0 if t != 1 else 1, **_k) for t in (0, 1, 2)] + [G('numacache', type=0, nt=2, nd=2, numa=2, **_k), G('threads', type=1, nt=2, **_k), G('grids', 'multi', type=1, leak=1, cycles=2), G('grids-missing', 'multi', type=0, leak=1, missing=1)]
   + [G('%s-%s' % (_T[t], 'owt'[m]), ranks=2, type=t, mpi=m, det=1 if t else 0, **_k) for t in (0, 1) for m in (0, 1, 2)] + [G('%s-%s-levels' % (_T[t], 'owt'[m]), ranks=2, type=t, mpi=m, levels=2, np=1, det=1, cycles=2, **_k) for t in (0, 1) for m in (1, 2)] + [G('full-%s-numa' % 'owt'[m], ranks=2, type=0, mpi=m, nt=2, nd=2, np=1, det=1, **_k) for m in (1, 2)] + [G('full-w-ts', 'gridts', 2, type=0, mpi=1, serial_mpi=1, **_k)]
   + [G('f%d-%s' % (f, n), fault=f, lk=0, expect=['success', 'failure'], **dict(a, **_k)) for f in (1, 2, 7) for n, a in (('full', dict(type=0)), ('numa', dict(type=0, nt=2, nd=2)), ('w', dict(type=0, ranks=2, mpi=1)), ('t', dict(type=0, ranks=2, mpi=2)))]
   + [G('f4-%s-%s' % ('fc'[t], 'owt'[m]), ranks=2, fault=4, type=t, mpi=m, lk=0, expect=['success', 'failure'], **_k) for t in (0, 1) for m in (1, 2)]
   + [G('retry%d-%s' % (f, n), fault=f, retry=1, lk=0, expect=['success', 'retried'], **dict(a, **_k)) for f in (1, 2, 7) for n, a in (('full', dict(type=0)), ('numa', dict(type=0, nt=2, nd=2)), ('w', dict(type=0, ranks=2, mpi=1)), ('t', dict(type=0, ranks=2, mpi=2)))],
  thorough=[])
for _x in PROPS['C24']['quick']:
    if _x['unit'] == 'multi':
        for _y in ('n0', 'b0', 'hide_counters'): _x['args'].pop(_y, None)
# C25: no overlapping calls
P('C25',
  quick=[G('%s-threads' % _T[t], type=t, nt=2, lk=2) for t in (0, 1, 2)] + [G('%s-numa' % _T[t], type=t, nt=2, nd=2, lk=1) for t in (0, 1, 2)] + [R('grids-%d%d' % (a, b), 'multi', args=dict(type=a, type2=b, lk=2), timeout=300) for a, b in ((0, 0), (1, 1), (2, 2), (1, 2), (0, 2))] + [R('grids-missing', 'multi', args=dict(type=1, missing=1)), R('grids-ts', 'multits', args=dict(type=1, serial_mpi=1, cycles=2)), R('levels', 'grid', args=dict(n0=3, b0=2, type=1, levels=2, nt=2, cs=1, lk=1, between=1, hide_counters=1), timeout=300)]
   + [G('f%d-numa' % f, type=1, nt=2, nd=2, fault=f, lk=0) for f in (1, 2)]
   + [G('w-%s' % n, 'gridts', 2, mpi=1, serial_mpi=1, n0=3, **a) for n, a in (('full', dict(type=0, lk=1)), ('cache', dict(type=1, cs=1, lk=1)), ('full-t2', dict(type=0, nt=2, det=1)), ('full-numa', dict(type=0, nt=2, nd=2, det=1)), ('cache-t2', dict(type=1, nt=2, cs=1, np=2, det=1, v=24)), ('levels', dict(type=0, nt=2, levels=2, oneLevel=1, np=2, det=1)), ('fault', dict(type=0, fault=1, fault_rank=1, lk=0)), ('retry', dict(type=0, fault=1, fault_rank=1, retry=1, lk=0)), ('open-t2', dict(type=0, nt=2, nd=1, lk=0)))]
   + [R('types-ts-%s' % n, 'typests', r, args=dict(elem=3, serial_mpi=1, **a), timeout=300) for n, r, a in (('numa', 1, dict(nt=2, nd=2)), ('w', 2, dict(mpi=1, type=1)), ('w-numa', 2, dict(mpi=1, nt=2, nd=2)))]
   + [G('thread-full', ranks=2, type=0, mpi=2, n0=3), G('thread-cache', ranks=2, type=1, mpi=2, n0=3, cs=1, det=1)],
  thorough=[G('w-cache-t2-3', 'gridts', 2, mpi=1, serial_mpi=1, n0=3, type=1, nt=2, cs=1, det=1, v=26, t=1800), G('w-cache-numa', 'gridts', 2, mpi=1, serial_mpi=1, n0=3, type=1, nt=2, nd=2, np=2, cs=1, det=1, v=26, t=1800)])
PROPS['C10']['quick'] += [R('fail2', 'numa', args=dict(threads=2, regs=2, fail=1, instances=2), timeout=300), R('fail3', 'numa', args=dict(threads=3, regs=1, fail=1, nodes=2), timeout=300, vbits=22)]
# Other build configurations: without MPI, without NUMA, without both, without MPI-3, without threads, and DEBUG_NUMA
def more(pid, l, tier='quick'): PROPS[pid][tier] = PROPS[pid][tier] + l
more('C01', [G('%s-nompi' % _T[t], 'gridnompi', type=t, dims=2, shapes=3, bmax=3, bneg=1, lk=1, **(dict(csmax=2) if t == 1 else {})) for t in (0, 1, 2)] + [G('%s-threadless' % _T[t], 'gridnt', type=t, dims=2, shapes=3, bmax=3, lk=1, **(dict(csmax=2) if t == 1 else {})) for t in (0, 1, 2)])
more('C02', [G('%s-nonuma' % _T[t], 'gridnonuma', type=t, nt=2, nd=2, cs=1, lk=1) for t in (0, 1, 2)] + [G('%s-bare' % _T[t], 'gridbare', type=t, nt=2, nd=2, cs=1, lk=1) for t in (0, 1, 2)] + [G('%s-nompi' % _T[t], 'gridnompi', type=t, nt=2, nd=2, cs=1, lk=1) for t in (0, 1, 2)] + [G('%s-debug-numa' % _T[t], 'griddn', type=t, nt=2, cs=1, lk=1) for t in (0, 1, 2)] + [G('numacache-nompi', 'gridnompi', type=0, nt=2, nd=2, numa=2, lk=2), G('numacache-debug-numa', 'griddn', type=0, nt=2, numa=2, lk=2)])
more('C03', [G('full-mpi2', 'gridm2', 2, type=0, mpi=1, lk=1), G('full-nonuma', 'gridnonuma', 2, type=0, mpi=1, nt=2, nd=2, n0=3, det=1), G('cache-nonuma', 'gridnonuma', 2, type=1, mpi=1, nt=1, n0=3, cs=1, lk=2, det=1), G('full-debug-numa', 'griddn', 2, type=0, mpi=1, nt=2, n0=3, np=2, det=1)])
more('C04', [G('full-mpi2', 'gridm2', 2, type=0, mpi=2, lk=1), G('cache-mpi2', 'gridm2', 2, type=1, mpi=2, n0=3, cs=1, lk=1, det=1), G('full-nonuma', 'gridnonuma', 2, type=0, mpi=2, nt=2, nd=2, n0=3, det=1, v=23), G('full-debug-numa', 'griddn', 2, type=0, mpi=2, nt=2, n0=3, np=2, det=1, v=23)])
more('C10', [R('nonuma', 'numanon', args=dict(threads=2, regs=2, instances=2)), R('debug-numa2', 'numadbg', args=dict(threads=2, regs=2, instances=2)), R('debug-numa3', 'numadbg', args=dict(threads=3, regs=2)), R('debug-numa3-off', 'numadbg', args=dict(threads=3, regs=2, detect=0))])
more('C11', [G('f%d-%s-%s' % (f, _T[t], u[4:]), u, type=t, fault=f, n0=3, nt=2, nd=2, lk=0, expect=['success', 'failure']) for f in (1, 2) for t in (0, 1) for u in ('gridnompi', 'gridnonuma', 'gridbare', 'griddn')])
more('C12', [G('full-%s' % u[4:], u, type=0, dims=2, shapes=3, bmax=3, reads=1, nt=2, nd=2, det=1, v=23) for u in ('gridnompi', 'gridnonuma', 'griddn')] + [G('cache-%s' % u[4:], u, type=1, nt=2, nd=2, cs=3, lk=2, reads=1, once=2, det=1) for u in ('gridnompi', 'gridnonuma', 'griddn')])
more('C17', [G('%s-%s' % (_T[t], u[4:]), u, type=t, nt=2, nd=2, cs=3, lk=1, det=1, seq=1, **_c17) for t in (0, 1, 2) for u in ('gridnompi', 'gridnonuma', 'gridbare', 'griddn')])
more('C17', [G('full-numa-cs1', 'gridtc', type=0, n0=7, np=4, nt=2, nd=2, cs=1, lk=3, det=1, seq=1, **_c17), G('full-numa-cs1-lk2', 'gridtc', type=0, n0=9, nt=2, nd=2, cs=1, lk=2, det=1, **_c17), G('full-numa-t3-cs1', 'gridtc', type=0, n0=7, nt=3, nd=3, cs=1, lk=2, det=1, seq=1, np=4, **_c17),
  G('full-w-cs1', 'gridtc', 2, type=0, mpi=1, n0=20, b0=5, np=4, cs=1, lk=3, det=1, **_c17), G('full-t-cs1', 'gridtc', 2, type=0, mpi=2, n0=20, b0=5, np=4, cs=1, lk=2, det=1, **_c17), G('full-w-numa-cs1', 'gridtc', 2, type=0, mpi=1, n0=20, b0=5, np=4, nt=2, nd=2, cs=1, lk=1, det=1, **_c17),
  G('full-w-numa-seq', 'gridtc', 2, type=0, mpi=1, n0=20, b0=5, np=3, nt=2, nd=2, cs=1, lk=2, det=1, seq=1, **_c17), G('full-w-numacache-seq', 'gridtc', 2, type=0, mpi=1, numa=2, n0=20, b0=5, np=3, nt=2, nd=2, cs=1, lk=2, det=1, seq=1, **_c17), G('full-w-numacache-seq-cs9', 'gridtc', 2, type=0, mpi=1, numa=2, n0=20, b0=5, np=3, nt=2, nd=2, cs=9, lk=2, det=1, seq=1, **_c17),
  G('cache-cs1', 'gridtc', type=1, n0=7, cs=1, lk=4, **_c17), G('cache-numa-cs1-seq', 'gridtc', type=1, n0=5, nt=2, nd=2, cs=1, lk=3, det=1, seq=1, **_c17), G('cache-w-cs1-seq', 'gridtc', 2, type=1, mpi=1, n0=60, b0=20, np=3, cs=1, lk=3, det=1, seq=1, **_c17)])
more('C22', [_q('r2-groups2', receivers=2, groups=1), _q('r2-groups3', receivers=3, groups=1), _q('r2-groups3-again', receivers=3, groups=1, again=1), _q('r2-groups4', 2, 120, 23, receivers=4, groups=1)])
more('C22', [_q('r3-groups2', 3, 900, 25, receivers=2, groups=1), _q('r3-groups3', 3, 1800, 27, receivers=3, groups=1)], 'thorough')
_m = lambda n, r=2, t=120, v=22, **a: R(n, 'mpimutex', r, args=a, timeout=t, vbits=v)
more('C21', [_m('r2-nt2-objects', nt=2, locks=2, mutexes=1, pattern=1), _m('r2-objects', locks=2, mutexes=1, rounds=2), _m('r3-objects', 3, locks=2, mutexes=1, rounds=2), _m('r2-nt2-objects-any', 2, 300, 24, nt=2, locks=2, mutexes=1)])
more('C21', [_m('r2-nt2-locks2', 2, 300, 25, nt=2, locks=2), _m('r3-objects-r3', 3, 900, 26, locks=2, mutexes=1, rounds=3), _m('r3-nt2', 3, 1800, 27, nt=2)], 'thorough')
more('C24', [G('%s-%s' % (_T[t], u[4:]), u, type=t, nt=2, nd=2, lk=1, det=1, **_k) for t in (0, 1, 2) for u in ('gridnompi', 'gridnonuma', 'gridbare', 'griddn')])
more('C25', [G('%s-%s' % (_T[t], u[4:]), u, type=t, nt=2, nd=2, lk=1) for t in (0, 1, 2) for u in ('gridnompi', 'gridbare')])
more('C15', [R('coords-order%s' % n, 'coord', args=dict(dims=1, levels=2, shapes=2, axes=4, orders=1, api=a, type=t)) for n, a, t in (('', 0, 0), ('-c', 1, 1), ('-f', 2, 2))] + [R('coords-order3', 'coord', args=dict(dims=1, levels=3, shapes=2, axes=3, orders=1))])

# the other processes hold everything before the exploration starts
_w = lambda n, r=2, t=300, v=24, **a: G('warm-' + n, 'grid', r, t, v, **dict(dict(type=1, n0=4, np=2, cs=2, warmup=1, only=1, det=1), **a))
more('C04', [_w('t2', mpi=2, nt=2, ntr=1), _w('t2-np3', mpi=2, nt=2, ntr=1, n0=6, np=3, cs=3), _w('t2-lk2', mpi=2, nt=2, ntr=1, n0=8, np=4, cs=4, lk=2, fixed=1), _w('t2-cs1', mpi=2, nt=2, ntr=1, cs=1, lk=2), _w('t3', mpi=2, nt=3, ntr=1, n0=8, np=4, cs=3, fixed=1),
  _w('r3', 3, mpi=2, n0=6, np=3, cs=4, lk=2), _w('numa', mpi=2, nt=2, nd=2, n0=6, np=3, cs=1, fixed=1), _w('full-numacache', mpi=2, type=0, numa=2, nt=2, nd=2)])
more('C04', [_w('numa-any', mpi=2, nt=2, nd=2), _w('t2-lk2-any', mpi=2, nt=2, ntr=1, n0=6, np=3, lk=2, t=600, v=25), _w('t2-evict', mpi=2, nt=2, ntr=1, cs=1, only=0), _w('t2-np4', mpi=2, nt=2, ntr=1, n0=8, np=4, cs=4), _w('r3-all', 3, mpi=2, n0=4, cs=1, only=0, t=900, v=26)], 'thorough')
more('C03', [_w('t2', mpi=1, nt=2), _w('t2-np3', mpi=1, nt=2, n0=6, np=3, cs=3), _w('t2-lk2', mpi=1, nt=2, n0=8, np=4, cs=4, lk=2, fixed=1), _w('r3', 3, mpi=1, n0=6, np=3, cs=4, lk=2, only=0), _w('r4', 4, mpi=1, only=0), _w('numa', mpi=1, nt=2, nd=2, n0=6, np=3), _w('full-numacache', mpi=1, type=0, numa=2, nt=2, nd=2)])
more('C03', [_w('t2-all', mpi=1, nt=2, n0=6, np=3, only=0, t=900, v=26), _w('r4-cs1', 4, mpi=1, n0=8, np=4, cs=1, only=0, t=900, v=26)], 'thorough')

for _p in PROPS.values():
    _n = [r['name'] for r in _p['quick'] + _p['thorough']]
    assert len(_n) == len(set(_n)), 'names of runs are not unique: %s' % [x for x in _n if _n.count(x) > 1]
# Wide and long: many threads, domains and ranks with more threads than domains, and long histories. The
# threads take turns (seq), so all histories of positions are explored, but only one order of the threads.
def S(name, unit='grid', ranks=1, **kw): return G(name, unit, ranks, **dict(dict(det=1, seq=1), **kw))
more('C02', [S('cache-wide-t8', type=1, nt=8, nd=4, np=2, cs=1, lk=1), S('full-wide-t8', type=0, nt=8, nd=3, np=3, n0=13, lk=1), S('full-nr-wide-t5', 'gridnr', type=0, nt=5, nd=2, np=3, n0=13, lk=1), S('numacache-wide-t7', type=0, nt=7, nd=3, numa=2, cs=1, np=3, n0=9, lk=1), S('pass-wide-t8', type=2, nt=8, nd=3, np=2, lk=1),
  S('cache-long', type=1, nt=2, nd=2, np=4, cs=2, n0=7, lk=3), S('cache-long-t3', type=1, nt=3, nd=2, np=3, cs=1, lk=3), S('cache-long-t3-off', type=1, nt=3, nd=2, numa=0, np=3, cs=1, lk=2)])
for _p, _m in (('C03', 1), ('C04', 2)):
    more(_p, [S('full-wide-t3', ranks=2, type=0, mpi=_m, nt=3, nd=2, np=4, n0=7, lk=1), S('full-nr-wide-t3', 'gridnr', 2, type=0, mpi=_m, nt=3, nd=2, np=3, n0=13, lk=1), S('numacache-wide-t3', ranks=2, type=0, mpi=_m, nt=3, nd=2, numa=2, np=2, n0=7, lk=1), S('full-wide-r3', ranks=3, type=0, mpi=_m, nt=3, nd=2, np=2, n0=23, lk=1), S('numacache-wide-r3', ranks=3, type=0, mpi=_m, nt=2, nd=2, numa=2, np=2, n0=9, lk=1),
      S('cache-wide-t3', ranks=2, type=1, mpi=_m, nt=3, nd=2, np=2, cs=1, lk=1), S('cache-nr-wide-t3', 'gridnr', 2, type=1, mpi=_m, nt=3, nd=2, np=2, n0=9, cs=1, lk=1), S('cache-wide-r3', ranks=3, type=1, mpi=_m, nt=3, nd=2, np=2, cs=2, lk=1), S('cache-wide-r4', ranks=4, type=1, mpi=_m, nt=2, nd=2, np=2, cs=1, lk=1),
      S('cache-long', ranks=2, type=1, mpi=_m, np=3, cs=1, lk=4), S('cache-long-cs2', ranks=2, type=1, mpi=_m, np=4, cs=2, n0=7, lk=3), S('cache-long-r3', ranks=3, type=1, mpi=_m, np=3, cs=2, n0=7, lk=2)])
    more(_p, [S('cache-long-5', ranks=2, type=1, mpi=_m, np=3, cs=1, lk=5), S('cache-long-r3-3', ranks=3, type=1, mpi=_m, np=3, cs=2, n0=7, lk=3), S('cache-wide-t3-lk2', ranks=2, type=1, mpi=_m, nt=3, nd=2, np=2, cs=1, lk=2), S('full-wide-r3-t4', ranks=3, type=0, mpi=_m, nt=4, nd=2, np=2, n0=23, lk=1)], 'thorough')
more('C17', [S('%s-wide-%s' % (_T[t], 'owt'[m]), 'gridtc', 2 if m else 1, type=t, mpi=m, nt=3 if m else 5, nd=2, np=2 + (t == 0), n0=15 if t == 0 else 7, cs=3, lk=1, **_c17) for m in (0, 1, 2) for t in (0, 1)])
more('C12', [S('%s-wide-%s' % (_T[t], 'owt'[m]), ranks=2 if m else 1, type=t, mpi=m, nt=3, nd=2, np=2, n0=15 if t == 0 else 5, cs=3, lk=1, reads=1, once=t) for m in (0, 1, 2) for t in (0, 1)])
more('C15', [S('%s-wide-%s' % (_T[t], 'owt'[m]), ranks=2 if m else 1, type=t, mpi=m, nt=2, nd=2, levels=3, np=2, cs=1, lk=1, vary=1) for m in (0, 1, 2) for t in (0, 1)])
# Sweeps: all grid and block sizes up to a bound; every thread of every rank looks up every element
_s1, _s2, _c1, _c2 = dict(dims=1, shapes=16, bmax=5, lk=16), dict(dims=2, shapes=5, bmax=3, lk=25), dict(dims=1, shapes=9, bmax=4, csmax=3, lk=9), dict(dims=2, shapes=4, bmax=3, csmax=2, lk=16)
def SW(name, unit='grid', ranks=1, **kw): return S('sweep-' + name, unit, ranks, **dict(dict(b0=0, fixed=1), **kw))
more('C02', [SW('%s-%s-%d-%d%s' % (_T[t], d, nt, nd, '' if u == 'grid' else '-nr'), u, type=t, nt=nt, nd=nd, **c) for t, l in ((0, (('1d', _s1), ('2d', _s2))), (1, (('1d', _c1), ('2d', _c2)))) for d, c in l for nt, nd in ((2, 2), (3, 2)) for u in (('grid', 'gridnr') if t == 0 else ('grid',))]
  + [SW('numacache-1d', type=0, numa=2, nt=3, nd=2, **_c1)])
for _p, _m in (('C03', 1), ('C04', 2)):
    more(_p, [SW('full-1d-r3', ranks=3, type=0, mpi=_m, nt=3, nd=2, **_s1), SW('full-1d-r2-nr', 'gridnr', 2, type=0, mpi=_m, nt=3, nd=2, **_s1), SW('full-2d-r2', ranks=2, type=0, mpi=_m, nt=2, nd=2, **_s2), SW('full-2d-r2-nr', 'gridnr', 2, type=0, mpi=_m, nt=2, nd=1, **_s2), SW('numacache-1d-r2', ranks=2, type=0, numa=2, mpi=_m, nt=3, nd=2, **_c1),
      SW('cache-1d-r3', ranks=3, type=1, mpi=_m, nt=3, nd=2, **_c1), SW('cache-2d-r2', ranks=2, type=1, mpi=_m, nt=2, nd=2, **_c2), SW('cache-1d-r2-nr', 'gridnr', 2, type=1, mpi=_m, nt=2, nd=1, **_c1)])
more('C12', [SW('%s-%s' % (_T[t], 'owt'[m]), ranks=2 if m else 1, type=t, mpi=m, nt=3, nd=2, reads=1, **(dict(_s1, lk=3) if t == 0 else _c1)) for m in (0, 1, 2) for t in (0, 1)])
# Grids of more than 2^32 elements, blocks or both
def H(name, **kw): return R('huge-' + name, 'huge', args=kw)
more('C01', [H('%s-%dd' % (_T[t], n), type=t, dims=n, lk=2) for t in (1, 2) for n in (1, 2, 3, 4)]
   + [H('%s-%dd-spots-b%d' % (_T[t], n, b), type=t, dims=n, lk=3, same=1, b=b, cs=2) for t in (1, 2) for n in (1, 2, 3, 4) for b in (1, 4)]
   + [H('cache-%dd-thin%d' % (n, k), type=1, dims=n, thin=k, lk=2) for n in (2, 3) for k in range(1, n + 1)]
   + [H('cache-1d-2e40', type=1, dims=1, bits=40, b=65537, cs=2, lk=3), H('cache-2d-numa', type=1, dims=2, nt=2, nd=2, lk=1)])
def runs(pid, tier):
    p = PROPS[pid]
    return p['quick'] + (p['thorough'] if tier == 'thorough' else [])
ASSUME = [
 'Exploration is exhaustive over all schedules and choices of each listed scenario (up to state-hash collisions of 64 bits) and says nothing beyond the scenario bounds.',
 'pthreads, MPI, NetCDF and libnuma are replaced by simulations of their documented behaviour (mc/rt); sequentially consistent memory, data races are reported instead of weak-memory outcomes.',
 'Scheduling points are the synchronisation and library calls; the plain accesses in between are checked for races with vector clocks on the executions explored.',
]
# The harnesses that are written for an interface inside of the library. If such an interface has
# changed so that they do not compile any more, the property is checked through the grid instead.
for _u in ('cachemgr', 'cachelist', 'sync', 'once', 'numa', 'numanon', 'numadbg', 'dict', 'mpimutex', 'commthread', 'reader', 'fortran'): UNITS[_u]['private'] = True
FALLBACK = dict(
 C05=[G('grid-t2', type=1, nt=2, n0=5, cs=2, lk=2, det=1), G('grid-t2-cs1', type=1, nt=2, n0=5, cs=1, lk=2), G('grid-numa', type=1, nt=2, nd=2, n0=5, cs=1, lk=1)],
 C06=[G('grid-s%d' % n, type=1, n0=11, np=n + 2, cs=n, lk=5, smax=4) for n in (1, 2, 3)],
 C08=[G('grid-full', type=0, nt=2, nd=2, n0=3, lk=1), G('grid-full-t3', type=0, nt=3, nd=3, n0=3, lk=1), G('grid-cache', type=1, nt=2, nd=2, n0=3, lk=1)],
 C09=[G('grid-full', type=0, nt=2, nd=2, n0=3, lk=1), G('grid-full-t3', type=0, nt=3, nd=3, n0=3, lk=1), G('grid-cache', type=1, nt=2, nd=2, n0=3, lk=1)],
 C10=[G('%s-%s-%d' % (u, _T[t], f), u, type=t, nt=2, nd=2, n0=3, lk=1, fault=f, levels=2, oneLevel=1) for u in ('grid', 'gridnonuma', 'griddn') for t in (0, 1) for f in (0, 1)],
 C18=[G('grid-%dd' % n, type=0, dims=n, shapes=3, bmax=3, reads=1) for n in (1, 2, 3)],
 C19=[R('coord-f', 'coord', args=dict(dims=1, type=2, api=2)), R('coord-f2', 'coord', args=dict(dims=1, levels=2, shapes=2, axes=3, api=2))],
 C20=[G('grid-r3', 'grid', 3, type=1, mpi=1, n0=3, cs=1, lk=1, det=1), G('grid-t', 'grid', 2, type=1, mpi=2, n0=3, cs=1, lk=2, det=1, v=23), G('grid-t2', 'grid', 2, type=1, mpi=1, nt=2, n0=3, cs=1, lk=1, det=1)],
 C21=[G('grid-r3', 'grid', 3, type=1, mpi=1, n0=3, cs=1, lk=1, det=1), G('grid-t2', 'grid', 2, type=1, mpi=1, nt=2, n0=3, cs=1, lk=1, det=1)],
 C22=[G('grid-full', 'grid', 2, type=0, mpi=2, lk=2), G('grid-cache', 'grid', 2, type=1, mpi=2, n0=3, cs=1, v=23)])
def evidence(pid, tier, tot, ev_runs, samples, exh, prop, bad, broken, kseen, wall, tb, seed):
    cov = dict(states=tot.get('states', 0), transitions=tot.get('transitions', 0), executions=tot.get('executions', 0),
        traces_validated_against_impl=tot.get('complete', 0), exhaustive=exh, samples=samples, scenarios=ev_runs,
        truncated=tot.get('truncated', 0), discarded=tot.get('discarded', 0), pruned_at_visited_states=tot.get('pruned_visited', 0), build_seconds=round(tb, 2),
        how='stateless exploration of the real code compiled from the working tree under a controlled scheduler with a visited-state table; every complete execution is an execution of the implementation itself')
    if kseen: cov['known_findings_seen'] = kseen
    if bad: cov['violation'] = dict(run=bad[0], text=bad[1][:2000])
    if broken: cov['inconclusive'] = broken
    return dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=ASSUME + prop.get('assume', []), wall_s=round(wall, 2), violations=1 if bad else 0)
