#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    d['anchors']['observe_at'] = observe or []
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, title
    P.append(d)

prop('C01', 'Every lookup returns the value stored in the file at that position',
 'For every grid type (FULL, CACHE, PASS_THROUGH), grid shape, block size, cache size and hand spread, a lookup at a position returns exactly the value the NetCDF variable holds at the grid point nearest to that position, whatever lookups came before it. No lookup touches memory outside what the grid allocated.',
 ['inputs', 'histories', 'configurations'],
 'all grid shapes of 1-3 dimensions with small extents, all block sizes including ones that do not divide or exceed the extent, all cache sizes, all access sequences up to a depth; grids of more than 2^32 elements and blocks (content computed) at the positions where narrower types overflow; on one process and one thread',
 'The tests sample one 2-D shape per grid type with one block and cache size and one access order; the stable tests never open a grid at all (the sources are not even compiled).',
 ['grid/level/full.h', 'grid/level/cache.h', 'grid/level/passthrough.h', 'grid/level/blocked.h', 'grid/level/level.h', 'grid/grid.cpp', 'transfer/*.h', 'cache/*.h'],
 [('position to index to block/offset mapping', 'grid/level/blocked.h, grid/level/level.h pos2index'),
  ('block loading', 'grid/level/full.h init, grid/level/cache.h loadBlock'),
  ('direct read', 'grid/level/passthrough.h getAt')],
 ['asagi::Grid::getByte/Int/Long/Float/Double/getBuf'])

prop('C02', 'Concurrent lookups in one process return the file values, without races',
 'When several threads of one process, on one or several NUMA domains, open a grid and look up values concurrently, every lookup returns the value the file holds there for every interleaving. No interleaving deadlocks, and no two threads make conflicting unsynchronised accesses to the library\'s memory (performance counters excepted unless they are built thread-safe).',
 ['schedules', 'configurations'],
 'all interleavings of 2-4 threads on 1-2 NUMA domains, for the full, cached and pass-through grids with and without NUMA communication, with every replacement choice of the cache',
 'The unit tests run one arbitrary OS schedule on whatever machine they are on, and the multi-threaded grid tests are not part of the buildable set.',
 ['grid/level/cache.h', 'grid/level/cachedist.h', 'grid/level/full.h', 'grid/level/fulldist.h', 'transfer/numacache.h', 'transfer/numafull.h', 'transfer/numafullcache.h', 'cache/cachemanager.h', 'numa/*.h', 'threads/*.h'],
 [('slot lock during fill and copy', 'cache/cachemanager.h get/unlock, grid/level/cache.h getAt'),
  ('open-time synchronisation of domains', 'numa/numacomm.h, threads/sync.h, grid/grid.cpp open')],
 ['asagi::Grid::open', 'asagi::Grid::get*'])

prop('C03', 'One-sided (MPI window) distribution returns the file values on every rank',
 'With window communication every lookup on every rank, at every position and concurrently with all other ranks and threads, returns the value the file holds there, for distributed full grids and for distributed caches while blocks are loaded, moved and evicted. The calls never deadlock and use one-sided MPI correctly: no access outside an epoch, none outside the window, no conflicting concurrent access.',
 ['schedules', 'histories', 'configurations'],
 'all interleavings of 2-3 ranks with 1-2 threads each, short access sequences, cache sizes 1-2, with and without NUMA domains, late delivery of one-sided data',
 'Needs several MPI processes and adversarial timing; the distributed tests are not in the buildable set and would sample one schedule.',
 ['transfer/mpiwinfull.h', 'transfer/mpiwincache.h', 'transfer/mpicache.h', 'grid/level/fulldist.h', 'grid/level/cachedist.h', 'mpi/mutex.h', 'allocator/mpialloc.h'],
 [('window epochs', 'transfer/mpiwinfull.h transfer, transfer/mpiwincache.h startTransfer/endTransfer'),
  ('distributed dictionary with per-block ownership', 'transfer/mpiwincache.h, transfer/mpicache.h')],
 ['asagi::Grid::get* on every rank'])

prop('C04', 'Communication-thread distribution returns the file values on every rank',
 'With communication threads every lookup on every rank, concurrently with all other ranks, threads and levels of the grid, returns the value the file holds there, for distributed full grids and distributed caches. Every request is answered exactly once, to the lookup that asked, and no interleaving or message order deadlocks.',
 ['schedules', 'histories', 'configurations'],
 'all interleavings and message arrival orders of 2-3 ranks plus their communication threads, 1-2 levels, cache sizes 1-2, eager and rendezvous sends',
 'Message orders and cross-level reply mix-ups occur only under particular timing; no stable test starts a communication thread.',
 ['mpi/commthread.h', 'mpi/commthread.cpp', 'transfer/mpithreadfull.h', 'transfer/mpithreadcache.h', 'transfer/mpicache.h', 'grid/level/fulldist.h', 'grid/level/cachedist.h'],
 [('request/reply matching by communicator and tag', 'mpi/commthread.h, transfer/mpithreadfull.h, transfer/mpithreadcache.h'),
  ('block dictionary at the owner rank', 'transfer/mpithreadcache.h')],
 ['asagi::Grid::get* on every rank'])

prop('C05', 'A cache slot is never refilled while in use, and hits see the right block',
 'Whoever obtains a cache slot for a block owns it exclusively until it is released; when the cache reports a hit, the slot still holds exactly what the previous owner stored for that same block; when it reports a miss, the block that was evicted is named correctly. This holds for every interleaving of threads and every number of slots, and nobody waits forever.',
 ['schedules', 'histories', 'configurations'],
 'all interleavings of 2-3 threads doing get/fill/release and try-get on 1-3 slots over 2-4 blocks, plus all sequential operation sequences to a depth against a reference model',
 'The cache manager unit test is single-threaded and runs one short sequence.',
 ['cache/cachemanager.h', 'cache/cachelist.h', 'cache/lru.h', 'threads/mutex.h'],
 [('re-check of the slot after locking it', 'cache/cachemanager.h get, tryGet'), ('slot lock', 'cache/cachemanager.h')],
 ['cache::CacheManager::get/tryGet/unlock'])

prop('C06', 'Cache replacement: no needless eviction, second chance, one slot per block',
 'No block is evicted while a slot is still free; at any time a block occupies at most one slot and every lookup of a block finds exactly that slot; when full, the victim follows the documented second-chance (two-handed clock) rule. Every hand-spread setting, including automatic ones and ones larger than the cache, is safe.',
 ['histories', 'configurations'],
 'all operation sequences (lookup of each of k blocks) up to a depth for every cache size 1-5 and every hand spread from -2 to beyond the size, checked against an independent reference model',
 'The unit test exercises one list of size 3 with one hand spread and a single sequence.',
 ['cache/cachelist.h', 'cache/lru.h', 'cache/cachemanager.h'],
 [('two-handed clock', 'cache/lru.h'), ('index map', 'cache/cachelist.h')],
 ['cache::CacheManager::get', 'asagi::Grid counters'])

prop('C08', 'Thread barrier and broadcast release everyone together with the right value',
 'No thread leaves a barrier before all registered threads have entered it, a broadcast delivers the master\'s value to every thread, and exactly one thread per round is elected to run the section a barrier protects, which finishes before anyone leaves. This holds for any number of consecutive rounds and mixes, any interleaving and spurious wake-ups, and no round deadlocks.',
 ['schedules', 'histories'],
 'all interleavings of 1-4 threads through 1-4 consecutive barrier/broadcast/elected-section rounds, with spurious wake-ups of condition waits',
 'The unit tests run under one OS schedule and cannot produce the reuse races or a spurious wake-up on demand.',
 ['threads/sync.h', 'numa/numacomm.h', 'numa/nonumacomm.h'],
 [('generation handshake of entering and leaving threads', 'threads/sync.h')],
 ['threads::Sync', 'numa::NumaComm'])

prop('C09', 'One-time initialisation runs exactly once and is visible to all',
 'However many threads request it concurrently, the initialisation routine is executed exactly once, and no thread continues before it has completed and its effects are visible. There is no data race in the mechanism.',
 ['schedules'],
 'all interleavings of 1-4 threads racing through the same one-time initialisation, repeatedly',
 'The unit test calls it under one schedule; the race needs a thread that looks between publication and completion.',
 ['threads/once.h', 'grid/grid.cpp'],
 [('checked and re-checked state under a lock', 'threads/once.h saveExec')],
 ['threads::Once::saveExec'])

prop('C10', 'NUMA registration gives each domain one master and a consistent identity',
 'For every assignment of threads to NUMA nodes and every arrival order, all threads of a node get the same domain id, ids are 0..n-1, exactly one thread per domain is its master, exactly n masters exist, and all threads agree on the number of domains and threads. With NUMA detection disabled all threads form a single domain.',
 ['schedules', 'configurations'],
 'all assignments of 1-4 threads to 1-3 NUMA nodes, all interleavings of their registration, NUMA on/off',
 'The unit tests see only the machine they run on (usually one node) and one arrival order; they are even excluded as unstable.',
 ['numa/numa.h', 'numa/numa.cpp', 'numa/nonuma.h', 'numa/numacomm.h', 'threads/pthreadmutex.h'],
 [('collective registration', 'numa/numa.cpp registerThread'), ('thread-local domain id', 'numa/numa.h domainId')],
 ['numa::Numa::registerThread', 'numa::Numa::domainId/totalDomains/totalThreads'])

prop('C11', 'A failing open is reported to every thread and never hangs',
 'When the file or variable is missing or unreadable for any subset of the participants, or any single step of an open fails, the open returns on every thread and rank, every thread of that process gets an error rather than success, and an open that failed nowhere reports success everywhere. The grid can be closed afterwards.',
 ['fault_sequences', 'schedules', 'configurations'],
 'all single and double faults of file open, variable lookup and allocation, on every participant, for all grid types, 1-2 threads/domains and 1-2 ranks, all interleavings',
 'No test injects a fault into one domain or one rank while others succeed.',
 ['grid/grid.cpp', 'grid/level/*.h', 'io/netcdfreader.cpp', 'numa/numacomm.h', 'transfer/*.h'],
 [('error broadcast', 'grid/grid.cpp open')],
 ['asagi::Grid::open'])

prop('C12', 'Full grids read each block exactly once, by its one owner',
 'While opening a full grid, the participating ranks and domains together read each block of the variable from the file exactly once when the storage is distributed, and once per process or rank that keeps its own copy otherwise; afterwards lookups read nothing from the file. A cached grid reads a block only when it is not in the cache.',
 ['configurations', 'inputs'],
 'all small shapes x block sizes x 1-3 ranks x 1-3 domains x communication modes, counting every element read from the file',
 'Redundant or misdistributed reads do not change results, so value tests cannot see them.',
 ['grid/level/full.h', 'grid/level/fulldist.h', 'grid/level/cache.h', 'grid/level/blocked.h', 'transfer/numafull.h'],
 [('block-to-owner arithmetic', 'grid/level/full.h, grid/level/blocked.h')],
 ['NetCDF read calls'])

prop('C13', 'Positions map to the nearest grid point; outside positions are clamped',
 'A position is mapped to the nearest grid point of the (ascending or descending) coordinate axis; positions outside are clamped to the first or last point and non-finite positions never cause an invalid access. Minimum, maximum and spacing reported per dimension describe the file\'s axes, half a cell wider for cell-centered grids and exact for vertex-centered ones, in the order of the position vector.',
 ['inputs', 'configurations'],
 'all axis lengths 0-4, offsets, positive and negative spacings, cell/vertex centering and positions on, between, at ties, beyond, infinite and NaN, in 1-3 dimensions, with missing coordinate variables and variables of that name that hold no coordinates (text, several dimensions)',
 'Tests use one positive-spacing axis and interior points.',
 ['grid/level/level.h', 'io/netcdfreader.h', 'io/netcdfreader.cpp', 'grid/simplecontainer.h'],
 [('rounding and clamping', 'grid/level/level.h pos2index'), ('axis detection', 'io/netcdfreader.h getOffset/getScaling')],
 ['asagi::Grid::getMin/getMax/getDelta/get*'])

prop('C14', 'Typed accessors convert exactly; arrays and structs are returned whole',
 'For every element type of the grid (byte, int, long, float, double), every accessor returns the stored value converted as a C conversion would; raw access copies exactly the declared size of one value and not a byte more, and the reported size matches. Array and struct grids return all their elements or members, at the declared displacements, and their first element through the typed accessors.',
 ['inputs', 'configurations'],
 'all 5 element types x all 6 accessors x {basic, array, struct} x boundary values, on files of every NetCDF element type, through the public C and C++ interface',
 'Tests check float grids read as float/buf only; other accessors on arrays and structs are never called.',
 ['types/basictype.h', 'types/arraytype.h', 'types/structtype.h', 'types/type.h', 'io/netcdfreader.h', 'grid/grid.cpp', 'asagi.cpp', 'magic/typelist.h'],
 [('per-type conversion', 'types/*.h convert'), ('type dispatch', 'magic/typelist.h, grid/grid.cpp TypeSelector')],
 ['asagi::Grid::get*', 'asagi::Grid::getVarSize', 'grid_get_*'])

prop('C15', 'Levels of a grid are independent and can be opened in any order',
 'Each level of a multi-level grid returns the values of its own file with its own parameters, whatever the order in which the levels are opened, looked up or counted, and opening one level does not disturb another. Levels may be opened out of order.',
 ['histories', 'configurations'],
 'all opening orders of up to 3 levels with all interleaved lookup sequences, for every grid type and communication mode, with different shapes and parameters per level',
 'Existing multi-level tests open level 0 then 1 of identical type once, if at all.',
 ['grid/simplecontainer.h', 'grid/grid.cpp', 'grid/level/level.h', 'transfer/mpithread*.h', 'mpi/commthread.h'],
 [('per-level containers', 'grid/simplecontainer.h init'), ('per-level parameters', 'grid/grid.cpp param')],
 ['asagi::Grid::open/get*/getDelta/getCounter with level'])

prop('C16', 'Parameters take effect as documented, with documented defaults',
 'Parameter names are case-insensitive and treat dash and underscore alike, values keep their meaning (numbers including negative ones, case-sensitive variable names), per-level settings apply to that level only, and unset parameters take the documented defaults (block size, cache size, hand spread, grid type, variable name). The requested grid type and communication are what the grid then uses.',
 ['inputs', 'configurations'],
 'all spellings and values of every documented parameter on levels 0-1, all grid-type x MPI x NUMA selections on 1-2 ranks and 1-2 domains, observed through file reads, counters and messages',
 'A wrong default or an ignored parameter changes performance only, which value tests cannot see.',
 ['grid/grid.cpp', 'grid/level/blocked.h', 'asagi.cpp', 'include/asagi.h'],
 [('normalisation', 'grid/grid.cpp setParam'), ('selection', 'grid/grid.cpp initContainers')],
 ['asagi::Grid::setParam + observable reads/counters'])

prop('C17', 'Access counters account for every lookup exactly',
 'For each level, the counters report exactly what happened: every lookup counts as one access, each access is one hit or one miss of the cache, and local, NUMA, MPI and file transfers count the blocks or values actually moved; counters of different levels do not mix. When built with thread-safe counters this is exact under any interleaving.',
 ['schedules', 'histories', 'configurations'],
 'all lookup sequences to a depth on all grid types, with 1-2 levels, and all interleavings of 2 threads with thread-safe counters, checked against an independent model and against the observed file reads',
 'No stable test reads a counter.',
 ['perf/counter.h', 'perf/counter.cpp', 'grid/grid.cpp', 'grid/level/*.h'],
 [('counter increments at each transfer', 'grid/level/*.h'), ('aggregation', 'grid/grid.cpp getCounter')],
 ['asagi::Grid::getCounter'])

prop('C18', 'Blocks at the edge of the grid are read correctly and in bounds',
 'Reading any block, including ones that overlap the end of the grid in any dimension, places each in-range element at its row-major position in the block buffer, never writes outside the buffer, and never asks the file for out-of-range elements. The variable\'s shape, coordinate offset and spacing are reported as the file defines them, for variables of any number of dimensions including none.',
 ['inputs'],
 'all shapes of 0-4 dimensions with extents 0-3, all block sizes 1-4, all block positions, all element types and array/struct types, on a virtual file whose model is compared with the real NetCDF library',
 'One 3-D test file with two read requests in the unit tests, which are not in the buildable set.',
 ['io/netcdfreader.h', 'io/netcdfreader.cpp', 'types/*.h'],
 [('clipping of the requested block', 'io/netcdfreader.h getBlock')],
 ['io::NetCdfReader'])

prop('C19', 'Fortran handles always denote the grid they were created for',
 'Every live grid has a unique non-negative Fortran handle that maps back to that grid until it is closed, even while other grids are created, looked up and closed concurrently. A handle never denotes another live grid and closing one grid leaves all other handles intact.',
 ['schedules', 'histories'],
 'all create/close/lookup sequences to a depth over 3-4 grids and all interleavings of 2-3 threads doing so',
 'No stable test covers the Fortran translation table, and concurrent use needs a particular schedule.',
 ['fortran/pointerarray.h', 'grid/grid.h', 'grid/grid.cpp', 'asagi_f90.cpp'],
 [('handle table', 'fortran/pointerarray.h')],
 ['grid_c2f/grid_f2c', 'fortran::PointerArray'])

prop('C20', 'The distributed cache directory names only ranks that hold the block',
 'The directory of cached blocks lists for every block exactly those holders that were announced and not withdrawn, up to its capacity; adding, withdrawing and replacing entries never loses another holder, and reports "not cached" only if no holder is listed.',
 ['histories', 'inputs'],
 'all sequences of announce/withdraw/query operations over 1-2 blocks, 2-3 ranks and 2-3 entries to a depth, against a multiset reference model',
 'No stable test touches the directory; a lost or stale entry only costs performance or shows up as a wrong value in rare histories.',
 ['transfer/mpicache.h', 'transfer/mpiwincache.h', 'transfer/mpithreadcache.h'],
 [('entry list per block', 'transfer/mpicache.h addBlockInfo/deleteBlockInfo')],
 ['asagi::Grid counters (mpi/file transfers)', 'transfer::MPICache'])

prop('C21', 'The distributed lock gives mutual exclusion and every waiter gets its turn',
 'At most one rank or thread holds a distributed lock at a time, what the holder wrote is seen by the next holder, an unlock always hands the lock to a waiting rank if there is one, and no interleaving loses a wake-up or deadlocks. Distinct locks are independent.',
 ['schedules', 'histories'],
 'all interleavings of 2-3 ranks acquiring and releasing 1-2 locks 1-2 times with all message delays',
 'Mutual exclusion and lost wake-ups need several processes and specific timing; the test needs MPI-3 and is not in the stable set.',
 ['mpi/mutex.h', 'transfer/mpiwincache.h'],
 [('one-sided MCS-like waiting array', 'mpi/mutex.h acquire/release')],
 ['mpi::Mutex'])

prop('C22', 'The communication thread dispatches every message and stops cleanly',
 'Between starting and stopping the communication thread, every message sent to a registered receiver is handled exactly once by that receiver with the right sender, none is delivered to a receiver after it was unregistered, and receivers may be registered and unregistered at any time while it runs. Stopping terminates the thread on every rank without hanging and start/stop can be repeated.',
 ['schedules', 'histories'],
 'all interleavings of 1-3 ranks with 1-2 receivers registered and unregistered while messages travel, 1-2 start/stop rounds',
 'Needs adversarial timing between registration, traffic and shutdown; the unit test is not in the stable set.',
 ['mpi/commthread.h', 'mpi/commthread.cpp', 'asagi.cpp'],
 [('receiver table and polling loop', 'mpi/commthread.h')],
 ['mpi::CommThread', 'asagi::Grid::startCommThread/stopCommThread'])

prop('C23', 'Node-local rank numbers are consistent on each node',
 'The node-local rank is a number 0..k-1 unique among the k ranks running on the same node and ordered like the global ranks, for every assignment of ranks to nodes and every set of node names. Ranks on different nodes never share a numbering.',
 ['configurations', 'inputs'],
 'all assignments of 1-4 ranks to 1-3 nodes with differing node names, including names whose hash is large or collides',
 'Needs several nodes.',
 ['asagi.cpp', 'mpi/mpicomm.h'],
 [('split of the communicator by node name', 'asagi.cpp node local rank')],
 ['asagi::Grid::nodeLocalRank'])

prop('C24', 'Closing a grid releases everything it acquired',
 'After all grids are closed, on every path including failed opens, failed opens that are repeated and grids of several levels, no memory, file, communicator, window, datatype or request that the library acquired remains, nothing is released twice or used after release, and the library can be used again.',
 ['histories', 'configurations', 'fault_sequences'],
 'all grid types, communication modes, 1-2 levels, 1-2 domains and 1-2 ranks, with and without open failures and repeated use',
 'No stable test checks for leaks, and MPI objects are invisible to leak checkers.',
 ['asagi.cpp', 'grid/grid.cpp', 'grid/simplecontainer.h', 'grid/level/*.h', 'transfer/*.h', 'allocator/*.h', 'mpi/*.h', 'numa/*.h', 'types/*.h'],
 [('destructors', 'all layers')],
 ['asagi::Grid::close'])

prop('C25', 'Calls into non-thread-safe libraries never overlap',
 'Calls to the NetCDF library never overlap within a process, and calls to MPI never overlap unless MPI was declared thread-safe, whatever threads, grids and levels are in use. This holds on every path including open, close and failed opens.',
 ['schedules', 'configurations'],
 'all interleavings of 2 threads using one or two grids (open, look up, close) in all grid types, with one and two ranks, and with the communication thread',
 'Overlapping calls are a timing accident that mostly goes unnoticed.',
 ['threads/pthreadmutex.h', 'threads/noopmutex.h', 'io/netcdfreader.h', 'io/netcdfreader.cpp', 'mpi/*.h', 'transfer/*.h', 'allocator/*.h', 'types/*.h', 'grid/grid.cpp'],
 [('global locks', 'ncLock / mpiLock')],
 ['NetCDF and MPI library calls'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P))
