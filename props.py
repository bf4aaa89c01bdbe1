"""Which workloads decide which property, and what is real in them."""
REAL = ['EllipticForest (all of /repo/src)', 'p4est 2.3.6', 'libsc', 'PETSc sequential vectors, matrices and factorisations', 'BLAS/LAPACK', 'zlib']
STUB = ['MPI (all ranks are fibers of one process under the seeded scheduler)', 'clock', 'thread scheduling', 'memory allocator decisions', 'stdio and file descriptors below the scratch directory', 'p4est_search_reorder (not in the installed p4est: written in /verif/ef/standins.cpp from its documented contract)', "FISHPACK's hstcrt (dense solve of the same five-point system)"]
ASSUME = ['the simulated MPI implements every ordering and buffering freedom of the MPI standard that the code can observe, and nothing the standard forbids', 'PETSc objects created by the code live on one rank unless the workload says otherwise', 'sampling: runs not made are not covered']
PROPS = {
    'C01': dict(workloads={'solve': 1}, note='Seeded sampling of problems, rank counts, partitions, schedules and message timings; oracle is an independent dense solver and exact linear solutions. Trusts the simulated MPI and the stand-ins for p4est_search_reorder and hstcrt.'),
    'C02': dict(workloads={'progress': 1}, note="Seeded sampling of whole programs (refine, build, upwards, solve, traversals, output) on up to 9 ranks with uneven leaf counts. Oracle: the simulator's own detection of deadlock (no process can run), livelock (step limit), illegal MPI use, crash, left-over messages and unmatched collectives, and the reference solution. Programs with fewer leaves than ranks are listed findings."),
    'C03': dict(workloads={'history': 1}, note='Seeded sampling of stage histories; oracle is an independent dense solver applied to the last problem only.'),
    'C04': dict(workloads={'tree': 1}, quick_runs=40000, note="Oracle is the forest itself: every rank's leaves, gathered by the harness, imply all nodes, owners and boxes."),
    'C05': dict(workloads={'traverse': 1}, quick_runs=40000, note='Oracle is the node set implied by the forest, its lexicographic orders, and one payload per node and traversal computed by hashing.'),
    'C06': dict(workloads={'refine': 1}, quick_runs=40000, note='Oracle is an independent recursive refinement plus 2:1 balancing of the unit square.'),
    'C07': dict(workloads={'transfers': 1}, quick_runs=40000, note="Oracle is the sender's object, regenerated by the receiver from the seed; receivers start from unrelated objects. Illegal uses of MPI by the harness itself are avoided."),
    'C08': dict(workloads={'vtk': 3, 'vtk_direct': 2, 'vtk_rect': 1}, quick_runs=40000, note='Oracle parses the files and compares them with the mesh; simulated disk with full, failing, short and interrupted writes; kill right after return.'),
    'C09': dict(workloads={'boundary': 1}, note='Boundary residual on every boundary point of uniform meshes, and the independent dense solver on all.'),
    'C10': dict(workloads={'timers': 2, 'stage_timers': 1}, quick_runs=40000, note='Simulated clock, so that sums are exact; stalls, wall-clock jumps.'),
    'C11': dict(workloads={'threads': 1, 'app_threads': 1}, quick_runs=40000, note="Threads are fibers preempted at instrumented memory accesses and lock operations of the code under test (clang -fsanitize=thread instrumentation with the simulator's own callbacks): sequentially consistent interleavings only."),
    'C12': dict(workloads={'retry': 3, 'retry_small': 20}, quick_runs=12000, note='One failing allocation or callback at a sampled place of a sampled stage, then the stage again; small programs are sampled densely enough to reach every allocation. With several ranks only failures that every rank meets alike.'),
    'C13': dict(workloads={'options': 1}, quick_runs=40000, note="Oracle is the generator's own key/value map; simulated disk with open failures, read errors, short and interrupted reads."),
    'C14': dict(workloads={'modes': 1}, note='Same oracle as C03, with the caching and homogeneous settings varied between stages.'),
    'C15': dict(workloads={'pvector': 1, 'pmatrix': 1}, quick_runs=40000, note='Oracle is a serial array; real parallel PETSc runs on the simulated MPI.'),
    'C16': dict(workloads={'subcomms': 1}, quick_runs=40000, note="Oracle is the requested range; traffic on parent and children carries its communicator's identity."),
    'C17': dict(workloads={'soak': 3, 'soak_long': 2}, note='Live bytes and blocks, communicators, requests, groups and datatypes per rank after equal blocks of rounds, and after 17, 34, 68, 136 and 272 rounds of small programs; strict growth over four consecutive blocks or doublings counts. Bounded by the number of rounds per run.'),
    'C18': dict(workloads={'repeat': 1}, note='Two executions of one generated program under two schedules, message timings and contents of fresh memory, compared bit for bit; nodes shared between ranks compared bit for bit within each.'),
    'C19': dict(workloads={'apart': 1}, note='Two or three generated histories on meshes of their own, interleaved in one process in an order all ranks share; oracle is the independent dense solver for each.'),
    'C25': dict(workloads={'stepping': 1}, note='Time-stepping programs; oracle is the trajectory of the independent dense solver, the balance of heat computed from the delivered values, and the parsed snapshots.'),
    'C24': dict(workloads={'lifecycle': 1}, quick_runs=40000, note="Oracle is the simulator's own count of starts and ends of MPI and PETSc per process, the generated arguments, log calls and timers. PetscInitialize and PetscFinalize are modelled (collective; they start and end MPI when nobody did)."),
}
for p in PROPS.values():
    if 'quick_runs' not in p: p['quick_runs'], p['quick_seconds'] = 8000, 50   # whole solves, a few ten per second
    p.setdefault('real', REAL); p.setdefault('stub', STUB); p.setdefault('assumptions', ASSUME)
