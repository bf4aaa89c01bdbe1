#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that long texts stay editable)."""
import json, os
S="schedules";CP="crash_points";I="inputs";P="programs";H="histories";C="configurations";F="fault_sequences"
HPS="src/HPSAlgorithm.hpp";QT="src/Quadtree.hpp";QN="src/QuadNode.hpp";MESH="src/Mesh.hpp";MPIH="src/MPI.hpp";MPIC="src/MPI.cpp"
FVS="src/Patches/FiniteVolume/FiniteVolumeSolver.cpp";FVP="src/Patches/FiniteVolume/FiniteVolumePatch.cpp";FVF="src/Patches/FiniteVolume/FiniteVolumeNodeFactory.cpp";FVG="src/Patches/FiniteVolume/FiniteVolumeGrid.cpp"
props=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    props.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Distributed solve delivers the discrete solution on every rank layout",
  "After refine, build, upwards and solve, the cell values held by the leaves of all ranks together are the solution of the discretised elliptic problem (five-point finite volumes on the leaves, hierarchical Poincare-Steklov coupling between them): a solution linear in x and y is reproduced to rounding, and any other data gives what an independent serial computation of the same discretisation gives. This holds for every number of ranks that leaves each rank with work, every legal order and timing of message delivery and rank progress, uniform and adaptive meshes, variable coefficients and both patch solvers.",
  [S,I,C],"all interleavings of the ranks, message timings and send modes MPI allows; all refinements, rank counts, coefficients, right-hand sides and boundary data",
  "No existing test runs the mesh, the tree traversals or the three stages at all (they do not even link against the installed p4est), and none runs with more than one rank.",
  [HPS,QT,FVS,FVP,MESH],[("merge4to1 / upwards4to1 / split1to4",HPS),("family traversal with broadcast of remote children",QT),("five-point patch solve and Dirichlet-to-Neumann map",FVS)],
  [("vectorU","cell solution on a leaf","Patch.hpp"),("matrixT, matrixS, vectorW, vectorH","per-node operators","Patch.hpp")],["values of vectorU on every leaf of every rank"])
p("C02","Every stage terminates on every rank under any legal MPI behaviour",
  "Mesh refinement, tree construction, traversals and the build, upwards, solve and output stages return on every rank, using MPI only in legal ways (matching collectives in matching order, live communicators, no truncated or left-over messages), no matter how sends are buffered, how long messages take, which rank is stalled for how long, or how unevenly leaves are spread over ranks. No combination may deadlock, livelock or abort.",
  [S,C,F],"all schedules, eager or rendezvous sends, early or late exit from collectives, stalled ranks, uneven leaf counts including ranks with a single leaf",
  "Tests are single-rank: a collective called a different number of times on two ranks, or a send that only works because it was buffered, cannot show.",
  [HPS,QT,MPIC,FVS,MESH],[("barriers and node-communicator collectives",HPS),("per-family Allreduce + broadcast",QT),("patch solves confined to their own rank",FVS)],
  [],["return of each stage on each rank; messages and collectives outstanding at the end"])
p("C03","Results depend on the current problem only, not on what was solved before",
  "On one built mesh, any sequence of upwards and solve stages with changing right-hand sides and boundary conditions, rebuilding the operators, repeating a solve, or building a second solver on the same mesh gives, for the last problem posed, the same answer as a fresh process solving only that problem. A repeated stage with unchanged inputs leaves the answer unchanged.",
  [H,S,C],"all sequences of stage calls (build+, upwards, solve in any repetition that respects build < upwards < solve), changing data and coefficients, on any mesh and rank count",
  "Tests never call a stage, let alone twice; stale coarsening counters, caches and vectors need a particular multi-step history on an adaptive mesh.",
  [HPS,"src/DataCache.hpp",QT],[("stage state kept on nodes and caches",HPS)],[("n_coarsens","how often a node's data was coarsened for its parent","src/Patch.hpp"),("matrixCache","operators shared between leaves",HPS)],["vectorU on leaves after the last solve"])
p("C04","All ranks hold one consistent distributed quadtree",
  "After construction the ranks hold one quadtree between them: each node has the path, level and geometry implied by its position in the domain; every leaf lives on exactly one rank, the leaves tile the domain, and a node is present on exactly the ranks that own some of its leaves' range, all of which agree on its owner range, leaf flag and metadata. Each node's communicator contains exactly those owner ranks, in rank order.",
  [S,C,I],"all refinements, rank counts, domains, construction orders and schedules; repeated construction",
  "Tests never build a quadtree; agreement between ranks is a statement about several processes at once.",
  [QT,QN,"src/P4est.cpp",FVF,MPIC],[("p4est_search_all construction",QT),("node factory geometry",FVF)],[("map","path to node, nullptr when not owned",QT)],["quadtree.map and node fields on each rank"])
p("C05","Tree traversals visit each owned node once, in order, with the right data",
  "A pre-order (post-order) traversal calls the callback on each rank exactly once for every node that rank owns, parents before (after) their descendants and siblings in order; a traversal limited to data visits the same nodes. A merge visits every family after all its children have been processed and a split before them, handing the callback the parent and its four children in order, each child carrying the data its owner gave it, on every rank that owns the parent. A pre-order callback that returns zero keeps the traversal (or split) out of that node's descendants, and only those. Any traversal may be the first one used.",
  [S,C,H],"all trees, rank counts, schedules, node payloads and sequences of traversals",
  "No test instantiates a traversal; the remote-children path only exists with several ranks.",
  [QT,QN],[("p4est_search_visit / p4est_search_merge_split callbacks",QT),("MPI broadcast of Node",QN)],[],["sequence of callback invocations and their arguments on each rank"])
p("C06","Mesh refinement is rank-independent, honours its criterion, and is balanced",
  "The refined mesh is the same on any number of ranks and under any schedule: every leaf level lies between the requested minimum and maximum, no leaf below the maximum contains a cell centre satisfying the criterion, touching leaves (corners included) differ by at most one level, and nothing is refined further than the criterion, the minimum level and balance demand. Cell and point arrays, iteration callbacks and cell functions of the mesh enumerate exactly the cells of the local leaves, in one common order.",
  [I,S,C],"all refinement predicates, level bounds, domains, patch sizes, rank counts and schedules",
  "No test refines a mesh; independence of the partition and minimality quantify over all predicates and rank counts.",
  [MESH,QT,"src/P4est.cpp"],[("refineByFunction",MESH),("setMeshFromQuadtree, iterateCells, addMeshFunction",MESH)],[],["leaf paths over all ranks; points, connectivity, offsets, types, ncells, npoints"])
p("C07","Objects sent through the MPI layer arrive intact",
  "Any scalar, string, standard vector, vector, matrix, grid, patch or tree node passed to the send/receive, broadcast, all-reduce or gather wrappers arrives on every receiver equal to what the sender had, including empty and large objects, whatever the receiver's variable held before, however sends are buffered or messages delayed and interleaved with other traffic. The sender's object is unchanged.",
  [I,S,C],"all values, shapes and sizes of the supported types, all roots and rank counts, receiver pre-states, send modes, delays and message orders",
  "Unit tests do no communication at all.",
  [MPIH,MPIC,"src/Vector.hpp","src/Matrix.hpp",QN,FVG,FVP],[("TypeTraits and wrapper overloads",MPIH),("std::string specialisations",MPIC),("broadcast of grid and patch",FVP)],[],["receiver object compared with the sender's, field by field"])
p("C08","Output files are faithful, complete and durable, or the failure is reported",
  "When writing a mesh to VTK returns normally on all ranks, the files describe exactly the mesh and every attached cell function: the header file names every rank's piece and every array once, each piece holds its rank's points, cells and values (to the six decimals written) in matching order, the quadtree files written beside it show each leaf where it lies, and the files survive the process being killed right afterwards. If a file cannot be opened or written completely (disk full, I/O error), the call does not return as if it had succeeded; short and interrupted writes are not failures.",
  [F,CP,S,I],"all meshes, functions and rank counts; disk full, open errors, write errors, short and interrupted writes at any byte; killing the job at any instant after a successful return",
  "The existing test writes one small tree to a healthy disk and checks nothing about ranks, failure or completeness.",
  [MESH,"src/VTK.cpp","src/VTK.hpp","src/XMLTree.cpp"],[("toVTK",MESH),("PUnstructuredGridVTK::toVTK","src/VTK.cpp"),("XMLTree::write","src/XMLTree.cpp")],[],["bytes of the files on the (simulated) disk; whether the call threw"])
p("C09","Dirichlet, Neumann and Robin boundary conditions are met by the solution",
  "For boundary data given as a, b and r at each boundary point, the delivered solution satisfies a*u + b*du/dx (west and east sides) or a*u + b*du/dy (south and north) = r there to rounding, with u the boundary value and the derivative the one-sided half-cell difference, for every mix of kinds over sides and points that makes the problem well posed. Giving the same Dirichlet data directly on the root patch gives the same solution.",
  [I,S,C,H],"all boundary kinds per side and per point, data, meshes, rank counts and schedules; switching kinds between solves on one built mesh",
  "No test calls the solve stage; kinds mixed per side on merged, reordered root operators only show on multi-level trees.",
  [HPS],[("solveStage with a, b, r callback",HPS)],[("vectorG of the root","Dirichlet data on the domain boundary",HPS)],["boundary residual from leaf values next to the boundary and root boundary data"])
p("C10","Timers measure elapsed monotonic time and accumulate per stage",
  "A timer's total is the sum over its start/stop pairs of the monotonic time that passed between them, unaffected by steps of the wall clock, time outside the pairs, other timers or other ranks; stop returns the last interval and restart zeroes the total. Each stage's named timer holds the time that stage took on that rank in its latest call.",
  [H,S,F],"all sequences of timer operations and stage calls, clock advances, stalls and wall-clock jumps",
  "No test touches timers, and with a real clock nothing exact could be asserted.",
  ["src/Timer.cpp","src/Timer.hpp","src/EllipticForestApp.cpp",HPS],[("steady clock differences","src/Timer.cpp")],[],["time() and stop() against the simulated clock"])
p("C11","All threads of a process share one application instance",
  "However many threads ask for the application instance at once, and whenever they are preempted, exactly one instance is created and all of them get it; an application object constructed by the program is the instance everyone gets from then on, and a creation that fails half-way leaves later callers able to create it.",
  [S,F],"all interleavings of threads at allocation, construction and locking points; allocation failure inside the first creation",
  "Tests are single-threaded.",
  ["src/GenericSingleton.hpp","src/EllipticForestApp.cpp"],[("mutex around the lazy creation","src/GenericSingleton.hpp")],[("actualClassPointer_","the instance","src/GenericSingleton.hpp")],["addresses returned and constructions counted"])
p("C12","A stage that failed with an exception can simply be run again",
  "If a stage ends in an exception, because memory ran out at any allocation or a user callback threw on any leaf, the exception reaches the caller, and calling the stages again afterwards on the same objects gives the answer an undisturbed run gives.",
  [F,H],"failure at any allocation or any callback invocation of any stage, repeated failures, single-rank jobs and, for callbacks evaluated alike everywhere, all ranks",
  "Tests inject no failures and never run a stage.",
  [HPS,QT,MESH],[("state updates on nodes during merge and split",HPS)],[("n_coarsens","how often a node's data was coarsened","src/Patch.hpp")],["vectorU after recovery against an undisturbed run"])
p("C13","Options read from a file are what the file says, or the failure is reported",
  "Reading an options file sets exactly the keys of the program's own section to the values written there with the type they denote (booleans, integers, floating-point numbers, text), later lines overriding earlier ones and everything else left alone, however the reads are split up or interrupted. A file that cannot be opened or read to its end is reported to the caller rather than taken for a shorter file.",
  [F,I],"all well-formed option files, short and interrupted reads, open failure and read error at any byte",
  "No test reads an options file.",
  ["src/Options.cpp","src/Options.hpp"],[("readINIFile","src/Options.cpp"),("checkValue","src/Options.cpp")],[("optionsMap","option values","src/Options.hpp")],["options after setFromFile; exceptions"])
p("C14","Operator caching and the homogeneous shortcut change cost, never the answer",
  "On a mesh whose leaves share one operator (uniform refinement, constant coefficients), switching operator caching on gives the same solution as switching it off, across rebuilds and on every rank; with a zero right-hand side, the homogeneous setting gives the same solution as the general path, for every boundary condition kind. Settings may differ between consecutive solves.",
  [C,H,S],"both settings on and off in all combinations and orders, rank counts, schedules and histories",
  "No test runs a stage with either option.",
  [HPS,"src/DataCache.hpp"],[("matrixCache",HPS),("homogeneous-rhs branches",HPS)],[],["vectorU with and without the setting"])
p("C15","Distributed vectors and matrices hold exactly the values put into them",
  "A distributed vector or matrix built with given sizes, from serial data, from given entries set on any rank, as an identity, or as a selected block of another, has after assembly the same global entries on any number of ranks and under any schedule, with local sizes summing to the global ones; moving or copying it leaves every owner with its values, and they are released once.",
  [S,C,I,H],"all sizes, entry sets and which rank sets them, insert and add modes, rank counts, schedules",
  "Tests do not touch the distributed containers with more than one rank, and off-rank entries travel through messages.",
  ["src/Matrix.hpp","src/Vector.hpp","src/SpecialMatrices.hpp"],[("ParallelMatrix, ParallelVector over PETSc","src/Matrix.hpp"),("ParallelIdentityMatrix","src/SpecialMatrices.hpp")],[],["entries read back on their owners; products"])
p("C16","Sub-communicators contain exactly the requested ranks and are isolated",
  "A communicator made for a range of ranks has exactly those ranks in order, is made without involving the others, carries its range in its name, and traffic on it never mixes with traffic on its parent or on another sub-communicator, even when many overlapping ones are created concurrently and used in different orders on different ranks. Naming and reading back names works for any communicator.",
  [S,C,I],"all ranges, nestings, creation tags, overlapping concurrent creations and schedules",
  "No test creates a communicator, and none has more than one rank.",
  [MPIC,MPIH,QT],[("communicatorSubsetRange",MPIC)],[],["rank/size/name of the communicator and messages exchanged on it and around it"])
p("C17","Long runs do not accumulate resources",
  "Once a mesh is built and solved for the first time, further upwards and solve stages, and rebuilding, on the same mesh do not increase the memory, communicators, message requests, datatypes or solver objects the process holds on any rank, however many are run.",
  [H,S,C],"any number of further stage calls of any kind on any mesh, rank count and schedule",
  "Tests run no stage; growth only shows over repetitions and, for remote children, over several ranks.",
  [QT,FVS,HPS,QN],[("temporary copies of remote children",QT),("release of solver objects after each patch solve",FVS)],[],["live bytes, live communicators and live PETSc objects per rank after each repetition"])
p("C18","The same program gives the same bits under every schedule",
  "Running the same stages on the same problem with the leaves distributed over the ranks in the same way gives, bit for bit, the same leaf values, boundary values, node operators and output files in every execution, whatever the timing of messages, how sends are buffered, which rank is stalled and what fresh memory happens to contain. Within one execution, all ranks that share a node hold bitwise the same operators and data for it.",
  [S,C,I],"all pairs of schedules, message timings and memory contents, problems, histories, rank counts and partitions",
  "A test makes one execution and cannot choose its schedule; a dependence on arrival order or on uninitialised memory shows as a last-bit difference between executions, if at all.",
  [HPS,QT,MPIH,MESH],[("redundant merges of shared nodes on every owner",HPS),("broadcast of child data",QT)],[("matrixT, matrixS, vectorG, vectorW, vectorH","what a node holds","src/Patch.hpp")],["bytes of node data and files of two executions"])
p("C19","Problems on separate meshes in one process do not disturb each other",
  "A program may hold several meshes with their own solvers at once and call their stages in any interleaved order (the same on every rank), with options set for each before its stages, and may destroy some while going on with others: each problem gets the answer it gets when it is the only one.",
  [H,S,C,I],"all interleavings of the stage histories of two or three problems, with their sizes, settings, creation and destruction times, rank counts and schedules",
  "Tests hold one object at a time and run no stage; contamination through shared state (application, caches, callbacks, communicator names) needs a second problem in between.",
  [HPS,QT,MESH,FVS,"src/EllipticForestApp.hpp"],[("matrixCache per algorithm object",HPS),("callbacks reached through the forest's user pointer",QT)],[("options","application-wide settings","src/EllipticForestApp.hpp")],["vectorU of each problem against an independent solver"])
p("C20","Dense matrix and vector algebra is correct",
  "Products, sums, block access, permutations and linear solves of serial matrices and vectors give the mathematically defined result, and reject shapes that do not fit.",[I],"all shapes and values","Tests sample a few small matrices.",["src/Matrix.hpp","src/Vector.hpp"],[("operators","src/Matrix.hpp")])
p("C21","Piecewise-linear interpolation reproduces its data and lines",
  "Interpolating at a node returns the node's value, and linear data is reproduced everywhere in range, whichever query came before.",[I,H],"all node sets and query sequences","Tests sample a few points.",["src/Interpolation.cpp"],[("LinearInterpolant","src/Interpolation.cpp")])
p("C22","Command-line options are parsed as written",
  "Each long or short option given on the command line appears with its value and type; other arguments are ignored.",[I],"all argument vectors","No test parses a command line.",["src/InputParser.cpp","src/Options.cpp"],[("InputParser::parse","src/InputParser.cpp")])
p("C23","Patch grids place cell centres and spacings exactly",
  "A grid with n cells on an interval has equally spaced cell centres half a spacing from its ends in both directions.",[I],"all sizes and intervals","Tests sample one grid.",["src/Patches/FiniteVolume/FiniteVolumeGrid.cpp"],[("FiniteVolumeGrid::point","src/Patches/FiniteVolume/FiniteVolumeGrid.cpp")])
p("C24","The application object starts and ends MPI and PETSc once; its log is right",
  "Constructing the application with the program's arguments leaves MPI and PETSc running on every rank, each started exactly once, whether or not the program had started them itself; destroying it ends both exactly once on every rank, unless the program has ended them before, even if a second application object was made in between. While it lives, its options include those given on the command line, with their values; every log message is one line with the caller's rank in front, in the order of the calls, and a head message appears on rank 0 only; a sleep lasts at least as long as asked. At the end, rank 0 alone lists every timer with its total, the application's lifetime among them. This holds in whatever order and after whatever delay the ranks arrive.",
  [S,C,H,I],"all programs (who starts and ends MPI, arguments, log calls, timers, further application objects), rank counts and schedules",
  "Tests share one environment that starts MPI once per executable, on one rank; starting, ending, logging and the summary are never looked at.",
  ["src/EllipticForestApp.cpp","src/EllipticForestApp.hpp","src/Logger.hpp","src/InputParser.cpp"],[("starting MPI and PETSc, reading the arguments","src/EllipticForestApp.cpp"),("summary, ending PETSc and MPI","src/EllipticForestApp.cpp"),("log, logHead","src/Logger.hpp")],[("options, timers","state of the application","src/EllipticForestApp.hpp")],["starts and ends of MPI and PETSc per process; standard output of each process"])
p("C25","A program that steps in time keeps to its trajectory and to the balance of heat",
  "A program that steps an implicit scheme (backward Euler for the heat equation, as in the thermal example), making every right-hand side from the values its leaves hold (in the patch callback, by traversal, or point by point) and changing the step size or refining the same mesh again between steps, follows the trajectory of the discretised equation on every rank layout for as many steps as it makes. Heat is neither created nor lost: with constant diffusivity, what enters through the boundary and what is added balances what stays, to rounding, across faces between levels too, and an insulated body keeps its heat; sums over the patches of all ranks agree with it. Every snapshot written on the way shows the solution and right-hand side of its own step and survives the program's death; a snapshot that could not be written is reported and leaves later steps and snapshots alone, as does a step that failed with an exception and was repeated.",
  [H,S,C,F,CP,I],"all stepping programs (meshes, coefficients, boundary kinds, sources, step sizes, refinements between steps, outputs), rank counts, schedules, failing or killed steps and outputs",
  "Tests make no step; errors that feed on themselves need a history in which each problem depends on the answer to the one before, on adaptive meshes and several ranks.",
  [HPS,MESH,QT,FVS,FVP,"src/VTK.hpp"],[("upwards stage with the program's own patch callback",HPS),("coarsening and refinement of boundary data between levels",FVP),("mesh functions and numbered output files",MESH)],[("vectorU, vectorF","solution and right-hand side kept on a leaf between steps","src/Patch.hpp"),("mesh_functions","arrays attached for output",MESH)],["vectorU and vectorG of every leaf after every step; files of every snapshot"])
open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w").write("".join(json.dumps(x)+"\n" for x in props))
