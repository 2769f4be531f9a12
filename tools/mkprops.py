#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
NOTEST="No existing reliable test touches this code at all: the two tests that run here evaluate one quadrature and one interpolator coefficient table in a single thread. "
POOL=["include/nuSQuIDS/ThreadPool.h","include/nuSQuIDS/nuSQuIDS.h"]

prop("P01","Every accepted pool task runs exactly once and delivers its outcome",
 "Every task the worker pool accepts is executed exactly once, with the arguments it was submitted with, and its return value or the exception it threw is delivered through the future returned for that task and no other. A task that throws affects neither the other tasks nor the worker that ran it. A submission that fails (because the pool is shutting down or memory ran out) is never executed.",
 ["schedules","histories","fault_sequences"],
 "All pool sizes, all numbers of submitting threads, tasks that submit tasks, tasks that throw, all interleavings of submitters and workers at every memory access, spurious wake-ups, allocation failures inside submission, destruction at any point.",
 NOTEST+"A test observes the few interleavings the OS happens to produce.",
 POOL,[("enqueue","ThreadPool.h: ThreadPool::enqueue"),("worker loop","ThreadPool.h: ThreadPool::ThreadPool lambda")],
 [("tasks","queue of accepted, not yet started tasks"),("stop","pool is shutting down")],"future results and the tasks' own side effects")
prop("P02","Pool destruction drains, never hangs, and leaves nothing running",
 "Destroying the worker pool always terminates, however its workers are interleaved or woken: all tasks accepted before destruction began have run, all worker threads have exited, and no task code runs after the destructor returned. While the pool lives, every accepted task is started within a bounded number of scheduling steps once a worker is free (no lost wake-up).",
 ["schedules","histories","fault_sequences"],
 "All interleavings of submitters, workers and the destroying thread at every memory access and blocking call; spurious wake-ups; workers stalled arbitrarily long.",
 NOTEST+"Lost wake-ups and shutdown races need one specific interleaving.",
 POOL,[("destructor","ThreadPool.h: ThreadPool::~ThreadPool"),("wait predicate","ThreadPool.h: worker loop condition.wait")],
 [("condition","wakes workers on new task or stop")],"thread exits, destructor return, task execution log")
prop("P03","A pool of N workers provides N-way concurrency and starts tasks in FIFO order",
 "A pool created with N workers can have N tasks in progress at the same time and never more than N, so N tasks that wait for each other all complete. Workers never hold the pool's lock while running a task, so tasks may submit further work and other threads may submit while tasks run. Tasks are started in the order in which their submissions were accepted.",
 ["schedules","histories"],
 "All interleavings of N workers and their submitters; tasks that block on each other or submit to the same pool.",
 NOTEST+"A rendezvous that can only deadlock under one schedule passes in nearly every real run.",
 POOL,[("worker loop","ThreadPool.h: worker lambda: pop under lock, run outside"),("enqueue","ThreadPool.h: enqueue notify")],
 [("tasks","FIFO queue")],"task start/finish log")
prop("P04","Pool hand-over is free of data races and publishes memory both ways",
 "Everything a thread wrote before submitting a task is visible to that task, and everything a task wrote is visible to whoever obtained its result or saw the pool destroyed, with no further synchronisation by the user. The pool's own state is never accessed by two threads without synchronisation.",
 ["schedules"],
 "All interleavings of submitters, workers and waiters, judged by happens-before rather than by the values that one run happened to read.",
 NOTEST+"A missing lock produces right values on almost every run of strongly ordered hardware.",
 POOL,[("queue_mutex","ThreadPool.h: lock around tasks and stop"),("packaged_task/future","ThreadPool.h: enqueue")],
 [("tasks","guarded by queue_mutex"),("stop","guarded by queue_mutex")],"happens-before relation over all instrumented accesses")
prop("P05","Resource exhaustion in the pool is reported cleanly",
 "If the system refuses a thread or memory while a pool is being created, creation fails with an exception, every thread already started is stopped and joined, and the process goes on. If memory runs out during a submission, the submitter gets an exception, that task never runs, and the pool keeps accepting and running other tasks.",
 ["fault_sequences","schedules"],
 "Failure of every single thread creation and every single allocation during creation and submission, combined with all interleavings of the workers already started.",
 NOTEST+"Thread and memory exhaustion never happen in a test run.",
 POOL,[("constructor","ThreadPool.h: workers.emplace_back"),("enqueue","ThreadPool.h: allocations before and inside the critical section")],
 [("workers","threads started so far")],"exception reaching the caller, threads alive, allocations outstanding")

MA=["include/nuSQuIDS/marray.h"]
prop("M01","Multidimensional array operations that fail leave the array as it was",
 "When assigning, inserting into, or growing a multidimensional array fails because memory is exhausted or an element's construction, copy or assignment throws, the exception reaches the caller and every array involved is still usable and destructible; for copy assignment to an array of another size and for insertion the target keeps its previous shape and contents, and the source is never modified. A failed construction leaves nothing behind.",
 ["fault_sequences","histories"],
 "Every single allocation, element constructor, copy, move and assignment may be the one that fails, in any history of operations, for element types with throwing and non-throwing moves, ranks 1 to 4 and stateful allocators.",
 NOTEST+"Failure of the n-th element copy is never exercised.",
 MA,[("copy_assign/move_assign","marray.h"),("insert","marray.h"),("resize","marray.h"),("constructors","marray.h: copy_init_buffer and friends")],
 [("data/sizes/total_size","element buffer and its shape")],"element contents and extents read back through the public interface")
prop("M02","Array storage is never leaked, doubly freed or mismatched",
 "Over any history of array operations, including ones that fail, every element that was constructed is destroyed exactly once, no element is used before construction or after destruction, and every block obtained from an allocator is returned exactly once to an equal allocator with the size it was allocated with. After the last array is gone nothing remains allocated.",
 ["fault_sequences","histories"],
 "All operation histories over arrays with tracked elements and stateful allocators, with a failure injected at any allocation or element operation.",
 NOTEST+"Tests use plain doubles with the default allocator, where most mismatches are invisible.",
 MA+["include/nuSQuIDS/aligned_alloc.h"],[("destroy/deallocate paths","marray.h"),("catch handlers","marray.h: constructors, copy_assign, move_assign, insert, resize")],
 [("alloc","the array's allocator")],"allocator and element life-cycle ledger")
prop("M03","Arrays behave as row-major value containers in every operation history",
 "In any history of constructing, copying, moving, swapping, assigning, indexing, inserting, erasing, resizing and element-wise arithmetic, an array's shape and contents equal those of a plain row-major reference array undergoing the same history, copies are independent of their originals, and moved-to arrays hold exactly what the source held. Operations that fail for lack of memory in between do not change this for the later ones.",
 ["histories","fault_sequences"],
 "Random operation histories over several arrays of ranks 1 to 4 and empty and non-empty extents, with injected failures between and inside the operations.",
 NOTEST+"Only default construction and element access are reached by the existing tests.",
 MA,[("insert/erase/resize","marray.h"),("subscripting","marray.h: operator[]"),("operators","marray.h: arithmetic")],
 [("extents","shape")],"contents and extents after each operation")
prop("M04","Aligned storage is aligned, disjoint, intact and safely returned",
 "Every block handed out by the aligned allocator starts at a multiple of the requested alignment, does not overlap any other live block or memory it did not obtain, and is returned to the system exactly once when released, for every power-of-two alignment it accepts. Requests too large to satisfy or refused by the system fail with an exception and change nothing.",
 ["histories","fault_sequences","inputs"],
 "All interleaved histories of allocations and releases over all accepted alignments and sizes, whatever address the underlying allocation happens to have, with refusals injected.",
 NOTEST+"The address the system returns decides which path runs, and a test cannot choose it.",
 ["include/nuSQuIDS/aligned_alloc.h"],[("allocate/deallocate","aligned_alloc.h: offset stash")],
 [("offset byte","distance back to the real block")],"addresses, guard bytes, underlying new/delete ledger")

TX=["src/tools.cpp","include/nuSQuIDS/tools.h"]
prop("T01","Writing a text table either stores all of it or reports failure",
 "When writing a table of finite numbers with at least one row and column to a text file returns normally, the file holds every row and column of it, and reading it back gives the same shape and the same values to the 15 digits written. If the file cannot be created, the disk is full, or any write fails, the caller is told; interrupted and partial writes by the system never lose or repeat data.",
 ["fault_sequences","inputs"],
 "Failure, interruption or shortening of any single write, of open and of close, at any byte position of the file, for all table shapes.",
 NOTEST+"Disk faults do not happen in tests.",
 TX,[("quickwrite","tools.cpp: quickwrite")],None,"return or exception, and the bytes on the simulated disk")
prop("T02","Reading a text table returns the whole file's table or fails",
 "Reading a table from a text file returns exactly the rows and columns the file holds, skipping blank lines, however the system splits the reads. If the file is missing, a read fails part-way, memory runs out, or the rows have unequal lengths, the caller gets an exception and never a shortened or partial table.",
 ["fault_sequences","inputs"],
 "Short, interrupted and failing reads at any byte position, and memory exhaustion while parsing, for all files of numbers, blank lines and line endings.",
 NOTEST+"Reads that stop early or fail half-way never happen in tests.",
 TX,[("quickread","tools.cpp: quickread"),("fexists","tools.cpp: fexists")],None,"returned table versus the bytes of the file")
prop("H01","Stored binary arrays read back identical, and failures are reported",
 "When storing an array in an HDF5 file returns normally and the file is closed successfully, loading it into an array of the same rank gives the same shape and values, whatever its rank, element type or compression and whatever was stored before. If any disk operation underneath fails while storing or loading, or the stored array has another rank or does not exist, the caller gets an exception and never an array of wrong values.",
 ["fault_sequences","inputs","histories"],
 "Failing, short and interrupted reads, writes, truncations and a full disk at any point of histories that store, load and overwrite several arrays.",
 NOTEST+"Nothing stores or loads an array under a failing disk.",
 TX,[("writeArrayH5/readArrayH5","tools.h")],None,"values loaded, exceptions, simulated disk contents")
prop("H02","Stored attributes read back identical, and failures are reported",
 "When attaching a numeric or text attribute to an HDF5 object returns normally, reading that attribute gives the same value, for all strings and numbers and after the file was closed and reopened. If the attribute cannot be stored (for example because the name is taken or the object is not writable), does not exist, or has another type, the caller gets an exception and the destination never receives a wrong value.",
 ["fault_sequences","inputs","histories"],
 "Histories of attribute writes and reads including name clashes, read-only files, missing names, type mismatches, empty and long strings, and disk faults.",
 NOTEST+"Attributes are never exercised by the existing tests.",
 TX,[("addH5Attribute/readH5Attribute","tools.h, tools.cpp")],None,"attribute values and exceptions")
prop("H03","Binary file helpers leave no file object open, whatever happens",
 "After storing or loading arrays and attributes, whether it succeeded or failed, no dataset, attribute, type, dataspace or property list is left open, so that closing the file really closes it and it can be reopened, replaced or deleted. Owning handles close what they own exactly once and never anything else, also when moved from, assigned or created from a failed open.",
 ["fault_sequences","histories"],
 "All outcomes of the storage helpers, including failures injected into any disk operation and any allocation, and random histories of moves and assignments of owning handles.",
 NOTEST+"A leaked identifier has no effect on a passing test.",
 TX,[("writeArrayH5/readArrayH5/addH5Attribute/readH5Attribute","tools.h, tools.cpp"),("H5File/H5Handle","tools.h")],
 [("open identifier counts","objects HDF5 still considers open")],"HDF5's own open-object counts before and after")

CO=["src/tools.cpp","include/nuSQuIDS/tools.h","src/taudecay.cpp","include/nuSQuIDS/taudecay.h","include/nuSQuIDS/AdaptiveQuad.h"]
prop("C01","Shared interpolators and decay tables give the same answers to all threads",
 "Splines, two- and three-dimensional interpolators and tau-decay spectra that are no longer being modified may be evaluated and copied by any number of threads at once: there is no data race, and each evaluation returns bit for bit what a single thread gets. Building them from the same data gives the same results each time, independent of what memory held before and of what other threads build at the same time.",
 ["schedules","inputs"],
 "All interleavings of concurrent evaluations, copies and independent constructions at every memory access; arbitrary previous contents of memory.",
 NOTEST+"Both run in one thread and on fresh memory.",
 CO,[("AkimaSpline::operator()","tools.h"),("BiCubicInterpolator, TriCubicInterpolator","tools.cpp"),("TauDecaySpectra","taudecay.cpp")],None,"values returned to each thread; happens-before relation")
prop("C02","Numerical integration is reentrant",
 "Integrations running at the same time in different threads, each with its own workspace or none, and integrations started from inside another integrand, do not influence each other: there is no data race and each returns bit for bit what it returns alone.",
 ["schedules","inputs"],
 "All interleavings of concurrent and nested integrations at every memory access, including the first ever use of the integrator.",
 NOTEST+"The integrator test runs one integration after another in one thread.",
 ["include/nuSQuIDS/AdaptiveQuad.h","include/nuSQuIDS/tools.h"],[("AdaptiveQuad::integrate","AdaptiveQuad.h: static abscissa table"),("integrate","tools.h")],None,"integrals returned to each thread; happens-before relation")
prop("I01","Failure inside an integration is contained",
 "If the integrand throws at any of its evaluations, or memory runs out during an integration, the exception reaches the caller unchanged, nothing is leaked, and repeating the integration, or another one with the workspaces and integrators used in it, gives exactly what fresh ones give. A workspace that could not be allocated is reported to the caller before it is used.",
 ["fault_sequences"],
 "The integrand's failure at any evaluation and the failure of any allocation, for both integrators, nested and repeated.",
 NOTEST+"The integrands in the test never throw.",
 ["include/nuSQuIDS/AdaptiveQuad.h","include/nuSQuIDS/tools.h"],[("AdaptiveQuad::integrate","AdaptiveQuad.h"),("integrate, IntegrateWorkspace","tools.h")],None,"exceptions, leaks, later results")
prop("I02","A failed build of a spline or table is reported and recoverable",
 "If building or rebuilding a spline, interpolator or tau-decay table fails (bad input or memory exhausted at any point), the caller gets an exception and nothing is leaked. Building it again with valid data afterwards gives exactly the results of a fresh object, with no trace of the failed attempt or of previous data.",
 ["fault_sequences","histories"],
 "Histories of builds with valid data, with unordered, duplicate or mismatched data, and with the failure of any single allocation.",
 NOTEST+"Only successful first builds occur in the tests.",
 CO,[("AkimaSpline::initialize","tools.cpp"),("BiCubicInterpolator/TriCubicInterpolator constructors","tools.cpp"),("TauDecaySpectra::Init","taudecay.cpp")],None,"results after recovery versus a fresh object; allocation ledger")

prop("B01","Bodies and trajectories survive saving and loading",
 "Saving a body or a trajectory to an HDF5 group and loading it again gives one with the same parameters, the same density and electron fraction everywhere, and the same start, end and current position and remaining trajectory parameters, also for trajectories that were reversed or only partly traversed and for non-default shapes. This also holds when a file holds several of them and after the file was closed and reopened.",
 ["histories","inputs"],
 "All body and trajectory types, parameters, positions, reversals and sequences of saving, closing, reopening and loading.",
 "The serialisation test cannot be built here; it checks printed output of a few default objects with no reversed or partly traversed trajectory.",
 ["src/body.cpp","include/nuSQuIDS/body.h"],[("Serialize/Deserialize","body.cpp"),("registry","body.cpp: GetBodyDeserializer/GetTrackDeserializer")],None,"densities, electron fractions, positions and parameters before and after")
prop("B02","Body and trajectory storage reports disk failure",
 "If the disk fails while a body or trajectory is being saved or loaded, or the stored data is missing, the caller gets an exception; a load that returns normally has returned exactly what was saved, never defaults, zeros or uninitialised values. Nothing is left open afterwards.",
 ["fault_sequences"],
 "Failure, shortening or interruption of any single disk operation while saving or loading each type of body and trajectory.",
 "The existing tests never meet a failing disk.",
 ["src/body.cpp","include/nuSQuIDS/body.h"],[("Serialize/Deserialize","body.cpp"),("attribute helpers","body.cpp: addStringAttribute and friends")],None,"loaded objects, exceptions, open-object counts")
prop("B03","Bodies can be shared between threads",
 "Any number of threads may query density and electron fraction of the same body at once, each with its own trajectory, and look up registered body types by name: there is no data race and each gets exactly what a single thread gets.",
 ["schedules"],
 "All interleavings of concurrent queries and lookups at every memory access.",
 "Concurrent use of a body happens only inside the multi-threaded atmospheric evolution, which no test drives under controlled schedules.",
 ["src/body.cpp","include/nuSQuIDS/body.h"],[("density/ye","body.cpp"),("registry","body.cpp: nusquids_body_registry")],None,"values returned to each thread; happens-before relation")
prop("X01","Cross-section tables survive writing and reading, and failures are reported",
 "Tables of neutrino cross sections written to HDF5 or text files and read back give the same total and differential cross sections (up to the single precision in which HDF5 tables are stored) for every flavour, type and interaction, whatever the grid sizes. If a disk operation fails while writing or reading them the caller gets an exception, and a table that loads without exception is complete.",
 ["fault_sequences","inputs","histories"],
 "All grid shapes and flavour contents, with failing, short and interrupted disk operations at any point.",
 "The cross-section code is not built here and no test writes tables.",
 ["src/xsections.cpp","include/nuSQuIDS/xsections.h"],[("WriteHDF/ReadHDF, WriteText/ReadText","xsections.cpp")],None,"cross sections before and after, exceptions")
prop("X02","Cross sections and libraries of them can be shared between threads",
 "Any number of threads may query a loaded cross-section object and a library of them at once: there is no data race and each gets exactly what a single thread gets.",
 ["schedules"],
 "All interleavings of concurrent queries at every memory access.",
 "Concurrent use happens only in the multi-threaded atmospheric evolution.",
 ["src/xsections.cpp","include/nuSQuIDS/xsections.h"],[("TotalCrossSection/SingleDifferentialCrossSection","xsections.cpp"),("CrossSectionLibrary","xsections.h")],None,"values returned to each thread; happens-before relation")
prop("A01","Parallel atmospheric evolution equals sequential evolution",
 "Evolving an atmospheric ensemble gives bit for bit the same flavour content for every zenith angle and energy whatever the number of worker threads and however they are interleaved, and there is no data race between the trajectories evolved at the same time. All trajectories have been evolved when the call returns, and evaluation and further evolution can follow.",
 ["schedules","configurations"],
 "All numbers of threads, zenith angles and energies, all interleavings of the workers at every memory access.",
 "The atmospheric tests evolve with one thread, cannot be built here, and could not choose interleavings.",
 ["include/nuSQuIDS/nuSQuIDS.h","src/nuSQuIDS.cpp","include/nuSQuIDS/ThreadPool.h"],[("nuSQUIDSAtm::EvolveState","nuSQuIDS.h")],[("int_struct","interaction tables shared by all trajectories")],"evaluated flavour content; happens-before relation")
prop("A02","Failure of one trajectory in parallel evolution reaches the caller",
 "If evolving any trajectory of an atmospheric ensemble fails, or worker threads cannot be created, the caller of the evolution gets an exception whatever the number of worker threads, exactly as with one thread; the call never returns normally with some trajectories not evolved, and the process is never terminated.",
 ["fault_sequences","schedules"],
 "Failure of any one or several trajectories, of any thread creation or allocation, at any number of threads, in all interleavings.",
 "No test makes an evolution fail.",
 ["include/nuSQuIDS/nuSQuIDS.h","include/nuSQuIDS/ThreadPool.h"],[("nuSQUIDSAtm::EvolveState","nuSQuIDS.h: collecting the tasks")],None,"exception reaching the caller; threads alive")
prop("A03","Results do not depend on what an object was used for before",
 "A propagation object that was used before, with any settings, bodies, interactions and initial states, gives after being given its new settings and initial state bit for bit what a freshly made object gives. This also holds if any of the earlier evolutions or attempts failed at any point, and repeating a failed evolution with the same settings succeeds.",
 ["histories","fault_sequences"],
 "Histories of up to four evolutions with different options, bodies, cross sections, sources and bases, some of which fail in user code or for lack of memory at any allocation, followed by one or two evolutions compared with a fresh object.",
 "Each test makes one object and evolves it once; whatever an evolution leaves behind is never met.",
 ["src/nuSQuIDS.cpp","include/nuSQuIDS/nuSQuIDS.h"],[("EvolveState, InitializeInteractions, Set_*","nuSQuIDS.cpp")],[("int_struct, interaction_cache, flags","what evolutions leave behind")],"flavour and mass content after each evolution")
prop("A04","Moved propagation objects behave like the originals",
 "Moving a single-trajectory or atmospheric object, by construction, assignment over a fresh or used object, or by a growing container, at any point between two operations leaves one that reports the same settings and gives bit for bit the same results from then on, including random production heights. After moved, assigned and moved-from objects are gone everything they held has been released exactly once.",
 ["histories","schedules"],
 "Moves at any points of histories of one to three evolutions, in all configurations, with one or two threads.",
 "One test moves one object in one state and cannot be built here.",
 ["src/nuSQuIDS.cpp","include/nuSQuIDS/nuSQuIDS.h"],[("move constructors and assignments","nuSQuIDS.cpp, nuSQuIDS.h")],None,"evaluated content and settings of moved and unmoved objects; allocation ledger")
prop("A05","Evolved objects can be evaluated by several threads at once",
 "Any number of threads may evaluate flavour and mass content, at nodes, between them, averaged or not, and query settings of the same evolved single-trajectory and atmospheric objects at once: there is no data race and each evaluation gives bit for bit what it gives alone.",
 ["schedules"],
 "All interleavings of two to four threads' evaluations of up to four objects at every memory access.",
 "No test evaluates from more than one thread.",
 ["src/nuSQuIDS.cpp","include/nuSQuIDS/nuSQuIDS.h"],[("EvalFlavor, EvalMass, EvalFlavorAtNode, GetERange","nuSQuIDS.cpp, nuSQuIDS.h")],None,"values returned to each thread; happens-before relation")
prop("A06","Every promise of alignment made to the compiler is kept",
 "Wherever the library tells the compiler that an array is aligned to a certain boundary, the array is aligned so, whatever the address memory was obtained at, and for all numbers of flavours and energies, also after objects were moved or restored from a file.",
 ["histories","inputs","configurations"],
 "Evolutions with interactions for all sizes, with memory placed at any address the system allocator could have returned, and moves and restores in between.",
 "Whether a wrong promise matters depends on addresses and on the instructions the compiler chose.",
 ["src/nuSQuIDS.cpp","include/nuSQuIDS/nuSQuIDS.h","include/nuSQuIDS/aligned_alloc.h","include/nuSQuIDS/marray.h"],[("SQUIDS_POINTER_IS_ALIGNED","nuSQuIDS.cpp, nuSQuIDS.h"),("aligned_allocator","aligned_alloc.h")],None,"addresses at each promise")
prop("A07","Equivalent ways of evolving give the same result",
 "Within integration accuracy the same flavour content results from evolving with or without constant-density mode; in mass or interaction basis; along a path at once or in pieces; one energy alone or among many; neutrinos and antineutrinos together or apart; zenith angles together, in any number of threads, or apart; sums of initial states or the sum of their results; in vacuum or matter of zero density; with or without enforced positivity. Going back along a path restores the initial state. This also holds after attempts that failed and were repeated.",
 ["histories","configurations","fault_sequences","schedules"],
 "Pairs of equivalent histories over all configurations, with failures of user code or allocations in attempts that are repeated.",
 "The tests compare single configurations with stored output and cannot be built here.",
 ["src/nuSQuIDS.cpp","include/nuSQuIDS/nuSQuIDS.h"],[("EvolveState, PreDerive, HI, GammaRho, InteractionsRho","nuSQuIDS.cpp, nuSQuIDS.h")],None,"flavour and mass content of both ways")
prop("S01","Saving and restoring a propagation state is a faithful checkpoint",
 "A propagation state saved to file and restored, in the same or another object, has the same energies, parameters, body, trajectory position and flavour content, and continuing the evolution from the restored state gives what the uninterrupted evolution gives. This holds for single-trajectory and atmospheric objects, with and without interactions, for neutrinos, antineutrinos and both.",
 ["crash_points","histories","configurations"],
 "Checkpoint and restart at any point between evolution steps, repeatedly, for all configurations.",
 "The HDF5 tests cannot be built here and check one fixed configuration each.",
 ["src/nuSQuIDS.cpp","include/nuSQuIDS/nuSQuIDS.h","src/body.cpp"],[("WriteStateHDF5/ReadStateHDF5","nuSQuIDS.cpp, nuSQuIDS.h")],None,"evaluated flavour content, energies, parameters before and after")
prop("S02","Disk failure while saving or restoring a state never yields a wrong state",
 "If a disk operation or an allocation fails while a propagation state is being saved or restored, or the file is missing, cut short or not a saved state, the caller gets an exception; a save or restore that returns normally has saved or given exactly the state. Failing never changes the object that is saved, another file, or a file that could not be opened; it leaves nothing open, and once the disk works again saving and restoring into the same object give the right state.",
 ["fault_sequences","histories"],
 "Failure, shortening or interruption of any single disk operation or allocation while saving and restoring, nearly full disks, refused library calls, files cut short at any length.",
 "Tests save and restore on a working disk only.",
 ["src/nuSQuIDS.cpp","include/nuSQuIDS/nuSQuIDS.h","src/body.cpp"],[("WriteStateHDF5/ReadStateHDF5","nuSQuIDS.cpp, nuSQuIDS.h")],None,"restored state or exception, file contents, open-object counts")

# properties with no schedule, fault, clock or history in them: recorded, not claimed
prop("N01","Oscillation probabilities conserve total probability and match exact solutions",
 "Without interactions, evolved flavour content sums to the initial flux at every energy, and in vacuum and constant density it equals the closed-form solution to the requested accuracy.",
 ["inputs"],"All mixing parameters, energies, baselines and densities.","The tests compare a few baselines with stored output.",
 ["src/nuSQuIDS.cpp"],[("EvolveState","nuSQuIDS.cpp")])
prop("N02","Interpolation reproduces its nodes and polynomials",
 "Splines and interpolators return the tabulated value at every grid point and are exact for linear data.",
 ["inputs"],"All grids and data.","The tests check one coefficient table.",
 ["src/tools.cpp"],[("AkimaSpline, BiCubicInterpolator, TriCubicInterpolator","tools.cpp")])
prop("N03","Quadrature meets its tolerance",
 "Integrals of smooth functions are within the requested tolerance of the true value, and reversing the limits changes only the sign.",
 ["inputs"],"All smooth integrands, intervals and tolerances.","The test checks a handful of integrands.",
 ["include/nuSQuIDS/AdaptiveQuad.h"],[("AdaptiveQuad::integrate","AdaptiveQuad.h")])
prop("N04","Cross sections and decay spectra are physical",
 "Cross sections and tau-decay spectra are non-negative inside their domain, differential cross sections integrate to the totals, and out-of-range requests are refused.",
 ["inputs"],"All energies, flavours and channels.","No test evaluates them here.",
 ["src/xsections.cpp","src/taudecay.cpp"],[("TotalCrossSection, TauDecayToAll","xsections.cpp, taudecay.cpp")])
prop("N05","Body density profiles and path geometry are right",
 "Tabulated bodies return the tabulated density and electron fraction, and atmospheric path lengths follow from the zenith angle and radii.",
 ["inputs"],"All zenith angles and positions.","Tests print a few values.",
 ["src/body.cpp"],[("density, ye, MakeTrack","body.cpp")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
print(len(P))
