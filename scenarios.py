"""Which program decides which property, from which sources, with how many runs."""
EXES = {
 "pool": dict(scen=["pool.cpp"], repo=[], real=["include/nuSQuIDS/ThreadPool.h", "libstdc++ threads, futures, function"], stub=["operating-system scheduler, mutexes, condition variables, futexes, clock (simulated)", "heap (simulated)"]),
 "marray": dict(scen=["marray.cpp"], repo=[], real=["include/nuSQuIDS/marray.h", "include/nuSQuIDS/aligned_alloc.h"], stub=["heap (simulated)", "element types and allocators (scenario types whose operations can fail)"]),
 "text": dict(scen=["text.cpp"], repo=["src/tools.cpp"], real=["src/tools.cpp (quickread, quickwrite)", "include/nuSQuIDS/marray.h", "libstdc++ file streams"], stub=["file system below /simfs/ (simulated disk)", "heap (simulated)"]),
 "h5": dict(scen=["h5.cpp"], repo=["src/tools.cpp"], real=["include/nuSQuIDS/tools.h and src/tools.cpp (array and attribute storage, H5File, H5Handle)", "include/nuSQuIDS/marray.h", "the HDF5 library"], stub=["file system below /simfs/ (simulated disk)", "heap (simulated)", "public HDF5 calls pass a seam which may refuse them"]),
 "calc": dict(scen=["calc.cpp"], repo=["src/tools.cpp", "src/taudecay.cpp"], real=["src/tools.cpp (AkimaSpline, BiCubicInterpolator, TriCubicInterpolator)", "src/taudecay.cpp", "include/nuSQuIDS/AdaptiveQuad.h", "include/nuSQuIDS/tools.h (integrate, IntegrateWorkspace)", "GSL integration"], stub=["operating-system scheduler (simulated)", "heap (simulated, with chosen contents)"]),
 "xs": dict(scen=["xs.cpp"], repo=["src/xsections.cpp", "src/tools.cpp", "src/resources.cpp"], real=["src/xsections.cpp", "include/nuSQuIDS/xsections.h", "include/nuSQuIDS/AdaptiveQuad.h", "src/tools.cpp", "the HDF5 library"], stub=["squids::Const (unit constants only)", "file system below /simfs/ (simulated disk)", "heap (simulated)", "operating-system scheduler and threads (simulated)"]),
 "nusq": dict(scen=["nusq.cpp"], repo=["src/nuSQuIDS.cpp", "src/body.cpp", "src/tools.cpp", "src/taudecay.cpp", "src/xsections.cpp", "src/resources.cpp"], real=["src/nuSQuIDS.cpp", "include/nuSQuIDS/nuSQuIDS.h", "include/nuSQuIDS/ThreadPool.h", "src/body.cpp", "src/taudecay.cpp", "src/xsections.cpp (library)", "src/tools.cpp", "the HDF5 library"], stub=["SQuIDS (SU(N) algebra, Runge-Kutta integrator with few steps)", "cross sections and emitting bodies of the scenario", "file system below /simfs/ (simulated disk)", "operating-system scheduler and threads (simulated)", "heap (simulated)", "public HDF5 calls pass a seam which may refuse them"]),
 "body": dict(scen=["body.cpp"], repo=["src/body.cpp", "src/tools.cpp", "src/resources.cpp"], real=["src/body.cpp", "include/nuSQuIDS/body.h", "src/tools.cpp", "the HDF5 library"], stub=["squids::Const (same values)", "file system below /simfs/ (simulated disk)", "operating-system scheduler (simulated)", "heap (simulated)", "public HDF5 calls pass a seam which may refuse them"]),
}
POOL = "Non-trivial: the pool was created (or its creation failed under a fault) and tasks were submitted by 1-3 threads."
PROPS = {
 "P01": dict(exe="pool", quick=20000, level="exploration", rule=POOL, expect=["submission refused during shutdown"]),
 "P02": dict(exe="pool", quick=20000, level="exploration", rule=POOL, expect=["submission refused during shutdown"]),
 "P03": dict(exe="pool", quick=20000, level="exploration", rule=POOL, expect=["all workers busy at once"]),
 "P04": dict(exe="pool", quick=20000, level="exploration", rule=POOL),
 "P05": dict(exe="pool", quick=20000, level="exploration", rule=POOL, expect=["pool creation failed", "submission ran out of memory"]),
 "M01": dict(exe="marray", quick=60000, level="exploration", rule="Non-trivial: some operation really failed under an injected memory or element failure.", expect=["operation failed under a fault","strong guarantee checked"]),
 "M02": dict(exe="marray", quick=60000, level="exploration", rule="Non-trivial: a history of 3-16 operations on up to 4 arrays.", expect=["operation failed under a fault"]),
 "M03": dict(exe="marray", quick=60000, level="exploration", rule="Non-trivial: a history of 3-16 operations on up to 4 arrays, or one set of arithmetic operations."),
 "M04": dict(exe="marray", quick=60000, level="exploration", rule="Non-trivial: a history of allocations and releases was carried out.", expect=["impossible request refused","system refused memory"]),
 "T01": dict(exe="text", quick=40000, level="exploration", rule="Non-trivial: a table was written, and read back when writing returned normally.", expect=["write reported failure"]),
 "T02": dict(exe="text", quick=40000, level="exploration", rule="Non-trivial: a file was read, under faults and again without.", expect=["read reported failure", "blank line in the middle", "blank line at the end", "two readers at once"]),
 "H01": dict(exe="h5", quick=30000, level="exploration", rule="Non-trivial: a history of stores and loads over 2-4 sessions of a file was carried out.", expect=["store reported failure", "load reported failure", "rows longer than a chunk", "close reported failure"]),
 "H02": dict(exe="h5", quick=30000, level="exploration", rule="Non-trivial: a history of attribute writes and reads over 2-4 sessions of a file was carried out.", expect=["empty text", "long text", "name clash reported", "read-only object reported"]),
 "H03": dict(exe="h5", quick=30000, level="exploration", rule="Non-trivial: a history of storage operations or of handle operations was carried out.", expect=["operation failed", "other rank", "failed open refused"]),
 "C01": dict(exe="calc", quick=24000, level="exploration", rule="Non-trivial: 2-4 threads evaluated, copied and built tabulated objects at the same time."),
 "C02": dict(exe="calc", quick=30000, level="exploration", rule="Non-trivial: 2-4 threads integrated at the same time.", expect=["first use in threads"]),
 "I01": dict(exe="calc", quick=30000, level="exploration", rule="Non-trivial: a history of integrations, failing and not, was carried out.", expect=["integrand failed", "memory ran out", "no memory for a workspace", "integration after a failure"]),
 "I02": dict(exe="calc", quick=30000, level="exploration", rule="Non-trivial: a history of builds, failing and not, was carried out.", expect=["build ran out of memory", "bad data reported", "rebuilt"]),
 "B01": dict(exe="body", quick=60000, level="exploration", rule="Non-trivial: 1-4 bodies and trajectories were saved and loaded, once or twice.", expect=["non-default Earth", "declared constant", "partly traversed", "reversed", "reopened"]),
 "B02": dict(exe="body", quick=60000, level="exploration", rule="Non-trivial: a body and a trajectory were saved, and loaded when saving was successful, or a body was built from a table.", expect=["saving failed", "closing failed", "loading failed", "data missing", "built from a table"]),
 "B03": dict(exe="body", quick=60000, level="exploration", rule="Non-trivial: 2-4 threads queried shared bodies at the same time."),
 "X01": dict(exe="xs", quick=40000, level="exploration", rule="Non-trivial: tables were read, written in one of the two formats and read back when writing was successful.", expect=["reading failed", "writing failed", "read back from HDF5", "read back from text", "second generation", "incomplete table"]),
 "X02": dict(exe="xs", quick=40000, level="exploration", rule="Non-trivial: 2-4 threads queried the same tables and the same library.", expect=["loading at the same time"]),
 "X03": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: the default cross sections were loaded under faults and again without, alone, in threads, or by an object or ensemble which was compared with one given the same tables.", expect=["path from the environment", "path built in", "table missing or damaged", "loading failed", "the first use failed"]),
 "A01": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: all zenith angles were evolved, once or twice, in one thread and in several, or independent objects were evolved at the same time.", expect=["independent objects", "more threads than angles"]),
 "A02": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: zenith angles were evolved under faults, in 1-4 threads, and again without.", expect=["evolution failed"]),
 "A03": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: an object with a history of 1-4 evolutions in other settings, some failed, was compared with a fresh one over 1-2 evolutions.", expect=["an earlier evolution failed", "failed with the settings kept"]),
 "A04": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: an object was moved at chosen points of a history of 1-3 evolutions and compared with one that was not.", expect=["assigned over another", "random production height"]),
 "A05": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: 2-4 threads evaluated up to four evolved objects at the same time."),
 "A06": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: an object with interactions was evolved, moved and restored while every promise about alignment was checked.", expect=["restored"]),
 "A07": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: one problem was solved in two ways which have to agree, with failed attempts repeated.", expect=["tried again"]),
 "A09": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: an object or ensemble of a derived class, with failures and retries, was compared with one of the library's own whose result is known to be the same.", expect=["a potential times a factor", "a potential added by hand", "uniform losses", "uniform growth", "tried again", "restored in between"]),
 "A10": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: the flavour and mass content of an object or ensemble, reached through failures, retries, moves and files, was compared with the reference model.", expect=["interactions", "tau regeneration", "Glashow resonance", "sources", "no oscillations", "ensembles", "tried again", "restored in between"]),
 "A08": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: an object which was given calls it has to refuse, over 1-3 evolutions, was compared with one which was not.", expect=["object refused"]),
 "S01": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: states were saved and restored at chosen points of a history of 1-3 evolutions, which was compared with an uninterrupted one.", expect=["added to a file", "restored into a used object", "zenith angles"]),
 "S02": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: a state was saved and restored under faults, and again without.", expect=["file cut short, missing or strange", "saving failed", "restoring failed", "disk full"]),
 "S03": dict(exe="nusq", quick=30000, level="exploration", rule="Non-trivial: a state in the format of an earlier version was restored under faults, and again without.", expect=["up to 1.0.0", "between 1.0.0 and 1.11.0", "restoring failed", "later version", "evolved further"]),
}
PROPS["S02"]["quick_s"]=70; PROPS["A03"]["quick_s"]=PROPS["A07"]["quick_s"]=PROPS["S01"]["quick_s"]=55
for p in PROPS.values(): p.setdefault("quick_s", 40)
NOT_APPLICABLE = {
 "N01": "value accuracy of the evolution is a pure function of its input: no schedule, clock, fault or I/O decides it",
 "N02": "node reproduction of interpolation is a pure function of the input; the state- and fault-dependent sides are I02 and C01",
 "N03": "quadrature accuracy is a pure function of integrand and limits; the state- and fault-dependent sides are C02 and I01",
 "N04": "physical cross sections are a pure function of tables and energies; persistence and sharing are X01 and X02",
 "N05": "density profiles and path geometry are pure functions of their inputs; persistence, failure and sharing are B01-B03",
}
