import json
P=[]
def add(id,title,st,over,text,why,files,mech,obs,hook=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":hook}})
H="build-time table sizes (QDD_VERIF_NBUCKETS) so that collisions, evictions and collections are frequent; the property itself needs no hook"
dd=["src/dd.cpp","include/dd.h"]
add("E01","Every gate builder produces exactly its unitary matrix",
 "For every register size, target, set of positive and negative controls, parameter value and arbitrary matrix, the decision diagram a gate builder returns represents the textbook matrix of that gate on those qubits (identity on the others). Building a gate has no effect on its arguments or on diagrams built before.",
 ["inputs"],"all gate families, registers up to 7 qubits, all placements of targets and controls, any real angles, any complex 2x2 ... 32x32 matrices",
 "Tests build a few gates at fixed positions and angles; the claim is over every placement of targets and controls, every control polarity and every angle.",
 dd+["include/common.h","qdd/bindings.cpp"],[("makeGate / makeTwoQubitGate / makeLargeGate / makeSwap","src/dd.cpp"),("gate matrix tables and functions","include/dd.h, src/dd.cpp")],["mEdge::getMatrix","effect on a state vector"],H)
add("E02","Applying any gate sequence gives the exact state vector",
 "After any sequence of gates on any starting state, the amplitudes read from the decision diagram are those of dense linear algebra, within rounding; no entry is lost, permuted, duplicated or taken from an earlier computation. Basis states made by the constructors are exactly |0...0> and |1...1>.",
 ["programs","inputs"],"all circuits of supported gates, up to 16 qubits, from basis, sparse, random and badly scaled states",
 "Tests run a handful of fixed circuits; cache and unique-table mistakes need particular coincidences between nodes of different steps.",
 dd,[("mv_multiply, vv_add, makeVEdge normalisation","src/dd.cpp"),("operation caches and unique table","include/dd.h (Cache, MulCache, AddCache, NodeTable)")],["vEdge::getVector"],H)
add("E03","Sums, products and Kronecker products of diagrams obey linear algebra",
 "Matrix products, matrix and vector sums, matrix-vector products, scalar multiples and Kronecker products of any diagrams equal the dense results, for unitary and non-unitary, sparse, singular and zero operands. No operation changes its operands.",
 ["programs","inputs"],"all expression trees over states and operators up to 5 qubits, any order and reuse of intermediate results",
 "Tests multiply a few pairs of gates; zero operands, skipped identity levels, equal operands and reused intermediates are combinations a sample does not reach.",
 dd,[("mm_multiply2, mm_add2, mv_multiply2, vv_add2","src/dd.cpp"),("mm_kronecker, vv_kronecker","src/dd.cpp"),("identity stripping in makeMEdge","src/dd.cpp")],["getVector","getMatrix"],H)
add("E04","Diagrams stay canonical and compact",
 "States whose amplitudes are exactly representable get the smallest diagram: equal states built along different routes are the same diagram, and a state has one node per distinct sub-vector. In particular product states need one node per qubit, and undoing a circuit gives the original diagram back.",
 ["programs"],"all stabiliser circuits up to 9 qubits, product states up to 10 qubits with any angles, pairs of routes to one state",
 "Correct amplitudes say nothing about sharing, so functional tests pass while memory grows exponentially; compactness is the reason to use the simulator and no test measures it beyond two fixed circuits.",
 dd,[("normalisation in makeVEdge / makeMEdge","src/dd.cpp"),("NodeTable::lookup, node hashing and equality","include/dd.h")],["get_nNodes","node identity of two edges"],H)
add("E05","Garbage collection never changes live results and does reclaim",
 "Collecting with any set of live states or operators, forced or by threshold, at any point of a computation leaves their values and every later result unchanged. Memory of states that are not passed along is given back.",
 ["histories","programs"],"all interleavings of operations and collections with one or several survivors, any thresholds",
 "Stale cache entries and dangling nodes only show when a collection falls between particular operations; the default threshold of 65536 nodes means small tests never collect at all.",
 dd,[("gc, gc_mat: rebuild of the tables, clearing of caches and of the identity table","src/dd.cpp"),("vNode_to_vec / vec_to_vNode, mNode_to_vec / vec_to_mNode","src/dd.cpp")],["getVector, getMatrix after gc / gc_mat","allocated memory over repeated collections"],H)
add("E06","Measurement follows the Born rule and collapses correctly",
 "For any state, the probabilities reported, the distribution of sampled single-qubit and full-register outcomes, and the state left after a collapsing measurement are those of quantum mechanics; outcomes of probability zero never occur. Reading without collapse leaves the state as it was, and a state that is not normalised is rejected by single-qubit measurements.",
 ["inputs","histories"],"all states up to 9 qubits, every qubit, random streams, sequences of measurements with gates between them",
 "Tests look at few states (mostly GHZ-like); correctness is a statement on distributions and post-measurement states for every state and qubit.",
 dd,[("measureOne, measureOneCollapsing, measureAll, assignProbabilities","src/dd.cpp"),("probability cache","src/dd.cpp (probs)")],["outcomes, probabilities, getVector"],H)
add("E07","Results do not depend on what the process did before",
 "In one long-lived process, any sequence of independent computations with different register sizes gives each of them the result it has on its own. Results kept from earlier computations stay valid while others run, as long as they are passed along at collections.",
 ["histories"],"all sequences of the cases of E01-E06 in one process, sharing tables, caches, identity table and thresholds",
 "Every test process runs few computations in a fixed order; leftovers in global caches only matter for later, different computations.",
 dd,[("global unique tables, operation caches, identityTable, probs, gc thresholds","src/dd.cpp")],["getVector, getMatrix"],H)
add("E08","No engine call reads or writes memory it does not own",
 "Any sequence of valid engine calls (gates, algebra, collections, measurements, exports, serialisation, wide registers) runs without out-of-bounds access, use of freed nodes, uninitialised or undefined arithmetic that the sanitizers can see, and without endless loops.",
 ["inputs","programs"],"coverage-guided byte strings decoded into call sequences, and random call sequences, under address and undefined-behaviour sanitizers",
 "Memory errors in tables and exports usually leave results intact in tests; they need particular sizes, growth steps and collection points.",
 dd,[("chunked node allocation, table growth, move assignment","include/dd.h (NodeTable)"),("index arithmetic in gate builders and exports","src/dd.cpp")],["sanitizer reports","crash, hang"],H)
add("E09","Registers up to 100 qubits work at full width",
 "For registers of up to 100 qubits, gates between any qubits with any number of controls, products of gates, measurements and sampling are exact for every state with few non-zero amplitudes and for product states above the documented resolution of weights, with a diagram that grows with the number of branches and not with the width.",
 ["inputs","programs"],"sparse states of up to 2^7 branches on 12-100 qubits, product states up to 70 qubits, gates with up to 99 controls",
 "Tests stay below 20 qubits, or run one wide circuit; index types, shifts and table sizes at 31, 32, 33, 63, 64, 65 and 99 qubits are never compared with a model.",
 dd,[("level arithmetic in makeGate / makeTwoQubitGate / makeLargeGate","src/dd.cpp"),("NQUBITS tables","include/common.h")],["amplitudes along paths, get_nNodes, outcomes"],H)
add("E10","Saving and loading a state is lossless",
 "A state written to a file and read back, into the same tables or into empty ones, has the same amplitudes including global phase and norm, and behaves in later operations like the original.",
 ["inputs","histories"],"all states up to 12 qubits, round trips at any point of a computation, with or without emptying the tables in between",
 "One test round-trips one state in the process that made it; shared nodes, zero branches and root weights vary with the state.",
 dd+["test/mpi_test.cpp"],[("save_binary, load_binary, vContent","src/dd.cpp, include/dd.h")],["getVector after load_binary"],H)
add("E11","All exports of a state or operator agree",
 "The dense vector or matrix, the Eigen objects, the printed full and sparse listings and the graph description of one diagram all describe the same amplitudes, for every state and operator, scaled or not.",
 ["inputs"],"all states and operators up to 5 qubits",
 "Tests never parse the printed and graph forms and compare Eigen exports for few objects.",
 dd,[("getVector, getEigenVector, printVector, printVector_sparse, getMatrix, getEigenMatrix, printMatrix, genDot","src/dd.cpp")],["the exports"],H)
add("M01","The distributed engine computes what one process computes",
 "For any power-of-two number of processes, any register, gate sequence, product, measurement or collapse, with point-to-point or broadcast exchange, every process gets the outcomes, probabilities and amplitudes of the single-process computation, and no run deadlocks.",
 ["configurations","programs","inputs"],"1, 2, 4 and 8 processes, all gate families on local and global qubits, both exchange modes, measurements of local and global qubits",
 "The MPI tests are run with few processes and gates; which part of a matrix a process needs depends on process count and on whether targets and controls are local or global.",
 dd+["README_MPI.md"],[("mv_multiply_MPI, mv_multiply_MPI_bcast, getSubMatrix (RowZero/ColZero...)","src/dd.cpp"),("measureOneMPI, measureOneCollapsingMPI, measureAllMPI, probabilitiesMPI, getVectorMPI","src/dd.cpp")],["results on every rank"],H)
add("T01","The multi-threaded engine computes what the serial engine computes",
 "Built for multi-threading, with any number of workers and any interleaving of their tasks, every product, sum and measurement equals the serial result within rounding, without crash, deadlock or lost work.",
 ["schedules","configurations","programs"],"1-7 workers, random circuits, operator algebra and measurements; schedules as they arise on 8 cores under load",
 "A test that runs once sees one interleaving; races on tables, caches and task queues show in rare ones.",
 ["src/dd.cpp","src/task.cpp","include/task.h","src/epoch.cpp","include/epoch.h","include/dd.h"],[("Scheduler, fibers, per-thread caches","src/task.cpp, include/task.h"),("lock-free lookup in the unique table","include/dd.h")],["getVector, getMatrix, outcomes"],H)
q=["qdd/qdd_backend.py","qdd/bindings.cpp"]
add("P01","Sampled counts follow the circuit and use Qiskit's bit order",
 "For any circuit of supported gates ending in measurements, with any registers and any mapping from qubits to classical bits, the counts and memory of a run follow the exact distribution of the circuit, formatted per register in Qiskit's order, with exactly the requested number of shots. Bits never measured read 0 and later measurements overwrite earlier ones.",
 ["inputs","programs"],"all circuits up to 6 qubits over several quantum and classical registers, any measurement map, 1-2000 shots; circuits of up to 100 qubits with few branches",
 "Tests check a few circuits with plain registers; bit order mistakes need several registers and non-identity maps, and distributions need a statistical test per circuit.",
 q,[("_evaluate_circuit: sampling and mapping to classical bits","qdd/qdd_backend.py"),("_create_experiment_header","qdd/qdd_backend.py"),("_validate_and_get_circuit_property","qdd/qdd_backend.py")],["Result.get_counts, get_memory, data"])
add("P02","Mid-circuit measurement, reset and classical control are exact",
 "Circuits with measurements, resets and gates or measurements conditioned on bits or registers, in any order, sample from the exact distribution of quantum mechanics with classical feedback, for every value of the condition.",
 ["programs","inputs"],"all dynamic circuits up to 4 qubits (and up to 100 with few branches), any number of registers, shared and re-measured bits, conditions on bits and on register values",
 "Tests contain a few conditional circuits with one-bit registers; feedback depends on register layout, position and outcome history.",
 q,[("per-shot evaluation, _validate_and_get_circuit_property (stability)","qdd/qdd_backend.py"),("measureOneCollapsing","src/dd.cpp")],["Result.get_counts"])
add("P03","Exact mode (shots=None) reports the exact outcome probabilities",
 "For any circuit whose measurements are final, running without shots reports for every combination of classical bits its exact probability, keyed as counts are, and the values sum to one.",
 ["inputs","programs"],"all circuits up to 6 qubits with any measurement map, including repeated measurements, barriers and unmeasured qubits",
 "The tests use two circuits that measure all qubits in order, where qubit order and classical order coincide.",
 q,[("_evaluate_circuit: probabilities and marginalisation","qdd/qdd_backend.py"),("probabilities","src/dd.cpp")],["Result.data()['probabilities']"])
add("P04","The state vector backend returns the exact final state",
 "For any circuit of supported gates, including open controls, multi-controlled gates, unitary matrices and global phase, the state vector backend returns the exact state in Qiskit's qubit order; with shots it also returns counts that fit.",
 ["inputs","programs"],"all circuits up to 6 qubits of 45 gate kinds, with and without measurements",
 "Tests compare few circuits, mostly without global phase, open controls or wide unitaries.",
 q+["qdd/qdd_sv_backend.py"],[("gate dispatch tables and _split_controls","qdd/qdd_backend.py"),("applyGlobal, getVector","qdd/bindings.cpp, src/dd.cpp")],["Result.get_statevector"])
add("P05","Transpiling for the backend and running preserves the circuit",
 "Any circuit of Qiskit library gates, transpiled for a QDD backend at any optimisation level, runs without error and has the same state and outcome probabilities as the original.",
 ["programs","configurations"],"circuits of 31 library instruction kinds up to 5 qubits, levels 0-3, random transpiler seeds",
 "Tests transpile few circuits at the default level; which basis gates come out depends on level, angles and gate mix.",
 q+["qdd/qdd_provider.py"],[("basis_gates and configuration","qdd/qdd_backend.py"),("gate dispatch tables","qdd/qdd_backend.py")],["Result.get_statevector, data"])
add("P06","Batches, parameter bindings and run options keep results apart",
 "Running a list of circuits returns one result per circuit in order, each with its own counts, memory, header and shot count; parameter bindings apply to their own circuit, repeated circuits are independent, names and metadata appear with their own circuit, and inputs are left unchanged.",
 ["inputs","histories"],"lists of 1-5 circuits with repeats and equal names, bindings per circuit, memory on and off, any shots",
 "Tests run single circuits or lists of equal circuits; mix-ups need several different circuits and bindings at once.",
 q+["qdd/qdd_job.py"],[("_run_internal, _run_experiment","qdd/qdd_backend.py"),("_create_experiment_header","qdd/qdd_backend.py")],["Result"])
add("P07","A merged circuit acts as one gate with the same effect",
 "Merging a circuit into a single operator and using it any number of times, on any qubits of a circuit in any order, alone, beside ordinary gates, with other merged circuits, under a condition, in copied or pickled circuits, and for any collection frequency, has the effect of the circuit itself including global phase; conditional gates, resets and unsupported instructions are refused rather than dropped (measurements and barriers are left out).",
 ["programs","histories"],"all unitary circuits up to 6 qubits, placed on any qubits, several merged circuits alive at once, gc frequency 1-40",
 "One test merges one circuit and uses it once with the default frequency.",
 q+["qdd/qdd_gate.py"],[("merge_circuit, gc_mat","qdd/qdd_backend.py, src/dd.cpp"),("QDDGate","qdd/qdd_gate.py")],["Result.get_statevector, getEigenMatrix"])
add("P08","Sampler returns the right distribution for each circuit and binding",
 "For any sequence of Sampler runs with lists of circuits, repeated circuits and parameter values, each returned distribution is that of its circuit with its values: exact without shots, fitting the shot count otherwise, with one entry per request in order.",
 ["inputs","histories"],"several runs on one Sampler, 1-4 circuits each, shared and repeated parametrised circuits, dynamic circuits, circuits the caller changes between calls, transpiler options; up to 100 qubits",
 "Tests use one circuit per run; the Sampler caches circuits by index across runs.",
 ["qdd/qdd_sampler.py","qdd/qdd_backend.py"],[("_run, _call, _ExperimentManager","qdd/qdd_sampler.py")],["SamplerResult.quasi_dists, metadata"])
add("P09","Estimator returns the right expectation value for each request",
 "For any lists of circuits, observables and parameter values, with grouping or not, exact or sampled, repeated over several runs, every value is the expectation of that observable in that circuit: equal to it in exact mode, within statistical error when sampled, with consistent variance and shots in the metadata.",
 ["inputs","histories"],"1-4 requests per run, several runs on one Estimator, Pauli sums with identity, real coefficients, commuting and non-commuting terms, circuits the caller changes between calls; up to 100 qubits",
 "Tests use one or two observables; grouping, identity terms and index bookkeeping depend on the combination of requests.",
 ["qdd/qdd_estimator.py","qdd/qdd_backend.py"],[("_compute, _create_meas_circuit, _ExperimentManager, post-processing","qdd/qdd_estimator.py")],["EstimatorResult.values, metadata"])
add("P10","Invalid input is reported as a failed job and harms nothing",
 "Input that cannot be simulated (too many qubits, no measurement, bad shot numbers or seeds, unsupported instructions and control flow, wrong types, unbound parameters, bindings that do not fit the circuits) gives a failed job or an error that says so, never a wrong result or a crash; inputs at the accepted limits are simulated. Later runs are unaffected.",
 ["inputs","histories"],"20 kinds of invalid input and the borders of the accepted ranges, placed between valid runs",
 "Tests check single invalid calls in fresh processes, and few kinds.",
 q+["qdd/qdd_failed_job.py"],[("_validate_run_options, _validate_and_get_circuit_property","qdd/qdd_backend.py"),("QddFailedJob","qdd/qdd_failed_job.py")],["job.result().success/status, raised errors"])
add("P11","API calls are independent of history, thresholds and concurrency",
 "In one process, any mixture of runs on both backends, primitives, merges and changed collection thresholds, issued one after another or concurrently from several jobs and threads, gives every call the result it has alone; inputs are not modified and memory of dropped results is given back.",
 ["histories","schedules"],"3-9 mixed calls per case, many cases per process, 2-6 concurrent jobs or threads",
 "Tests run calls one at a time with default thresholds; interference needs shared tables, a collection and a second call.",
 q+["qdd/qdd_sampler.py","qdd/qdd_estimator.py"],[("_run_lock","qdd/qdd_backend.py"),("gc after every gate","qdd/qdd_backend.py")],["results of every call, allocated memory"])
add("P12","Equal seeds give equal shots, different seeds independent ones",
 "A run with a given seed reproduces its counts and memory exactly, whatever ran before, for both backends and the primitives; different seeds, and runs without a seed, give different shots.",
 ["inputs","histories"],"pairs of runs with any seeds, arbitrary other work in between, static and dynamic circuits",
 "No test repeats a seeded run; the random engine is shared state of the process.",
 q+["qdd/qdd_sampler.py","qdd/qdd_estimator.py"],[("set_seed and the shared random engine","qdd/bindings.cpp"),("seed handling of the primitives","qdd/qdd_sampler.py, qdd/qdd_estimator.py")],["Result.get_memory, quasi_dists, values"])
add("P13","Options take effect where they are set and nowhere else",
 "A run uses the options given to it, else those set on its backend object or primitive, else the defaults: shots, memory and seed of every result are those in force. Setting an option never changes another backend object or primitive, options of one run do not remain for the next, and unknown options have no effect except a warning that names them.",
 ["histories"],"histories of 4-12 option settings and runs over several backend objects, Samplers and Estimators, shots, memory and seeds in all combinations including 0 and None",
 "Tests pass options to single runs; shared defaults, options that stick and falsy values that are taken for absent need a second object or a second run.",
 q+["qdd/qdd_sampler.py","qdd/qdd_estimator.py"],[("_default_options, run: merging of options","qdd/qdd_backend.py"),("backend_options, run_options","qdd/qdd_sampler.py, qdd/qdd_estimator.py")],["Result.results[i].shots, get_counts, get_memory, metadata, options"])
add("P14","Jobs, results and providers follow Qiskit's interface",
 "A finished job reports DONE, a failed one ERROR, each has its own id, and returns one and the same result as often as it is asked, also after later jobs; results name their backend, job and circuits, hold one entry per circuit in order, and can be read by position, circuit or name. A provider lists and finds its backends by name and filter and refuses unknown names.",
 ["histories"],"histories of 2-6 jobs on both backends with 1-3 circuits, valid ones and ones with an unsupported circuit at any place, results re-read after later jobs, provider look-ups",
 "Tests call run(...).result() at once; mistakes in states, ids and shared results need several jobs in one process and reads after later ones.",
 q+["qdd/qdd_job.py","qdd/qdd_provider.py","qdd/qdd_failed_job.py"],[("QddJob: submit, status, result, cancel","qdd/qdd_job.py"),("_run_internal: ids and results","qdd/qdd_backend.py"),("QddProvider.backends, get_backend","qdd/qdd_provider.py")],["Job.status, job_id, result; provider.backends"])
add("P15","Standard algorithms give their known answers at practical sizes",
 "Well-known circuits of any size the simulator is meant for give the outcomes theory predicts: addition in the Fourier basis, phase estimation, order finding, Bernstein-Vazirani, Grover search, W states, teleportation chains, and circuits followed by their inverse return the exact answer, or its exact distribution, run directly, transpiled, without shots or through the Sampler, and for any collection thresholds.",
 ["inputs","programs","configurations"],"ten algorithm families on 2-81 qubits with any inputs, qubit orders (at moderate sizes), shots, transpiler levels and collection thresholds, with tables as released and with small ones",
 "Tests run Grover and Shor for fixed small inputs; small simulations cannot show what happens when diagrams, tables and gate counts get as large as in real use, and no dense reference reaches there.",
 q+["src/dd.cpp","qdd/qdd_sampler.py"],[("mv_multiply, vv_add, gate builders, collections","src/dd.cpp"),("_evaluate_circuit","qdd/qdd_backend.py"),("basis gates","qdd/qdd_backend.py")],["Result.get_counts, data, quasi_dists"])
add("B01","The Python extension module exposes the engine faithfully",
 "Any program over pyQDD's own functions (every gate builder with its argument order and keyword for negative controls, products of matrices and states, global phase, collections with one or several survivors, seeded measurements, every export) gives the values of dense linear algebra and the Born rule, and leaves objects held by the caller valid. In the MPI build its distributed functions do the same on every process.",
 ["programs","inputs"],"programs of 5-25 calls over several states and matrices up to 5 qubits, any qubits, controls and angles, any collection points; the MPI build on 2, 4 and 8 processes",
 "The tests call a few builders with fixed arguments; argument order, negative controls, row-major conversion and survivors of collections depend on the call and what was called before.",
 ["qdd/bindings.cpp","src/dd.cpp"],[("module definition, overloads, get_controls, applyGlobal","qdd/bindings.cpp"),("gc, gc_mat, gc_mat_keeping","qdd/bindings.cpp, src/dd.cpp")],["getVector, getEigenVector, getEigenMatrix, probabilities, measured values"])
add("M02","Backends spread over MPI processes return the single-process results",
 "A circuit run with use_mpi on any power-of-two number of processes, with point-to-point or broadcast exchange and either way of swapping qubits, gives on every process the counts, memory, exact probabilities and state vector that the circuit of process 0, with or without merged gates, has on one process; runs that cannot be distributed are refused.",
 ["configurations","programs","inputs"],"1, 2, 4 and 8 processes, sampled, dynamic, exact and state-vector runs with use_bcast, use_auto_swap and swap_ver in all combinations",
 "No test runs the Python backends under mpirun; qubit swapping and distribution of gates depend on process count and on which qubits a circuit uses.",
 q+["qdd/qdd_sv_backend.py","README_MPI.md"],[("use_mpi, swap and broadcast handling in _evaluate_circuit","qdd/qdd_backend.py"),("MPI functions of the module","qdd/bindings.cpp")],["Result of every process"])
add("T02","Backends with any number of threads return the serial results",
 "With the multi-threaded module, runs with n_threads=1..9 in any order, on both backends and the primitives, between other runs and collections, return what the single-threaded run returns, and thread pools of earlier runs are shut down without crash or hang.",
 ["histories","schedules","programs"],"sequences of runs with changing thread numbers on circuits up to 10 qubits; schedules as they arise",
 "The existing tests start one pool in a process; switching thread numbers, pool shutdown and collection between runs need histories.",
 q+["src/task.cpp","include/task.h"],[("initMT / terminateMT","qdd/bindings.cpp"),("Scheduler start and stop","src/task.cpp, include/task.h")],["Result of every run, no hang"])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p)+"\n")
hook=__import__('subprocess').run(["git","-C","/repo","log","--format=%H","--grep=^verif hook"],capture_output=True,text=True).stdout.split()
eng="random and structured case generation against a dense reference model, shrinking"
tech={"E04":"random circuits against the canonical diagram size computed from the dense state, and pairs of routes to one state","E08":"coverage-guided fuzzing (libFuzzer, ASan, UBSan) and random histories under the sanitizers","E09":"random circuits on up to 100 qubits against a sparse and a product-state model",
"M01":"random programs on 1-8 MPI processes against the dense reference","T01":"random programs on 1-7 worker threads against the dense reference, repeated schedules","E05":"random interleavings of operations and collections against the dense reference model","E07":"stateful histories in one process against the dense reference model","E10":"round trips over random states against the dense reference","E11":"random states; every export parsed back and compared with the reference",
"M02":"random circuits and options under mpirun with 1-8 processes against the numpy reference, agreement of all processes","T02":"random histories of runs with changing thread numbers against the numpy reference, repeated schedules","B01":"random programs over the extension module against a numpy reference, shrinking",
"P15":"random inputs of algorithm families against closed-form outcome distributions","P13":"stateful histories of option settings against a model of the options in force","P14":"stateful job histories against a model of the job life cycle and the numpy reference","P12":"metamorphic: pairs of seeded runs over random histories","P11":"stateful and concurrent API histories against the numpy reference","P10":"generated invalid and border inputs between valid runs, outcome predicate"}
m={"version":1,"setup_cmd":"python3 run.py setup","hooks":{"guard":"QDD_VERIF_NBUCKETS","enable":"-DQDD_VERIF_NBUCKETS=<buckets per level> -DQDD_VERIF_ALLOC=<initial chunk>: the checks compile /repo's sources themselves with these (lib/core.py, VARIANTS)","source_commits":hook},"checks":[],"not_applicable":[]}
for p in P:
    i=p["id"]
    t=tech.get(i, eng if i[0]=="E" else "random circuits and API calls against a numpy reference, exact and statistical comparison, shrinking")
    note="No violation in the generated cases; trusts the reference model in "+("engine/ref.hpp" if i in("M01","T01") or i[0]=="E" else "the formulas of py/algs.py" if i=="P15" else "py/ref.py")+", and compares within rounding."
    if i in("P01","P02","P06","P08","P09","P13","P15","E06"): note+=" Sampled results are judged by tests whose false-alarm probability is below 1e-12 each."
    if i in("T01","T02"): note+=" Schedules are those the machine produces; they are not enumerated."
    if i=="E08": note+=" Sees what ASan and UBSan see; leaks are not judged here."
    m["checks"].append({"property":i,"quick_cmd":"python3 run.py %s quick"%i,"thorough_cmd":"python3 run.py %s thorough"%i,"technique":t,"level":"exploration","level_note":note})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
