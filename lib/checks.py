"""Which workers decide which property. J = (variant, profile, workers, quick cases per worker, processes, environment)."""
from collections import namedtuple

J = namedtuple("J", "variant profile workers cases np env", defaults=(0, {}))

RULES = {
    "gates": "1-3 random gates of every family (named, parametric, controlled with open and closed controls, two-qubit, arbitrary matrices on scattered qubits) on 1-7 qubits, each compared entry by entry and applied to a state; non-trivial: a control, a second target or more than two qubits",
    "evolve": "a state and up to 40 gates, compared with the dense state after every gate; non-trivial: at least 2 qubits and 2 multi-qubit gates",
    "evolves": "as evolve, up to 8 qubits, in very small tables",
    "algebra": "expressions over vectors and matrices (products, sums, scalar multiples, Kronecker products, copies); non-trivial: at least 2 combining operations on at least 2 qubits",
    "compact": "stabiliser circuits with the exact canonical size after every gate, circuits undone gate by gate, equal states reached by two routes, size bounds of product and structured states; non-trivial: at least 3 qubits and 5 gates, or two routes",
    "gc": "interleavings of gate application, sums, products, forced and threshold collections with one or several survivors; non-trivial: a collection with operations after it",
    "measuregc": "as measure, with collections between the measurements; non-trivial: at least 2 qubits",
    "measure": "states with measurements of one or all qubits, with and without collapse, in long random sequences; non-trivial: at least 2 qubits",
    "hist": "all kinds of cases after one another in one long-lived process, earlier results kept alive and compared again; non-trivial: as for the kind",
    "views": "states and operators read through every export (dense vector, matrix, printed text, graph); non-trivial: at least 2 qubits",
    "ser": "states saved and loaded, with and without emptying the tables in between, then used further; non-trivial: at least 2 qubits and 2 gates",
    "wide": "registers of 12-100 qubits: product states or sparse states with few branches, gates between far qubits, up to n-1 controls; non-trivial: at least 2 entangling and 1 branching gate, or a product state",
    "mpi": "gate sequences, products, measurements and collapses on 1-8 ranks; non-trivial: at least 2 gates on qubits held across ranks",
    "dist": "circuits (sampled, dynamic, exact, state vector) run by the backends on 1-8 processes with both exchange modes and both ways of swapping qubits; non-trivial: at least 2 multi-qubit gates, a qubit within and (except for dynamic circuits) every process used",
    "mt": "runs with 1-9 threads after one another on circuits up to 10 qubits; non-trivial: at least 7 qubits and 2 multi-qubit gates",
    "raw": "programs over the functions of pyQDD itself: every gate builder, products, collections, measurements, exports; non-trivial: at least 2 qubits",
    "mraw": "programs over the functions pyQDD has in the MPI build (gates with both ways of exchange, measurements, collapses, saving and loading, prints) on 2-8 processes; non-trivial: at least 2 gates on the upper qubits",
    "samp": "circuits of 1-6 qubits over several registers with final measurements in any order, exact distribution against counts; non-trivial: at least 2 qubits and a multi-qubit gate",
    "dyn": "mid-circuit measurements, resets, conditions on bits and registers; non-trivial: at least 2 qubits and a condition",
    "prob": "circuits with final measurements, shots=None; non-trivial: at least 2 multi-qubit gates",
    "sv": "circuits with and without measurements on the statevector backend; non-trivial: at least 2 multi-qubit gates",
    "trans": "library circuits of 31 instruction kinds transpiled at levels 0-3; non-trivial: at least 2 qubits and 2 instructions",
    "batch": "lists of circuits with repeated entries, names used twice, metadata, memory and parameter bindings; non-trivial: bindings used, or several circuits",
    "merge": "circuits merged into single gates, used alone, repeatedly and next to ordinary gates, with early collections; non-trivial: at least 2 qubits and 2 multi-qubit gates",
    "wsamp": "as samp on 13-100 qubits with few branches; non-trivial: at least 2 multi-qubit gates",
    "wdyn": "as dyn on 13-100 qubits with few branches; non-trivial: a condition and a multi-qubit gate",
    "wsampler": "Sampler runs of parametrised circuits on 13-100 qubits; non-trivial: a multi-qubit gate",
    "west": "Estimator runs on 13-100 qubits with observables of low and full weight; non-trivial: a multi-qubit gate",
    "sampler": "Sampler runs over several calls with repeated parametrised circuits, dynamic circuits, pairs that differ in one condition, circuits changed between calls, transpiler options and run options; non-trivial: parameters and a multi-qubit gate",
    "est": "Estimator runs over several circuits, observables and parameter values, exact and sampled, with and without grouping, dynamic circuits, pairs that differ in one condition, circuits changed between calls; non-trivial: a multi-qubit gate",
    "rej": "invalid inputs of some 20 kinds (registers, measurements, shots given per run or as options, seeds, parameters and bindings, unsupported instructions, control flow, wrong types) and inputs at the accepted borders, between valid runs; every case counts",
    "opts": "histories of option settings (constructor, set_options, per run) over several backend objects and primitives, each run judged by the options in force; non-trivial: at least 2 settings or primitive runs",
    "jobif": "several jobs in one process, valid and failing: status, ids, headers, results read by position, circuit and name, and again after later jobs; lookup of backends; non-trivial: at least 2 jobs",
    "pure": "3-9 mixed API calls in one process (runs, primitives, merges, concurrent jobs, threads, changed collection thresholds); every case counts",
    "seed": "pairs of runs with equal and different seeds with other work in between; every case counts",
    "alg": "circuits whose outcome is known in closed form (arithmetic in the Fourier basis, phase estimation, order finding, Bernstein-Vazirani, Grover, W states, teleportation chains, circuits followed by their inverse) on 2-81 qubits with random inputs, run, transpiled, exact or through the Sampler, with tables as released; every case counts",
    "algc": "as alg, somewhat smaller, in small tables with random collection thresholds; every case counts",
    "fuzz": "coverage-guided libFuzzer inputs decoded into the engine's cases, under address and undefined-behaviour sanitizers, every result still compared with the reference; non-trivial: inputs that reached new coverage",
}


def mt(n):
    return {"ENGINE_WORKERS": str(n)}


# property -> (jobs, seconds the quick run may take, rules' profiles)
CHECKS = {
    "E01": [J("tiny", "gates", 3, 15000), J("prod", "gates", 3, 40000), J("py", "sv", 2, 900)],
    "E02": [J("tiny", "evolves", 4, 2000), J("mid", "evolve", 1, 900), J("prod", "evolve", 3, 2500)],
    "E03": [J("tiny", "algebra", 4, 25000), J("mid", "algebra", 1, 50000), J("prod", "algebra", 3, 60000)],
    "E04": [J("prod", "compact", 3, 45000), J("mid", "compact", 5, 50000)],
    "E05": [J("tiny", "gc", 7, 7000), J("mid", "gc", 1, 400)],
    "E06": [J("tiny", "measure", 2, 7000), J("tiny", "measuregc", 2, 6000), J("mid", "measure", 1, 16000), J("prod", "measure", 3, 25000)],
    "E07": [J("tiny", "hist", 7, 15000), J("mid", "hist", 1, 1800)],
    "E08": [J("fuzz", "fuzz", 4, 60000), J("asan", "hist", 1, 900), J("asan", "gc", 1, 900), J("asan", "wide", 1, 900), J("asanser", "ser", 1, 900)],
    "E09": [J("prod", "wide", 3, 8000), J("mid", "wide", 3, 7000), J("tiny", "wide", 2, 5000)],
    "E10": [J("ser", "ser", 8, 8000)],
    "E11": [J("prod", "views", 3, 14000), J("mid", "views", 3, 15000), J("tiny", "views", 2, 10000)],
    "M01": [J("mpi", "mpi", 1, 3000, 1), J("mpi", "mpi", 2, 2500, 2), J("mpi", "mpi", 2, 1500, 4), J("mpi", "mpi", 1, 900, 8)],
    "T01": [J("mt", "evolves", 1, 1200, 0, mt(1)), J("mt", "evolves", 1, 900, 0, mt(3)), J("mtsmall", "algebra", 1, 6000, 0, mt(3)),
            J("mtsmall", "evolves", 1, 600, 0, mt(7)), J("mt", "measure", 1, 4000, 0, mt(2)), J("mt", "gates", 1, 6000, 0, mt(2))],
    "P01": [J("py", "samp", 6, 4000), J("py", "wsamp", 2, 2500)],
    "P02": [J("py", "dyn", 6, 1500), J("py", "wdyn", 2, 3000)],
    "P03": [J("py", "prob", 7, 4500)],
    "P04": [J("py", "sv", 7, 3500)],
    "P05": [J("py", "trans", 7, 800)],
    "P06": [J("py", "batch", 7, 1200)],
    "P07": [J("py", "merge", 7, 2500)],
    "P08": [J("py", "sampler", 6, 700), J("py", "wsampler", 2, 110)],
    "P09": [J("py", "est", 5, 600), J("py", "west", 3, 100)],
    "P10": [J("py", "rej", 7, 1800)],
    "P11": [J("py", "pure", 7, 180)],
    "B01": [J("py", "raw", 7, 7000), J("pympi", "mraw", 1, 1200, 2), J("pympi", "mraw", 1, 700, 4), J("pympi", "mraw", 1, 150, 8)],
    "M02": [J("pympi", "dist", 1, 500, 1), J("pympi", "dist", 2, 400, 2), J("pympi", "dist", 1, 300, 4), J("pympi", "dist", 1, 150, 8)],
    "T02": [J("pymt", "mt", 3, 250)],
    "P12": [J("py", "seed", 7, 500)],
    "P13": [J("py", "opts", 7, 1300)],
    "P14": [J("py", "jobif", 7, 500)],
    "P15": [J("pyprod", "alg", 3, 250), J("py", "algc", 4, 300)],
}

ASSUMPTIONS = {
    "engine": ["the dense reference (ref.hpp), written from the textbook definitions", "amplitudes agree within 1e-9 relative to the magnitudes combined",
               "tables are made smaller by the build-time hook in all variants but 'prod'; the code is otherwise that of the repository"],
    "py": ["the numpy reference (py/ref.py) and, for transpiled circuits, qiskit.quantum_info.Statevector", "statistical checks alarm with probability below 1e-12 each",
           "pyQDD is compiled from the repository with small tables"],
}
