"""Which monitors decide which property, in which configurations."""

SYMS = {"No": "NoSymmetry", "Z2": "Z2Symmetry", "U1": "U1Symmetry", "Fermi": "FermiSymmetry", "FermiZ2": "FermiZ2Symmetry", "FermiU1": "FermiU1Symmetry"}
SCALARS = {"S": "float", "D": "double", "C": "std::complex<float>", "Z": "std::complex<double>"}
ALL = [s + "/" + v for s in SYMS for v in SCALARS]
# every symmetry, and every scalar type several times
COVER = ["No/D", "No/C", "Z2/Z", "U1/D", "U1/C", "Fermi/Z", "FermiZ2/D", "FermiU1/S"]


def grid(src, cases, quick=COVER, thorough=ALL, defines=(), flags="plain", suffix="", **kw):
    def units(tier):
        r = []
        for c in quick if tier == "quick" else thorough:
            s, v = c.split("/")
            u = {"name": "%s-%s-%s%s" % (src.split(".")[0], s, v, suffix), "src": src, "cases": cases, "flags": flags,
                 "defines": ["-DSYM=" + SYMS[s], "-DSCALAR=" + SCALARS[v]] + list(defines)}
            u.update(kw)
            r.append(u)
        return r
    return units


def join(*fs):
    return lambda tier: [u for f in fs for u in f(tier)]


PROPS = {}
PROPS["P02"] = {
    "units": grid("p02.cpp", (4000, 60000)),
    "rule": "random tensors (rank 0-9, dimensions 0-20, blocks below and above the cache threshold, several quantum numbers and both arrows) with distinct "
            "elements are transposed to random orders and back and compared element by element with an index-level model; a case is non-trivial if the order "
            "changes and there is more than one element",
}
PROPS["P03"] = {
    "units": grid("p03.cpp", (20000, 1000000)),
    "rule": "random combinations of cut, rename, split (0-3 parts), reverse, reorder and merge (0-3 parts, with and without arrow alignment), every choice of "
            "parity and of the four exception lists, through the general and the specialised entry points; compared element by element with the layout and sign "
            "model; merging and splitting back must restore the tensor; a case is non-trivial if the tensor has more than one element",
}
OTHER = {"S": "double", "D": "std::complex<double>", "C": "float", "Z": "double"}


def with_other(units):
    def f(tier):
        r = units(tier)
        for u in r:
            u["defines"] = u["defines"] + ["-DOTHER=" + OTHER[u["name"].split("-")[2][0]]]
        return r
    return f


BOSE = [c for c in ALL if not c.startswith("Fermi")]
FERMI = [c for c in ALL if c.startswith("Fermi")]
PROPS["P04"] = {
    "units": with_other(grid("contract.cpp", (40000, 2000000), quick=["No/D", "No/C", "No/Z", "Z2/S", "Z2/Z", "U1/D", "U1/C", "U1/Z"], thorough=BOSE)),
    "rule": "random pairs of tensors contracted over 0-4 pairs in random edge orders, quantum numbers missing on one side, zero dimensions, wide edges, mixed scalar "
            "types, kept (same-name) edges, chains contracted in random association; integer elements, so equality with the sum over paired indices is exact; "
            "non-trivial: both operands have elements",
}
PROPS["P05"] = {
    "units": with_other(grid("contract.cpp", (40000, 2000000), quick=["Fermi/D", "Fermi/Z", "Fermi/C", "FermiZ2/D", "FermiZ2/C", "FermiU1/D", "FermiU1/Z", "FermiU1/S"],
                             thorough=FERMI)),
    "rule": "random pairs of fermionic tensors contracted over 0-2 pairs in random edge orders and arrows, quantum numbers missing on one side, mixed scalar types, "
            "chains contracted in random association; equality with the signed sum over paired indices is exact; non-trivial: both operands have elements",
}
PROPS["P06"] = {
    "units": grid("p06.cpp", (30000, 1500000)),
    "rule": "random tensors with 0-3 conjugate pairs among 0-3 other edges in random order, traced at once, one pair after another and after transposition; exact "
            "comparison with the diagonal sum and its exchange sign; non-trivial: at least one pair and at least one element",
}
PROPS["P07"] = {
    "units": grid("p07.cpp", (20000, 1000000)),
    "rule": "random tensors (integer-degenerate, sparse, tiny, huge and ordinary values) decomposed over every kind of bipartition with and without truncation; singular "
            "values compared with one-sided Jacobi in extended precision, factors checked to be isometries, their product compared with the tensor or the "
            "distance with the discarded weight; non-trivial: more than one element and at least one singular value",
}
PROPS["P08"] = {
    "units": grid("p08.cpp", (25000, 1200000)),
    "rule": "random tensors decomposed over every kind of bipartition, naming either side; product, isometry, dimension of the new edge and triangular shape checked; "
            "non-trivial: more than one element and a new edge of positive dimension",
}
PROPS["P09"] = {
    "units": grid("p09.cpp", (25000, 1200000)),
    "rule": "random operators with 0-3 pairs of edges in any order (fermionic: one pair), zero, tiny, large and nilpotent values, Pade orders 1-11; compared with the "
            "extended-precision Taylor exponential within the Pade remainder and rounding bound; identities compared exactly and tested to be neutral; non-trivial: more "
            "than one element",
}
PROPS["P10"] = {
    "units": grid("p10.cpp", (25000, 1200000)),
    "rule": "random tensors conjugated once and twice, all norms compared with sums over the stored elements, full contraction with the conjugate; non-trivial: more than "
            "one stored element",
}
PROPS["P11"] = {
    "units": with_other(grid("p11.cpp", (10000, 500000))),
    "rule": "random pairs of tensors with the same edge names in different orders and with quantum numbers of their own, and tensors with numbers, under + - * / in and out "
            "of place, on shared and unshared data, mixed scalar types, all conversions; compared element by element; non-trivial: more than one element",
}
PROPS["P13"] = {
    "units": grid("p13.cpp", (25000, 1200000)),
    "rule": "elements and blocks read and written at random coordinates, random subsets of edges fixed with and without a new edge, random expansions with and without an "
            "old edge and their reversal; compared with plain indexing and with the signed model; non-trivial: more than one element",
}

HISTORY = ("random histories of 5-40 operations (creation, copy, sharing, renaming, transposition, edge operations, merging, reversal, contraction incl. with itself, trace, "
           "SVD, QR, exponential, identity, conjugation, arithmetic, conversion, shrink, expand, binary and text input and output, and all ways of changing a tensor in place) "
           "on a pool of up to 9 tensors that share data; ")
PROPS["P01"] = {
    "units": grid("history.cpp", (8000, 300000), env={"VERIF_JUDGE": "[P01]"}),
    "rule": HISTORY + "every result is checked for well-formedness (names, lookup, exactly the zero-charge blocks, block sizes, no unused quantum number) after every step; "
            "distinct: different sequences of operations",
}
PROPS["P12"] = {
    "units": grid("history.cpp", (8000, 300000), quick=["No/Z", "No/S", "Z2/D", "U1/Z", "U1/S", "Fermi/D", "FermiZ2/C", "FermiU1/Z"], env={"VERIF_JUDGE": "[P12]"}),
    "rule": HISTORY + "after every step the bit image of every tensor of the pool except the one asked to change is compared with its recorded image, and the changed one with "
            "the same change on a private copy; distinct: different sequences of operations",
}
SAN_QUICK = [("history.cpp", "No/D", 700), ("history.cpp", "FermiU1/Z", 700), ("history.cpp", "U1/C", 700), ("p02.cpp", "Fermi/S", 400), ("p02.cpp", "No/C", 400), ("p03.cpp", "FermiZ2/D", 2500),
             ("p03.cpp", "Z2/S", 1500), ("contract.cpp", "No/Z", 2500), ("contract.cpp", "Fermi/D", 2500), ("contract.cpp", "Z2/S", 2500), ("p06.cpp", "U1/D", 2500),
             ("p07.cpp", "FermiU1/S", 1200), ("p07.cpp", "Z2/C", 1200), ("p08.cpp", "U1/Z", 1200), ("p08.cpp", "Fermi/D", 1200), ("p09.cpp", "No/D", 1200), ("p09.cpp", "U1/Z", 1200),
             ("p10.cpp", "FermiZ2/Z", 1500), ("p11.cpp", "U1/S", 800), ("p13.cpp", "Fermi/C", 1500), ("p13.cpp", "No/D", 1500),
             ("p14.cpp", "FermiU1/D", 1000), ("p15.cpp", "U1/C", 600), ("p21.cpp", "Fermi/D", 600), ("p21.cpp", "No/S", 600), ("p29.cpp", "FermiU1/Z", 800), ("p29.cpp", "No/C", 800)]
SAN_ALL = sorted({s for s, _, _ in SAN_QUICK})
SAN_LATTICE = [("p22.cpp", "D", 500), ("p23.cpp", "Z", 100), ("p24.cpp", "D", 300), ("p25.cpp", "D", 60), ("p26.cpp", "Z", 200)]


def sanitized(tier):
    r = []
    todo = SAN_QUICK if tier == "quick" else [(s, c, 40000) for s in SAN_ALL for c in COVER]
    for i, (src, c, n) in enumerate(todo):
        s, v = c.split("/")
        heap = i % 2 == 0
        r.append({"name": "asan-%s-%s-%s%s" % (src.split(".")[0], s, v, "-heap" if heap else ""), "src": src, "cases": (n, n), "flags": "asan", "other_property": True, "env": {"VERIF_JUDGE": "[P20]"},
                  "defines": ["-DSYM=" + SYMS[s], "-DSCALAR=" + SCALARS[v], "-DOTHER=" + SCALARS[v]] + (["-DTAT_VERIF_HEAP_SCOPE"] if heap else [])})
    for src, v, n in SAN_LATTICE:
        r.append({"name": "asan-%s-%s" % (src.split(".")[0], v), "src": src, "cases": (n, 40 * n), "flags": "asan", "mpi": True, "np": 1, "limit": (60, 600), "other_property": True,
                  # MPI itself keeps memory until the end, so leaks are not judged here
                  "env": {"VERIF_JUDGE": "[P20]", "ASAN_OPTIONS": "detect_leaks=0:max_malloc_fill_size=1073741824:malloc_fill_byte=255:detect_stack_use_after_return=1:exitcode=66"}, "defines": ["-DSCALAR=" + SCALARS[v]]})
    r.append({"name": "asan-lazy", "src": "p17.cpp", "cases": (8000, 400000), "flags": "asan", "other_property": True, "env": {"VERIF_JUDGE": "[P20]"}, "defines": []})
    r.append({"name": "asan-working-memory", "src": "p20pmr.cpp", "cases": (6000, 400000), "flags": "asan", "env": {"VERIF_JUDGE": "[P20]"}, "defines": []})
    for c in ["No/D", "FermiU1/S", "U1/Z"]:
        s, v = c.split("/")
        r.append({"name": "memcheck-history-%s-%s" % (s, v), "src": "history.cpp", "cases": (60, 4000), "flags": "plain", "env": {"VERIF_JUDGE": "[P20]"},
                  "wrap": ["valgrind", "--error-exitcode=66", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite", "-q"],
                  "defines": ["-DSYM=" + SYMS[s], "-DSCALAR=" + SCALARS[v], "-g1"]})
    return r


PROPS["P20"] = {
    "units": sanitized,
    "technique": "runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions and Valgrind memcheck on the library under random workloads",
    "rule": "the workloads of the other properties and random operation histories, run under AddressSanitizer + UndefinedBehaviorSanitizer + LeakSanitizer (with the library's "
            "working-memory buffers as they are, and with every working-memory allocation on the heap) and under Valgrind memcheck for uninitialised reads; the working-memory "
            "allocator and its containers directly (alignment, bounds, disjointness, return of memory); the default memory resource is checked to be restored after every step; non-trivial as for the workload's own property",
}
PROPS["P14"] = {
    "units": grid("p14.cpp", (20000, 400000)),
    "rule": "1-6 random objects (tensors of rank 0-6 with arbitrary bit patterns incl. NaN, infinities, signed zeros and denormals, with names of arbitrary bytes, edges, names, "
            "quantum numbers, singular values, dumps) written one after another and read back over fresh and over occupied objects; bit images, the position in the "
            "stream and what follows are compared; the name dictionary is dumped, other names made, and read back; non-trivial: all",
}
PROPS["P15"] = {
    "units": grid("p15.cpp", (20000, 400000)),
    "rule": "random tensors and singular values printed with 1-6 or all digits, several in one stream, read back over fresh and occupied objects; structure compared exactly, "
            "elements to the digits printed (exactly with all digits), text again after reading; non-trivial: all",
}
PROPS["P18"] = {
    "units": grid("p18.cpp", (15000, 300000)),
    "rule": "names made from random, near-identical, numeric, binary and empty texts by both constructors, against a dictionary of our own: equality, identity, text, order axioms on "
            "random triples, after saving and restoring the dictionary at random times; and random edge operations, contractions, traces, exponentials, decompositions, "
            "arithmetic and merges carried out twice with names first used in different orders; non-trivial: all",
}
PROPS["P21"] = {
    "units": grid("p21.cpp", (40000, 1000000)),
    "rule": "32 kinds of requests that cannot be honoured, each on random tensors; the request has to end in an exception with a message, every operand has to keep its bit image, and "
            "operations carried out afterwards have to give the bits they gave before; non-trivial: every kind is counted",
}


def ranks(tier):
    r = []
    plan = list(zip(COVER, [1, 2, 3, 4, 5, 6, 7, 8])) if tier == "quick" else [(c, n) for i, c in enumerate(ALL) for n in {1 + i % 8, 2 + (i + 3) % 7, 12 if i % 4 == 0 else 3}]
    for c, n in plan:
        s, v = c.split("/")
        r.append({"name": "p16-%s-%s-np%d" % (s, v, n), "src": "p16.cpp", "cases": (6000, 60000), "mpi": True, "np": n, "grace": 150, "limit": (40, 200),
                  "defines": ["-DSYM=" + SYMS[s], "-DSCALAR=" + SCALARS[v]]})
    return r


PROPS["P16"] = {
    "units": ranks,
    "technique": "runtime monitoring: real MPI processes with injected delays and synchronous sends (PMPI interposition), online checking of delivered values, leftover messages, "
                 "barrier times and progress",
    "rule": "1-8 real processes (thorough: up to 12) run random programs of broadcasts, reductions, transfers, rings, barriers without synchronisation in between, random roots, sends "
            "that complete early or only when received, random delays; delivered tensors compared bit for bit, contributions counted, leftover messages and lack of progress detected; "
            "distinct: different programs",
}
PROPS["P17"] = {
    "units": lambda tier: [
        {"name": "p17-plain", "src": "p17.cpp", "cases": (400000, 10000000), "flags": "plain"},
        {"name": "p17-asan", "src": "p17.cpp", "cases": (40000, 1000000), "flags": "asan"},
    ],
    "rule": "random dags of values, nodes and paths of two types in two graphs; random updates (also to the same value), reads, new and dropped nodes, failing computations, snapshots and "
            "restores in any order; values compared with direct evaluation, every computation of a node counted; distinct: different histories",
}
PROPS["P29"] = {
    "units": grid("p29.cpp", (12000, 600000)),
    "rule": "random edges (every constructor) and tensors of rank 0-6 (also of one element, of a number, with unusable quantum numbers, with automatic arrows, from several kinds of container) "
            "built, filled, mapped, cleared, weighted on an edge and renamed to another type of name; every generator and mapping call counted and every element compared with the "
            "documented storage order; sums, negations and comparisons of quantum numbers compared with integer arithmetic; non-trivial: more than one element",
}
VARIANTS = {
    "name": ["-DTAT_USE_SIMPLE_NAME"],
    "simple": ["-DTAT_USE_SIMPLE_NOSYMMETRY", "-U_GLIBCXX_ASSERTIONS"],  # its block keys are empty lists that the library indexes
    "matrix": ["-DTAT_USE_SINGULAR_MATRIX"],
    "cache": ["-DTAT_L1_CACHE=128", "-DTAT_L2_CACHE=1024", "-DTAT_L3_CACHE=8192"],
    "cache3": ["-DTAT_L1_CACHE=64", "-DTAT_L2_CACHE=512", "-DTAT_L3_CACHE=4096", "-DTAT_USE_L3_CACHE"],
    "timer": ["-DTAT_USE_TIMER", "-DTAT_USE_VALID_DEFAULT_TENSOR"],
    "mkl": ["-DTAT_USE_MKL_TRANSPOSE", "-DTAT_USE_MKL_GEMM_BATCH"],  # served by stand-ins with MKL's documented semantics
    "warn": ["-UTAT_ERROR_BITS", "-UTAT_NOTHING_BITS"],
    "all": ["-DTAT_USE_SIMPLE_NAME", "-DTAT_USE_SIMPLE_NOSYMMETRY", "-U_GLIBCXX_ASSERTIONS", "-DTAT_USE_TIMER", "-DTAT_USE_VALID_DEFAULT_TENSOR",
            "-DTAT_L1_CACHE=256", "-DTAT_L2_CACHE=1024"],
}


def options(tier):
    r = []
    plan = [
        ("p02.cpp", "cache", "No/D", 3000), ("p02.cpp", "cache3", "U1/C", 3000), ("p02.cpp", "all", "Fermi/S", 2000), ("p02.cpp", "simple", "No/Z", 2000),
        ("p03.cpp", "name", "FermiU1/D", 10000), ("p03.cpp", "simple", "No/S", 10000), ("p03.cpp", "timer", "U1/Z", 10000),
        ("contract.cpp", "simple", "No/D", 20000), ("contract.cpp", "name", "Z2/Z", 20000), ("contract.cpp", "name", "No/C", 20000), ("contract.cpp", "all", "FermiZ2/D", 20000),
        ("contract.cpp", "mkl", "No/D", 20000), ("contract.cpp", "mkl", "U1/Z", 20000), ("contract.cpp", "mkl", "FermiU1/S", 20000), ("p02.cpp", "mkl", "Z2/C", 2000),
        ("p29.cpp", "simple", "No/D", 4000), ("p29.cpp", "name", "FermiU1/Z", 4000),
        ("p06.cpp", "name", "FermiU1/Z", 20000), ("p06.cpp", "simple", "No/D", 20000),
        ("p07.cpp", "matrix", "U1/D", 10000), ("p07.cpp", "matrix", "No/Z", 10000), ("p07.cpp", "matrix", "FermiU1/D", 10000), ("p07.cpp", "simple", "No/S", 10000),
        ("p07.cpp", "name", "Z2/Z", 10000),
        ("p08.cpp", "all", "No/D", 10000), ("p08.cpp", "name", "FermiU1/Z", 10000),
        ("p09.cpp", "simple", "No/D", 10000), ("p09.cpp", "name", "U1/Z", 10000),
        ("p10.cpp", "all", "No/Z", 10000), ("p11.cpp", "simple", "No/D", 5000), ("p11.cpp", "name", "FermiZ2/C", 5000),
        ("p13.cpp", "simple", "No/C", 10000), ("p13.cpp", "name", "FermiU1/D", 10000),
        ("p14.cpp", "all", "No/D", 6000), ("p14.cpp", "name", "U1/Z", 6000), ("p15.cpp", "simple", "No/Z", 6000), ("p15.cpp", "name", "FermiU1/D", 6000),
    ]
    if tier != "quick":
        plan = [(s, v, c, 40000) for s in ("p02.cpp", "p03.cpp", "contract.cpp", "p06.cpp", "p07.cpp", "p08.cpp", "p09.cpp", "p10.cpp", "p11.cpp", "p13.cpp", "p14.cpp", "p15.cpp", "p29.cpp")
                for v in VARIANTS for c in ("No/D", "U1/Z", "FermiU1/D", "Z2/C") if not (v == "matrix" and s != "p07.cpp") and not (v == "simple" and not c.startswith("No"))]
    for src, var, c, n in plan:
        s, v = c.split("/")
        r.append({"name": "%s-%s-%s-%s" % (src.split(".")[0], s, v, var), "src": src, "cases": (n, n), "flags": "plain", "other_property": True,
                  "base": ["-DSYM=" + SYMS[s], "-DSCALAR=" + SCALARS[v], "-DOTHER=" + SCALARS[v]],
                  "defines": ["-DSYM=" + SYMS[s], "-DSCALAR=" + SCALARS[v], "-DOTHER=" + SCALARS[v]] + VARIANTS[var]})
    for c in ["No/D", "No/Z", "U1/D", "FermiU1/Z"] if tier == "quick" else COVER:
        s, v = c.split("/")
        variants = [("default", [], True), ("all", VARIANTS["all"], False), ("cache", VARIANTS["cache3"], True), ("timer", VARIANTS["timer"] + VARIANTS["warn"], True)]
        if s == "No":
            variants.append(("simple", VARIANTS["simple"], False))  # writes the representation of its edges
        r.append({"name": "p19-%s-%s" % (s, v), "src": "p19.cpp", "cases": (3000, 60000), "flags": "plain", "variants": variants, "defines": ["-DSYM=" + SYMS[s], "-DSCALAR=" + SCALARS[v]]})
    return r


PROPS["P19"] = {
    "units": options,
    "rule": "the monitors of the other properties, whose oracle does not know the build options, run in builds with plain-string names, the simplified representation, matrix-form singular "
            "values, tiny caches, timers, valid default tensors and visible warnings; and one program run in several builds whose printed texts, written bytes and values are "
            "compared line by line; non-trivial as for the workload's own property",
}


def lattices(src, cases, nps=(1,), extra=(), scalars=("D", "Z"), limit=(40, 600)):
    def units(tier):
        r = []
        for v in scalars:
            for n in nps:
                r.append({"name": "%s-%s%s" % (src.split(".")[0], v, "-np%d" % n if len(nps) > 1 else ""), "src": src, "cases": cases, "mpi": True, "np": n, "grace": 150, "limit": limit,
                          "defines": ["-DSCALAR=" + SCALARS[v]]})
        for name, cs, d in extra:
            for v in scalars:
                r.append({"name": "%s-%s-%s" % (src.split(".")[0], name, v), "src": src, "cases": cs, "mpi": True, "np": 1, "limit": limit, "defines": ["-DSCALAR=" + SCALARS[v]] + d})
        return r
    return units


PROPS["P22"] = {
    "units": lattices("p22.cpp", (15000, 400000)),
    "rule": "random lattices up to 8 sites, real and complex, Hamiltonians from all setters and arbitrary terms on up to 3 sites in any order (dense, sparse, diagonal, conserving), histories of "
            "steps and measurements of operators on up to 3 sites; state vectors, expectation values and energies compared with the dense Hamiltonian; non-trivial: more than one site",
}
PROPS["P23"] = {
    "units": lattices("p23.cpp", (2500, 60000), nps=(1, 2, 3, 4)),
    "rule": "random networks up to 6 sites with and without bond weights, truncated before or not, edges in any order; untruncated updates by one gate, by commuting gates and by small steps of "
            "non-commuting gates, conversions in all directions, truncated updates; the contracted network compared with the dense evolution, on 1-4 processes with injected delays; "
            "non-trivial: more than one site",
}
PROPS["P24"] = {
    "units": lattices("p24.cpp", (8000, 200000)),
    "rule": "random networks up to 12 sites with bond dimensions 1-3 (bonds of their own dimension, sparse, vanishing, integer, badly scaled, product networks cut to one component), histories of "
            "3-25 changes, reads with up to two replaced tensors, holes, all hints, copies, assignments, moves and changes of bond dimension on up to 4 systems; every value compared with the "
            "brute-force contraction of a shadow lattice; non-trivial: more than one site",
}
PROPS["P25"] = {
    "units": lattices("p25.cpp", (2000, 60000), extra=[("stationary", (30, 2000), ["-DSTATIONARY"])]),
    "rule": "random sampling lattices up to 9 sites, Hamiltonians of all kinds on sites and bonds in both orders, observables; amplitudes of arbitrary configurations and replacements, enumeration "
            "averages, chains of 1-6 samples whose visited configurations are recovered by rerunning the chain, their averages, squared errors and gradients recomputed from the dense state; "
            "and sweeps from configurations drawn from the exact distribution, tested by chi square to leave it unchanged; non-trivial: all",
}
PROPS["P26"] = {
    "units": lattices("p26.cpp", (4000, 100000)),
    "rule": "1-4 random lattices of all three kinds at any point of their life written to one stream or file and read into empty or used lattices; every member compared bit for bit, then the "
            "original and the restored lattice evolve, sample and measure alike; non-trivial: all",
}


def python_module(build, repo, tier):
    """The Python module from the working tree, next to the drivers."""
    import os
    import subprocess
    import sysconfig
    import time
    from check import CheckError, log
    target = os.path.join(build, "TAT" + sysconfig.get_config_var("EXT_SUFFIX"))
    errors = ""
    for cxx in ("clang++", "g++"):  # clang needs half of the time and memory
        t = time.time()
        env = dict(os.environ, OMPI_CXX=cxx)
        obj = os.path.join(build, "module.o")
        flags = ["-O0", "-std=c++17", "-w", "-fPIC", "-fvisibility=hidden", '-DTAT_BUILD_TYPE="verif"', '-DTAT_COMPILER_INFORMATION="verif"', "-DTAT_PYTHON_MODULE=TAT",
                 "-DTAT_USE_MPI", '-DTAT_VERSION="verif"', "-DTAT_ERROR_BITS=1", "-DTAT_NOTHING_BITS=6", "-I" + os.path.join(repo, "include"),
                 "-isystem", sysconfig.get_paths()["include"]]
        for cmd in (["mpicxx"] + flags + ["-c", "-o", obj, os.path.join(repo, "PyTAT", "PyTAT.cpp")], ["mpicxx", "-shared", "-o", target, obj, "-llapack", "-lblas"]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
            if p.returncode != 0:
                errors += p.stdout.decode("utf-8", "replace")[:3000]
                break
        else:
            os.remove(obj)
            log("compiled %-40s %5.1f s" % ("the Python module with " + cxx, time.time() - t))
            return
    raise CheckError("cannot build the Python module:\n" + errors)


PYENV = {"PYTHONPATH": "@BUILD@:@REPO@:/opt/vp/py:@HERE@/harness", "PYTHONHASHSEED": "0"}


def python_kinds(tier):
    r = []
    for kinds in ["No", "Z2", "U1", "Fermi", "FermiZ2", "FermiU1"]:
        r.append({"name": "p27-%s" % kinds.replace(" ", ""), "src": "p27.py", "kind": "py", "cases": (1200, 60000), "limit": (60, 900), "env": dict(PYENV, VERIF_KINDS=kinds)})
    for np in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5, 7, 8):
        r.append({"name": "p27mpi-np%d" % np, "src": "p27mpi.py", "kind": "py", "mpi": True, "np": np, "cases": (600, 20000), "env": dict(PYENV, VERIF_NP=str(np))})
    return r


PROPS["P27"] = {
    "prepare": python_module,
    "units": python_kinds,
    "technique": "runtime monitor: the Python module, built from the tree, against an element-wise model and numpy on randomised operation histories",
    "rule": "random tensors of all symmetries and scalar types written and read from Python element by element, by block, by view, in every order and every way to name a block; edge operations, "
            "contraction, trace, decompositions, exponential, conjugation, arithmetic in and out of place, slices, conversion, pickling, binary and text storage, histories of copies, views and "
            "modifications, comparison and hashing of names and quantum numbers, transfers and collectives on 2-4 processes; compared element by element with a dictionary model; "
            "non-trivial: a distinct description of operands and operation",
}


def python_lattices(tier):
    r = []
    for part, cases, env in (("exact", (2500, 60000), {}), ("auxiliaries", (3500, 80000), {}), ("simple_update", (2500, 60000), {}), ("sampling", (3000, 80000), {}),
                             ("stationary", (100, 3000), {"VERIF_SAMPLES": "1500"})):
        for salt in (0, 1) if part in ("auxiliaries", "sampling") else (0,):
            r.append({"name": "p28-%s%s" % (part, "-2" if salt else ""), "src": "p28.py", "kind": "py", "cases": cases, "limit": (60, 900),
                      "env": dict(PYENV, VERIF_PARTS=part, VERIF_SQUARE="@REPO@/square", VERIF_SALT=str(salt), **env)})
    return r


PROPS["P28"] = {
    "prepare": python_module,
    "units": python_lattices,
    "technique": "runtime monitor: the Python lattice package on the module built from the tree, against dense linear algebra on randomised operation histories",
    "rule": "random lattices up to 8 sites (environments up to 12) with random Hamiltonians from all setters and arbitrary terms in any site order; histories of updates, measurements, copies, "
            "pickling and conversions of exact lattices, simple update lattices and sampling lattices; environments read whole, with holes and with replaced tensors after any history of setting, "
            "deleting, copying and combining; enumeration sums, chains whose visited configurations are recovered by rerunning them, and sweeps tested by chi square to leave the exact "
            "distribution unchanged; non-trivial: a distinct lattice and history",
}
