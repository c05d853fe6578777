"""P28: the Python lattices (square/*.py) against dense linear algebra."""
import contextlib
import copy
import io
import itertools
import os
import pickle
import re
import sys

import numpy as np

import pymon as mon

import TAT
import square
from square import ExactLattice, SamplingGradientLattice, SimpleUpdateLattice, SquareAuxiliariesSystem
from square.sampling_gradient_lattice import SpinConfiguration

D, Z = TAT.Tensor.DNo, TAT.Tensor.ZNo


# ---------------------------------------------------------------- arrays and tensors
def to_tensor(r, names, array, shuffle=True):
    order = list(range(len(names)))
    if shuffle:
        r.shuffle(order)
    T = (Z if np.iscomplexobj(array) else D)([names[i] for i in order], [array.shape[i] for i in order])
    T.block[[names[i] for i in order]] = np.transpose(array, order) if order else array
    return T


def to_array(T, names):
    got = [str(n) for n in T.name]
    mon.require(sorted(got) == sorted(names), "edges %r, expected %r" % (got, list(names)))
    return np.array(T.block[list(names)]) if names else np.array(T[{}])


def close(got, want, tol, what):
    got, want = np.asarray(got), np.asarray(want)
    mon.observe(max(1, got.size))
    if got.shape != want.shape:
        raise mon.Bad("%s: shape %r, expected %r" % (what, got.shape, want.shape))
    if not np.all(np.isfinite(got)):
        raise mon.Bad("%s: not finite" % what)
    if got.size and not np.max(np.abs(got - want)) <= tol:
        raise mon.Bad("%s: off by %g (allowed %g): %s instead of %s" % (what, np.max(np.abs(got - want)), tol, str(got.ravel()[:6]), str(want.ravel()[:6])))


def parallel(got, want, tol, what):
    """equal up to a factor"""
    a, b = np.asarray(got).ravel(), np.asarray(want).ravel()
    if not np.all(np.isfinite(a)):
        raise mon.Bad("%s: not finite" % what)
    na, nb = np.linalg.norm(a), np.linalg.norm(b)
    if nb == 0 or na == 0:
        close(na, nb, 0, what)
        return
    a, b = a / na, b / nb
    if np.vdot(a, b).real < 0:
        a = -a
    close(a, b, tol, what)


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        yield out


# ---------------------------------------------------------------- dense Hamiltonians
def site_number(M, N, p):
    return p[0] * N + p[1]


def apply_op(psi, op, sites):
    """op[in..., out...]"""
    k = len(sites)
    res = np.tensordot(psi, op, axes=(list(sites), list(range(k))))
    return np.moveaxis(res, list(range(psi.ndim - k, psi.ndim)), list(sites))


def op_names(k):
    return ["I%d" % i for i in range(k)] + ["O%d" % i for i in range(k)]


def rand_op(r, d, k, symmetric=True, kind=None, cplx=False):
    n = d ** k
    kind = r.choice(["dense", "dense", "sparse", "diagonal", "conserving", "zero-rows"]) if kind is None else kind
    g = np.random.default_rng(r.randrange(1 << 30))
    a = g.normal(size=(n, n))
    if cplx:
        a = a + 1j * g.normal(size=(n, n))
    if kind == "sparse":
        a = a * (g.random(size=(n, n)) < 0.25)
    elif kind == "diagonal":
        a = np.diag(np.diag(a))
    elif kind == "conserving":
        q = np.array([sum(s) for s in itertools.product(range(d), repeat=k)])
        a = a * (q[:, None] == q[None, :])
    elif kind == "zero-rows":
        keep = g.random(size=n) < 0.5
        a = a * keep[:, None] * keep[None, :]
    if symmetric:
        a = (a + a.conj().T) / 2
    return a.reshape((d,) * (2 * k))


class Model:
    """shape and Hamiltonian"""

    def __init__(self, r, limit, neighbours, dmax=3):
        self.r = r
        while True:
            self.d = 2 if r.chance(75) else r.range(1, dmax)
            self.M, self.N = r.range(1, 4), r.range(1, 4)
            if self.M * self.N > 8 or self.d ** (self.M * self.N) > limit:
                continue
            break
        self.n = self.M * self.N
        self.terms = {}
        self.neighbours = neighbours

    def sites(self):
        return list(itertools.product(range(self.M), range(self.N)))

    def bonds(self):
        return [((i, j), (i, j + 1)) for i in range(self.M) for j in range(self.N - 1)] + [((i, j), (i + 1, j)) for i in range(self.M - 1) for j in range(self.N)]

    def setters(self, lattice):
        r = self.r
        for name, k, where in (("single_site", 1, [(s,) for s in self.sites()]), ("vertical_bond", 2, [b for b in self.bonds() if b[0][1] == b[1][1]]),
                               ("horizontal_bond", 2, [b for b in self.bonds() if b[0][0] == b[1][0]])):
            if r.chance(40):
                op = rand_op(r, self.d, k, self.symmetric)
                T = to_tensor(r, op_names(k), op)
                setattr(lattice, name + "_hamiltonian", T)
                for w in where:
                    self.terms[w] = op
                if where and r.chance(20):
                    before = dict(lattice.hamiltonian)
                    try:
                        setattr(lattice, name + "_hamiltonian", T)
                        raise mon.Bad("a Hamiltonian term was set twice")
                    except ValueError:
                        pass
                    mon.require(list(lattice.hamiltonian) == list(before), "a refused setting changed the Hamiltonian")

    symmetric = True

    def add_terms(self, lattice, most):
        r = self.r
        for _ in range(r.range(0 if self.terms else 1, most)):
            if self.neighbours:
                p = r.choice([(s,) for s in self.sites()] + self.bonds() * 2)
                p = tuple(reversed(p)) if r.chance(40) else p
            else:
                p = tuple(r.sample(self.sites(), r.range(1, min(3, self.n))))
            if self.d ** (2 * len(p)) > 4096:
                continue
            op = rand_op(r, self.d, len(p), self.symmetric)
            lattice.hamiltonian[p] = to_tensor(r, op_names(len(p)), op)
            self.terms[p] = op

    def index(self, p):
        return [site_number(self.M, self.N, x) for x in p]

    def apply(self, psi, terms=None):
        res = np.zeros_like(psi)
        for p, op in (self.terms if terms is None else terms).items():
            res = res + apply_op(psi, op, self.index(p))
        return res

    def expect(self, psi, p, op):
        return np.sum(psi * apply_op(psi.astype(op.dtype) if np.iscomplexobj(op) else psi, op, self.index(p)))

    def names(self):
        return ["P-%d-%d" % s for s in self.sites()]

    def scale(self):
        return sum(np.sum(np.abs(op)) for op in self.terms.values()) + 1

    def __repr__(self):
        return "%dx%d d=%d terms %s" % (self.M, self.N, self.d, sorted(self.terms))


def vector_of(m, lattice):
    return to_array(lattice.vector, m.names())


# ---------------------------------------------------------------- the exact lattice
def check_exact(m, lattice, psi, r, what):
    """measurements on an exact lattice with the state psi"""
    norm = np.sum(psi * psi)
    close(lattice.denominator(), norm, 1e-10 * norm, what + ": norm")
    if m.terms:
        e = sum(m.expect(psi, p, op) for p, op in m.terms.items()) / norm / m.n
        close(lattice.observe_energy(), e, 1e-9 * m.scale(), what + ": energy")
    for _ in range(r.range(1, 3)):
        p = tuple(r.sample(m.sites(), r.range(1, min(3, m.n))))
        if m.d ** (2 * len(p)) > 4096:
            continue
        op = rand_op(r, m.d, len(p), r.chance(50), cplx=r.chance(30))
        with_norm = r.chance(70)
        v = m.expect(psi, p, op).real / (norm if with_norm else 1)
        got = lattice.observe(p, to_tensor(r, op_names(len(p)), op), *([] if with_norm and r.chance(50) else [with_norm]))
        mon.require(isinstance(got, float), what + ": type of an expectation value")
        close(got, v, 1e-9 * (np.sum(np.abs(op)) + 1) * (1 if with_norm else norm), what + ": expectation value at %r" % (p,))
        mon.count("expectation values")


def exact(r):
    m = Model(r, 800, False)
    m.symmetric = r.chance(60)
    mon.describe("exact %r" % m)
    lattice = ExactLattice(m.M, m.N, d=m.d)
    m.setters(lattice)
    m.add_terms(lattice, 4)
    mon.describe("exact %r" % m)
    psi = vector_of(m, lattice)
    close(np.max(np.abs(psi)), 1, 1e-12, "norm of the first vector")
    if r.chance(50):
        psi = np.random.default_rng(r.randrange(1 << 30)).normal(size=(m.d,) * m.n)
        lattice.vector = to_tensor(r, m.names(), psi)
    pool = [[lattice, psi]]
    log = []
    for _ in range(r.range(1, 6)):
        one = r.choice(pool)
        what = r.choice(["update", "update", "measure", "copy", "pickle"])
        log.append(what)
        if what == "update":
            time, shift = r.range(1, 3), r.choice([-0.5, 0.3, 2.0, 50.0])
            a = abs(shift) * m.n
            for _ in range(time):
                new = a * one[1] - m.apply(one[1])
                top = np.max(np.abs(new))
                if top < 1e-6 * (np.max(np.abs(one[1])) * (a + m.scale())):
                    break
                one[1] = new / top
                with quiet() as out:
                    e = one[0].update(1, shift, True) if r.chance(20) else one[0].update(1, shift) if r.chance(80) else one[0].update(approximate_energy=shift)
                close(e, (a - top) / m.n, 1e-9 * (a + m.scale()) * max(1, np.max(np.abs(one[1]))), "returned energy")
                if out.getvalue():
                    close(float(out.getvalue()), e, 1e-9 * (abs(e) + 1), "printed energy")
            mon.count("exact updates", time)
        elif what == "measure":
            check_exact(m, one[0], one[1], r, "exact")
        elif what == "copy" and len(pool) < 4:
            pool.append([ExactLattice(one[0]), one[1]])
            mon.count("copies")
        elif what == "pickle" and len(pool) < 4:
            pool.append([pickle.loads(pickle.dumps(one[0])), one[1]])
            mon.count("pickled lattices")
        mon.describe("exact %r %s" % (m, " ".join(log)))
        for l, v in pool:
            close(vector_of(m, l), v, 1e-9 * max(1, np.max(np.abs(v))), "state vector")
    mon.nontrivial("exact %r %s" % (m, " ".join(log)))


# ---------------------------------------------------------------- networks
DIRECTIONS = {"L": (0, -1), "R": (0, 1), "U": (-1, 0), "D": (1, 0)}
OPPOSITE = {"L": "R", "R": "L", "U": "D", "D": "U"}


def edges_of(M, N, p):
    return [x for x, (a, b) in DIRECTIONS.items() if 0 <= p[0] + a < M and 0 <= p[1] + b < N]


def bond_of(p, x):
    a, b = DIRECTIONS[x]
    return frozenset([p, (p[0] + a, p[1] + b)])


def contract_network(M, N, arrays, physical, holes=()):
    """arrays: {site: (names, array)}; names L R U D are bonds, others are kept. Result: axes sorted as (site, name)"""
    label, args, keep = {}, [], []

    def number(key):
        return label.setdefault(key, len(label))
    for p in itertools.product(range(M), range(N)):
        if p in holes:
            continue
        names, a = arrays[p]
        ids = []
        for x in names:
            if x in DIRECTIONS:
                b = bond_of(p, x)
                if b & set(holes):
                    key = ("hole", b)
                else:
                    key = ("bond", b)
                ids.append(number(key))
            else:
                key = (p, x)
                keep.append(key)
                ids.append(number(key))
        args += [a, ids]
    # edges between two holes do not appear
    open_bonds = []
    for k, h in enumerate(holes):
        for x in edges_of(M, N, h):
            b = bond_of(h, x)
            if not b <= set(holes):
                open_bonds.append(("%s%d" % (x, k), number(("hole", b))))
    out = [number(k) for k in keep] + [n for _, n in open_bonds]
    if not args:
        return np.array(1.0), keep, [n for n, _ in open_bonds]
    res = np.einsum(*args, out, optimize="greedy")
    return res, keep, [n for n, _ in open_bonds]


def rand_bonds(r, M, N, most):
    dims = {}
    for p in itertools.product(range(M), range(N)):
        for x in ("R", "D"):
            if x in edges_of(M, N, p):
                dims[bond_of(p, x)] = r.range(1, most)
    return dims


def rand_site(r, M, N, p, dims, extra=()):
    g = np.random.default_rng(r.randrange(1 << 30))
    names = edges_of(M, N, p) + [n for n, _ in extra]
    shape = [dims[bond_of(p, x)] for x in edges_of(M, N, p)] + [d for _, d in extra]
    a = g.normal(size=shape)
    style = r.randrange(10)
    if style == 0:
        a = a * (g.random(size=shape) < 0.4)
    elif style == 1:
        a = np.round(a * 2)
    elif style == 2:
        a = np.ones(shape)
    return names, a


# ---------------------------------------------------------------- environments
def auxiliaries(r):
    while True:
        M, N = r.range(1, 4), r.range(1, 4)
        if M * N <= 12:
            break
    dims = rand_bonds(r, M, N, 3 if M * N <= 6 else 2)
    sites = list(itertools.product(range(M), range(N)))
    bonds = [tuple(sorted(b)) for b in dims]
    cut = 100000
    first = SquareAuxiliariesSystem(M, N, cut)
    pool = [[first, {}]]
    log = ["%dx%d %s" % (M, N, sorted(dims.values()))]

    def scale(arrays):
        s = 1.0
        for _, a in arrays.values():
            s *= np.linalg.norm(a) + 1e-300
        return s

    def read(one):
        system, shadow = one
        missing = [p for p in sites if p not in shadow]
        how = r.choice(["all", "hole1", "hole2", "one", "two", "two", "none"])
        if how in ("all", "none"):
            if missing:
                return None
            v, _, _ = contract_network(M, N, shadow, False)
            got = system[None] if how == "all" else system[()] if r.chance(50) else system[{}]
            close(to_array(got, []), v, 1e-10 * scale(shadow), "contraction of the network")
            return how
        if how in ("hole1", "hole2"):
            if how == "hole1":
                holes = (r.choice(missing if missing else sites),)
            elif bonds:
                holes = r.choice(bonds)
                holes = tuple(reversed(holes)) if r.chance(50) else holes
            else:
                return None
            if not set(missing) <= set(holes):
                return None
            v, _, names = contract_network(M, N, shadow, False, holes)
            got = to_array(system[tuple(holes)], names)
            close(got, v, 1e-10 * scale({p: a for p, a in shadow.items() if p not in holes}), "hole at %r" % (holes,))
            return "%s %r" % (how, holes)
        if how == "one":
            positions = (r.choice(missing if missing else sites),)
        elif bonds:
            positions = r.choice(bonds)
            positions = tuple(reversed(positions)) if r.chance(50) else positions
        else:
            return None
        if not set(missing) <= set(positions):
            return None
        new = dict(shadow)
        replacement = {}
        for k, p in enumerate(positions):
            extra = [("X%d" % k, 2)] if r.chance(15) else []
            new[p] = rand_site(r, M, N, p, dims, extra)
            replacement[p] = to_tensor(r, *new[p])
        v, keep, _ = contract_network(M, N, new, False)
        got = to_array(system[replacement], [x for _, x in keep])
        close(got, v, 1e-10 * scale(new), "replacement at %r" % (positions,))
        return "%s %r" % (how, positions)

    def put(one, p):
        a = rand_site(r, M, N, p, dims)
        one[0][p] = to_tensor(r, *a)
        one[1][p] = a

    order = list(sites)
    r.shuffle(order)
    for p in order:
        put(pool[0], p)
    for _ in range(r.range(3, 25)):
        one = r.choice(pool)
        what = r.choice(["set"] * 4 + ["read"] * 9 + ["delete", "copy", "add"])
        if what == "set":
            p = r.choice([q for q in sites if q not in one[1]] or sites)
            put(one, p)
            log.append("set%r" % (p,))
            mon.count("tensors set")
        elif what == "delete":
            if one[1]:
                p = r.choice(sorted(one[1]))
                del one[0][p]
                del one[1][p]
                log.append("del%r" % (p,))
                mon.count("tensors deleted")
        elif what == "copy":
            if len(pool) < 4:
                pool.append([SquareAuxiliariesSystem(one[0]), dict(one[1])])
                log.append("copy")
                mon.count("copies")
        elif what == "add":
            # two systems made of parts of one lattice, used separately, are combined
            left, right = SquareAuxiliariesSystem(one[0]), SquareAuxiliariesSystem(one[0])
            s1, s2 = dict(one[1]), dict(one[1])
            for p in sorted(one[1]):
                x = r.randrange(3)
                if x == 0:
                    del left[p], s1[p]
                elif x == 1:
                    del right[p], s2[p]
            for _ in range(3):
                for o in ([left, s1], [right, s2]):
                    if len(o[1]) + 2 >= len(sites):
                        read(o)
            if r.chance(50):
                total = left + right
            else:
                total = SquareAuxiliariesSystem(left)
                total += right
            if len(pool) < 4:
                pool.append([total, {**s1, **s2}])
            else:
                pool[r.randrange(4)] = [total, {**s1, **s2}]
            log.append("add")
            mon.count("systems combined")
        else:
            mon.describe("environment " + " ".join(log))
            done = read(one)
            if done:
                log.append("read:%d:%s" % ([x is one for x in pool].index(True), done))
                mon.count("environment reads")
    for one in pool:
        for p in sites:
            if p not in one[1]:
                put(one, p)
        mon.describe("environment " + " ".join(log) + " at the end")
        v, _, _ = contract_network(M, N, one[1], False)
        close(to_array(one[0][None], []), v, 1e-10 * scale(one[1]), "contraction of the network at the end")
    mon.nontrivial("environment " + " ".join(log))


# ---------------------------------------------------------------- simple update
def weights(lattice, key):
    T = lattice.environment[key]
    a = np.array(T.block[[str(n) for n in T.name]])
    mon.require(a.ndim == 2 and np.count_nonzero(a - np.diag(np.diag(a))) == 0, "bond weights are not diagonal")
    return np.diag(a)


def network_arrays(m, lattice):
    res = {}
    for p in m.sites():
        names = edges_of(m.M, m.N, p) + ["P"]
        res[p] = (names, to_array(lattice[p], names))
    return res


def network_state(m, lattice):
    arrays = network_arrays(m, lattice)
    if isinstance(lattice, SimpleUpdateLattice):
        for key in lattice.environment:
            x, i, j = key
            names, a = arrays[(i, j)]
            k = names.index(x)
            w = weights(lattice, key)
            arrays[(i, j)] = (names, np.moveaxis(np.moveaxis(a, k, -1) * w, -1, k))
    v, keep, _ = contract_network(m.M, m.N, arrays, True)
    order = [keep.index((p, "P")) for p in m.sites()]
    return np.transpose(v, order) if order else v


def fill_network(m, lattice, r, dims):
    for p in m.sites():
        lattice[p] = to_tensor(r, *rand_site(r, m.M, m.N, p, dims, [("P", m.d)]))


def expm(a):
    w, v = np.linalg.eigh(a)
    return (v * np.exp(w)) @ v.conj().T


def gate(op, k, d, dt):
    n = d ** k
    return expm(-dt * op.reshape(n, n)).reshape((d,) * (2 * k))


def check_converted(m, source, psi, r, tol):
    """the lattices made of this one have its state"""
    if not np.linalg.norm(psi) > 1e-8 * np.prod([np.linalg.norm(a) + 1e-300 for _, a in network_arrays(m, source).values()]):
        return
    kind = r.randrange(3)
    if kind == 0:
        e = ExactLattice(source)
        parallel(vector_of(m, e), psi, tol, "state converted to an exact lattice")
        mon.require(list(e.hamiltonian) == list(source.hamiltonian), "Hamiltonian of the converted lattice")
        v = vector_of(m, e)
        check_exact(m, e, v, r, "converted to exact")
        mon.count("conversions to an exact lattice")
    elif kind == 1 and isinstance(source, SimpleUpdateLattice):
        s = SamplingGradientLattice(source, Dc=64)
        parallel(network_state(m, s), psi, tol, "state converted to a sampling lattice")
        mon.require(s.dimension_cut == 64 and list(s.hamiltonian) == list(source.hamiltonian), "converted sampling lattice")
        mon.count("conversions to a sampling lattice")
        if r.chance(50):
            t = SimpleUpdateLattice(s)
            parallel(network_state(m, t), psi, tol, "state converted to sampling and back")
    elif isinstance(source, SamplingGradientLattice):
        t = SimpleUpdateLattice(source)
        parallel(network_state(m, t), psi, tol, "state converted to a simple update lattice")
        mon.require(not t.environment, "bond weights of a converted lattice")
        mon.count("conversions to a simple update lattice")


def simple_update(r):
    m = Model(r, 300, True, 2)
    if m.n > 6:
        return exact(r)
    lattice = SimpleUpdateLattice(m.M, m.N, D=r.range(1, 3 if m.n <= 4 else 2), d=m.d)
    mon.describe("simple update %r" % m)
    if r.chance(60):
        fill_network(m, lattice, r, rand_bonds(r, m.M, m.N, 3 if m.n <= 4 else 2))
    if r.chance(30):
        m.setters(lattice)
        if len(m.terms) > 4:
            for p in r.sample(sorted(m.terms), len(m.terms) - r.range(1, 4)):
                del m.terms[p], lattice.hamiltonian[p]
    else:
        m.add_terms(lattice, 3)
    mon.describe("simple update %r" % m)
    psi = network_state(m, lattice)
    pool = [[lattice, psi]]
    log = []
    tol = 1e-6
    big = 200
    for _ in range(r.range(1, 4)):
        one = r.choice(pool)
        what = r.choice(["update", "update", "observe", "copy", "pickle", "convert"])
        largest = max([1] + [one[0][p].block[[str(n) for n in one[0][p].name]].size for p in m.sites()])
        size = np.prod([np.linalg.norm(a) + 1e-300 for _, a in network_arrays(m, one[0]).values()])
        if what == "update" and largest < 3000 and np.linalg.norm(network_state(m, one[0])) > 1e-8 * size:
            dt = r.choice([0.01, 0.1, 0.3])
            time = 1 if len(m.terms) > 2 or r.chance(70) else 2
            log.append("update(%d,%g)" % (time, dt))
            mon.describe("simple update %r %s" % (m, " ".join(log)))
            with quiet():
                one[0].simple_update(time, dt, big) if r.chance(70) or one[0].dimension_virtual != big else one[0].simple_update(time, dt)
            for _ in range(time):
                for p in list(m.terms) + list(reversed(list(m.terms))):
                    one[1] = apply_op(one[1], gate(m.terms[p], len(p), m.d, dt), m.index(p))
            n = np.linalg.norm(one[1])
            if n:
                one[1] = one[1] / n
            mon.count("simple updates", time)
        elif what == "observe":
            log.append("observe")
            one[0].initialize_auxiliary(100000)
            psi = network_state(m, one[0])
            norm = np.sum(psi * psi)
            size = np.prod([np.linalg.norm(a) + 1e-300 for _, a in network_arrays(m, one[0]).values()]) ** 2
            if norm > 1e-8 * size:
                close(one[0].denominator(), norm, 1e-9 * size, "norm of the network")
                if m.terms:
                    e = sum(m.expect(psi, p, op) for p, op in m.terms.items()) / norm / m.n
                    close(one[0].observe_energy(), e, 1e-8 * m.scale() * size / norm, "energy of the network")
                for p in [r.choice([(s,) for s in m.sites()] + m.bonds()) for _ in range(2)]:
                    p = tuple(reversed(p)) if r.chance(50) else p
                    op = rand_op(r, m.d, len(p), False)
                    normed = r.chance(60)
                    got = one[0].observe(p, to_tensor(r, op_names(len(p)), op), normed)
                    close(got, m.expect(psi, p, op) / (norm if normed else 1), 1e-9 * (np.sum(np.abs(op)) + 1) * size / (norm if normed else 1), "expectation value in the network at %r" % (p,))
                    mon.count("expectation values")
        elif what == "copy" and len(pool) < 3:
            log.append("copy")
            pool.append([SimpleUpdateLattice(one[0]), one[1]])
            mon.count("copies")
        elif what == "pickle" and len(pool) < 3:
            log.append("pickle")
            pool.append([pickle.loads(pickle.dumps(one[0])), one[1]])
            mon.count("pickled lattices")
        elif what == "convert":
            log.append("convert")
            check_converted(m, one[0], one[1], r, tol)
        mon.describe("simple update %r %s" % (m, " ".join(log)))
        for l, v in pool:
            parallel(network_state(m, l), v, tol, "state of the network")
    mon.nontrivial("simple update %r %s" % (m, " ".join(log)))


# ---------------------------------------------------------------- sampling
def amplitude_tolerance(m, lattice):
    return 1e-10 * np.prod([np.linalg.norm(a) + 1e-300 for _, a in network_arrays(m, lattice).values()])


def set_configuration(m, lattice, conf, r):
    how = r.randrange(3)
    if how == 0:
        lattice.initialize_spin([[conf[site_number(m.M, m.N, (i, j))] for j in range(m.N)] for i in range(m.M)])
    elif how == 1:
        def spin(i: int, j: int) -> int:
            return conf[site_number(m.M, m.N, (i, j))]
        lattice.initialize_spin(spin)
    else:
        order = m.sites()
        r.shuffle(order)
        for p in order:
            lattice.spin[p] = conf[site_number(m.M, m.N, p)]


def configuration(m, lattice):
    return tuple(lattice.spin.configuration[i][j] for i, j in m.sites())


def local_value(m, psi, conf, p, op):
    idx = m.index(p)
    s = 0.0
    inside = tuple(conf[i] for i in idx)
    for out in itertools.product(range(m.d), repeat=len(p)):
        e = op[inside + out]
        if e != 0:
            c = list(conf)
            for i, x in zip(idx, out):
                c[i] = x
            s += e * psi[tuple(c)]
    return s


def printed_energy(text):
    found = re.findall(r"done.*Energy=(\S+)", text)
    return float(found[-1]) if found else None


def sampling(r):
    m = Model(r, 64, True)
    lattice = SamplingGradientLattice(m.M, m.N, D=r.range(1, 2), Dc=100000, d=m.d)
    mon.describe("sampling %r" % m)
    if r.chance(70):
        fill_network(m, lattice, r, rand_bonds(r, m.M, m.N, 2))
    if r.chance(30):
        m.setters(lattice)
    else:
        m.add_terms(lattice, 3)
    mon.describe("sampling %r" % m)
    psi = network_state(m, lattice)
    tol = amplitude_tolerance(m, lattice)
    pool = [[lattice, psi, None]]
    log = []

    def rand_conf():
        return tuple(r.randrange(m.d) for _ in range(m.n))

    def observers():
        res, model = {}, {}
        for k in range(r.range(0, 2)):
            group, g = {}, {}
            for _ in range(r.range(1, 3)):
                p = r.choice([(s,) for s in m.sites()] + m.bonds() * 2)
                p = tuple(reversed(p)) if r.chance(50) else p
                op = rand_op(r, m.d, len(p), False)
                group[p] = to_tensor(r, op_names(len(p)), op)
                g[p] = op
            res["kind%d" % k] = group
            model["kind%d" % k] = g
        return res, model

    for _ in range(r.range(1, 5)):
        one = r.choice(pool)
        lat, psi = one[0], one[1]
        what = r.choice(["amplitudes", "amplitudes", "ergodic", "markov", "copy", "pickle", "convert", "default", "change", "change one", "combine"])
        if one[2] is None and what not in ("copy", "pickle", "convert", "default", "change", "ergodic"):
            one[2] = rand_conf()
            set_configuration(m, lat, one[2], r)
        mon.describe("sampling %r %s then %s" % (m, " ".join(log), what))
        if what == "default":
            lat.initialize_spin()
            one[2] = tuple((i + j) % m.d for i, j in m.sites())
        elif what == "change":  # new tensors, and the configuration is set again
            fill_network(m, lat, r, rand_bonds(r, m.M, m.N, 2))
            one[1] = network_state(m, lat)
            lat.spin = SpinConfiguration(lat)
            one[2] = rand_conf()
            set_configuration(m, lat, one[2], r)
            tol = max(tol, amplitude_tolerance(m, lat))
            mon.count("networks replaced")
        elif what == "change one":  # a new tensor, and the configuration is set again there
            p = r.choice(m.sites())
            names, a = network_arrays(m, lat)[p]
            lat[p] = to_tensor(r, names, np.random.default_rng(r.randrange(1 << 30)).normal(size=a.shape))
            one[1] = network_state(m, lat)
            s = r.randrange(m.d)
            del lat.spin[p]
            lat.spin[p] = s
            c = list(one[2])
            c[site_number(m.M, m.N, p)] = s
            one[2] = tuple(c)
            tol = max(tol, amplitude_tolerance(m, lat))
            mon.count("tensors replaced")
        elif what == "combine":  # configurations of parts of the lattice, used separately, are combined
            left, right = SpinConfiguration(lat.spin), SpinConfiguration(lat.spin)
            for p in m.sites():
                x = r.randrange(3)
                if x == 0:
                    del left[p]
                elif x == 1:
                    del right[p]
                if x < 2 and r.chance(30):
                    s = r.randrange(m.d)
                    (right if x == 0 else left)[p] = s
                    c = list(one[2])
                    c[site_number(m.M, m.N, p)] = s
                    one[2] = tuple(c)
            for o in (left, right):
                missing = [p for p in m.sites() if o.configuration[p[0]][p[1]] == -1]
                if len(missing) == 1:
                    new = {missing[0]: r.randrange(m.d)}
                    c = [new.get(p, o.configuration[p[0]][p[1]]) for p in m.sites()]
                    close(float(o[new]), psi[tuple(c)], tol, "amplitude completed by %r" % (new,))
            if r.chance(50):
                lat.spin = left + right
            else:
                left += right
                lat.spin = left
            mon.count("configurations combined")
        elif what == "amplitudes":
            for _ in range(r.range(1, 5)):
                if r.chance(50):
                    p = r.choice(m.sites())
                    s = r.randrange(m.d)
                    lat.spin[p] = s
                    c = list(one[2])
                    c[site_number(m.M, m.N, p)] = s
                    one[2] = tuple(c)
                how = r.randrange(4)
                if how == 0:
                    close(float(lat.spin[None]), psi[one[2]], tol, "amplitude of the configuration %r" % (one[2],))
                elif how == 1:
                    p = r.choice(m.sites())
                    got = lat.spin[(p,)]
                    arrays = {}
                    for q, (names, a) in network_arrays(m, lat).items():
                        arrays[q] = (names[:-1], a[..., one[2][site_number(m.M, m.N, q)]])
                    v, _, names = contract_network(m.M, m.N, arrays, False, (p,))
                    # the hole may be where a tensor vanishes, so that the amplitude itself says nothing about the scale
                    scale = np.prod([np.linalg.norm(a) + 1e-300 for q, (_, a) in arrays.items() if q != p])
                    close(to_array(got, names), v, max(tol * 100, 1e-8 * scale), "hole in a configuration")
                else:
                    ps = r.choice([(s,) for s in m.sites()] + m.bonds() * 2)
                    new = {p: r.randrange(m.d) for p in (reversed(ps) if r.chance(50) else ps)}
                    c = list(one[2])
                    for p, s in new.items():
                        c[site_number(m.M, m.N, p)] = s
                    close(float(lat.spin[new]), psi[tuple(c)], tol, "amplitude with %r replaced in %r" % (new, one[2]))
                mon.count("amplitudes")
        elif what == "ergodic":
            obs, model = observers()
            energy = bool(m.terms) and r.chance(60)
            kept = {k: dict(v) for k, v in obs.items()}
            with quiet() as out:
                if obs or r.chance(50):
                    got = lat.ergodic(obs, calculate_energy=energy) if r.chance(50) else lat.ergodic(observers=obs, calculate_energy=energy)
                else:
                    got = lat.ergodic(calculate_energy=energy)
            mon.require({k: list(v) for k, v in obs.items()} == {k: list(v) for k, v in kept.items()}, "the observers given were changed")
            want = dict(model)
            if energy:
                want["Energy"] = dict(m.terms)
            mon.require(set(got) == set(want), "kinds measured: %r, expected %r" % (sorted(got), sorted(want)))
            for kind, group in want.items():
                mon.require(set(got[kind]) == set(group), "positions measured")
                for p, op in group.items():
                    close(got[kind][p], m.expect(psi, p, op), 1e-9 * (np.sum(np.abs(op)) + 1) * (np.sum(psi * psi) + tol), "enumeration of %s at %r" % (kind, p))
            if energy and np.sum(psi * psi) > 1e4 * tol * tol:
                e = sum(m.expect(psi, p, op) for p, op in m.terms.items()) / np.sum(psi * psi) / m.n
                close(printed_energy(out.getvalue()), e, 1e-8 * m.scale(), "printed energy of the enumeration")
            one[2] = configuration(m, lat)
            mon.count("enumerations")
        elif what == "markov":
            big = np.argwhere(np.abs(psi) > max(1e-3 * np.max(np.abs(psi)), 1e3 * tol))
            if not len(big) or not m.terms:
                continue
            start = tuple(int(x) for x in big[r.randrange(len(big))])
            seed, steps = r.randrange(1 << 30), r.range(1, 5)
            set_configuration(m, lat, start, r)
            TAT.random.seed(seed)
            visited = []
            with quiet():
                for _ in range(steps):
                    lat.equilibrate(1)
                    visited.append(configuration(m, lat))
            for a, b in zip([start] + visited, visited):
                mon.require(abs(psi[b]) > 0, "a configuration without amplitude was visited")
                if all(same_charge(m, op) for op in m.terms.values()):
                    mon.require(sum(a) == sum(b), "a step does not conserve what the Hamiltonian conserves")
            mon.count("moved configurations", sum(a != b for a, b in zip([start] + visited, visited)))
            set_configuration(m, lat, start, r)
            obs, model = observers()
            energy = r.chance(70)
            TAT.random.seed(seed)
            with quiet() as out:
                got = lat.markov_chain(steps, obs, calculate_energy=energy) if obs or r.chance(50) else lat.markov_chain(steps, calculate_energy=energy)
            mon.require(configuration(m, lat) == visited[-1], "the same seed visits other configurations")
            mon.require("Energy" not in obs, "the observers given were changed")
            want = dict(model)
            if energy:
                want["Energy"] = dict(m.terms)
            mon.require(set(got) == set(want), "kinds measured")
            total = 0
            if min(abs(psi[c]) for c in visited) > 1e4 * tol:
                for kind, group in want.items():
                    for p, op in group.items():
                        v = sum(local_value(m, psi, c, p, op) / psi[c] for c in visited)
                        bound = sum((np.sum(np.abs(op)) + 1) * (np.max(np.abs(psi)) / abs(psi[c])) * (1e-9 + 10 * tol / abs(psi[c])) for c in visited)
                        close(got[kind][p], v, bound, "chain average of %s at %r" % (kind, p))
                        if kind == "Energy":
                            total += got[kind][p]
                if energy:
                    close(printed_energy(out.getvalue()), total / steps / m.n, 1e-9 * (abs(total) + 1), "printed energy of the chain")
            one[2] = visited[-1]
            mon.count("chains")
        elif what == "copy" and len(pool) < 3:
            pool.append([SamplingGradientLattice(lat), psi, one[2]])
            mon.count("copies")
        elif what == "pickle" and len(pool) < 3:
            pool.append([pickle.loads(pickle.dumps(lat)), psi, one[2]])
            mon.count("pickled lattices")
        elif what == "convert":
            check_converted(m, lat, psi, r, 1e-9)
        log.append(what)
        mon.describe("sampling %r %s" % (m, " ".join(log)))
        for l, v, c in pool:
            t = max(tol, amplitude_tolerance(m, l))
            close(network_state(m, l), v, t, "state of a sampling lattice")
            if c is not None:
                mon.require(configuration(m, l) == c, "configuration %r, expected %r" % (configuration(m, l), c))
                close(float(l.spin[None]), v[c], t, "amplitude of the configuration")
    mon.nontrivial("sampling %r %s" % (m, " ".join(log)))


def same_charge(m, op):
    k = op.ndim // 2
    for s in itertools.product(range(m.d), repeat=2 * k):
        if op[s] != 0 and sum(s[:k]) != sum(s[k:]):
            return False
    return True


# ---------------------------------------------------------------- stationarity
def stationary(r):
    """configurations drawn from the squared amplitudes keep this distribution"""
    while True:
        m = Model(r, 16, True)
        if 1 < m.d ** m.n <= 16:
            break
    lattice = SamplingGradientLattice(m.M, m.N, D=2, Dc=100000, d=m.d)
    fill_network(m, lattice, r, rand_bonds(r, m.M, m.N, 2))
    m.add_terms(lattice, 3)
    mon.describe("stationary %r" % m)
    psi = network_state(m, lattice)
    w = (psi * psi).ravel()
    tol = amplitude_tolerance(m, lattice)
    w[np.abs(psi.ravel()) < 1e4 * tol] = 0
    if np.sum(w) == 0:
        return
    w = w / np.sum(w)
    samples = int(os.environ.get("VERIF_SAMPLES", "400"))
    g = np.random.default_rng(r.randrange(1 << 30))
    TAT.random.seed(r.randrange(1 << 30))
    counts = np.zeros(w.size)
    draws = g.choice(w.size, size=samples, p=w)
    with quiet():
        for x in draws:
            conf = tuple(int(v) for v in np.unravel_index(x, psi.shape))
            for p in m.sites():
                lattice.spin[p] = conf[site_number(m.M, m.N, p)]
            lattice.equilibrate(1)
            counts[np.ravel_multi_index(configuration(m, lattice), psi.shape)] += 1
    mon.require(np.sum(counts[w == 0]) == 0, "a configuration without amplitude was visited")
    # merge rare configurations
    order = np.argsort(w)
    groups, ew, ec = [], 0.0, 0.0
    for x in order:
        ew += w[x] * samples
        ec += counts[x]
        if ew >= 5:
            groups.append((ew, ec))
            ew = ec = 0.0
    if groups and ew:
        groups[-1] = (groups[-1][0] + ew, groups[-1][1] + ec)
    if len(groups) < 2:
        return
    chi = sum((c - e) ** 2 / e for e, c in groups)
    k = len(groups) - 1
    # Wilson-Hilferty: a normal deviate; 6 sigma
    z = ((chi / k) ** (1 / 3) - (1 - 2 / (9 * k))) / (2 / (9 * k)) ** 0.5
    mon.require(z < 6, "a sweep changes the distribution: chi square %.1f with %d degrees of freedom (%.1f sigma), %r" % (chi, k, z, groups))
    mon.count("sweeps tested for stationarity", samples)
    mon.nontrivial("stationary %r" % m)


PARTS = {"exact": exact, "auxiliaries": auxiliaries, "simple_update": simple_update, "sampling": sampling, "stationary": stationary}
parts = [PARTS[x] for x in os.environ.get("VERIF_PARTS", "exact auxiliaries simple_update sampling").split()]


def body(r, c):
    TAT.random.seed(r.randrange(1 << 30))
    r.choice(parts)(r)


if __name__ == "__main__":
    where = os.environ.get("VERIF_SQUARE")
    if where and not os.path.abspath(square.__file__).startswith(os.path.abspath(where) + os.sep):
        print("VERIF-HARNESS-ERROR not the package of the tree: " + square.__file__, file=sys.stderr)
        sys.exit(3)
    code = mon.run(body)
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
