"""P27: the Python module against the element-wise model and numpy."""
import copy
import itertools
import os
import pickle
import sys

import numpy as np

import pymon as mon
import pyref as ref
from pyref import RT, Edge

import TAT

SCALARS = {"S": np.float32, "D": np.float64, "C": np.complex64, "Z": np.complex128}
NAMES = ["a", "b", "c", "d", "e", "f", "Left", "Right.1", "P-0-1", "u_v"]
ALG = {k: ref.Algebra(k) for k in ref.KINDS}


class Case:
    """one symmetry and scalar type"""

    def __init__(self, r, kind, scalar):
        self.r, self.kind, self.s = r, kind, scalar
        self.alg = ALG[kind]
        self.fermi = self.alg.fermi
        self.no = kind == "No"
        self.cplx = scalar in "CZ"
        self.T = getattr(TAT.Tensor, scalar + kind)
        self.dtype = SCALARS[scalar]
        self.eps = 2e-5 if scalar in "SC" else 1e-11

    # --- from the model to the module
    def sym(self, q, plain=None):
        k = self.kind
        S = getattr(TAT._internal.Symmetry, k)
        if plain is None:
            plain = self.r.chance(70)
        if k == "No":
            return S()
        if k == "Z2":
            return bool(q[0]) if plain else S(bool(q[0]))
        if k in ("U1", "Fermi"):
            return q[0] if plain else S(q[0])
        second = bool(q[1]) if k == "FermiZ2" else q[1]
        return (q[0], second) if plain else S(q[0], second)

    def dims(self, e):
        if self.no:
            return e.dims[()]
        plain = self.r.chance(70)
        if plain and e.dims and all(d == 1 for d in e.dims.values()) and self.r.chance(30) and not self.fermi:
            return {self.sym(q, True) for q in e.dims}
        return {self.sym(q, plain): d for q, d in e.dims.items()}

    def edge(self, e):
        d = self.dims(e)
        C = getattr(TAT._internal.Edge, self.kind)
        if self.fermi:
            if not e.arrow and self.r.chance(30):
                return d
            return (e.arrow, d) if self.r.chance(70) else C(e.arrow, d)
        return C(d) if self.r.chance(30) else d

    def bose_edge(self, e):
        d = self.dims(e)
        return getattr(TAT._internal.Edge.NoArrow, self.kind)(d) if self.r.chance(30) else d

    def name(self, n):
        return TAT.Name(n) if self.r.chance(20) else n

    def value(self, v):
        return complex(v) if self.cplx else float(np.real(v))

    def key(self, t, qs):
        """some way to address a block; returns (key, order of the axes)"""
        form = self.r.randrange(3 if self.no else 2)
        order = list(range(len(qs)))
        if form == 0:
            items = [(self.name(t.names[i]), self.sym(qs[i])) for i in order]
            self.r.shuffle(items)
            if self.no and self.r.chance(50):
                return {}, order
            return dict(items), order
        self.r.shuffle(order)
        if form == 1:
            return [(self.name(t.names[i]), self.sym(qs[i])) for i in order], order
        return [self.name(t.names[i]) for i in order], order

    def point(self, p):
        q, i = p
        return i if self.no else (self.sym(q), i)

    def block_of(self, t, qs):
        a = np.zeros([e.dims[q] for q, e in zip(qs, t.edges)], dtype=self.dtype)
        for idx in itertools.product(*[range(n) for n in a.shape]):
            a[idx] = t.data[tuple(zip(qs, idx))] if self.cplx else np.real(t.data[tuple(zip(qs, idx))])
        return a

    def make(self, t, how=None):
        """t has to be pruned"""
        T = self.T([self.name(n) for n in t.names], [self.edge(e) for e in t.edges])
        how = self.r.randrange(6) if how is None else how
        if how == 0:
            T.zero()
            for p in t.positions():
                T[{self.name(n): self.point(x) for n, x in zip(t.names, p)}] = self.value(t.data[p])
        elif how == 1:  # in the order in which they are stored
            values = iter([self.value(t.data[p]) for p in t.positions()])
            T.set(lambda: next(values))
        else:
            for qs in t.blocks():
                k, order = self.key(t, qs)
                v = np.transpose(self.block_of(t, qs), order)
                if how == 2:
                    T.block[k] = v
                elif how == 3 and v.size:
                    T.block[k] = v.tolist()
                elif how == 4:
                    T.block[k][...] = v
                else:
                    view = T.block[k]  # noqa
                    for idx in np.ndindex(*view.shape):
                        view[idx] = v[idx]
        return T

    # --- from the module to the model
    def q_of(self, s):
        f = {"Z2": ("z2",), "U1": ("u1",), "Fermi": ("fermi",), "FermiZ2": ("fermi", "z2"), "FermiU1": ("fermi", "u1")}[self.kind]
        return tuple(int(getattr(s, x)) for x in f)

    def edges_of(self, T, names):
        es = T.edge
        mon.require(len(es) == len(names), "number of edges")
        if self.no:
            shape = T.block[{}].shape
            mon.require(len(shape) == len(names), "rank of the array")
            return [Edge({(): n}) for n in shape]
        return [Edge({self.q_of(q): d for q, d in e.map.items()}, e.arrow if self.fermi else False) for e in es]

    def read(self, T, how=None):
        names = [str(n) for n in T.name]
        t = RT(self.alg, names, self.edges_of(T, names))
        how = self.r.randrange(3) if how is None else how
        if how == 0 and sum(1 for _ in t.positions()) > 60:
            how = 1
        if how == 0:
            for p in t.positions():
                items = [(self.name(n), self.point(x)) for n, x in zip(names, p)]
                self.r.shuffle(items)
                t.data[p] = T[dict(items)]
        else:
            for qs in t.blocks():
                k, order = self.key(t, qs)
                v = T.block[k]
                mon.require(isinstance(v, np.ndarray) and v.dtype == self.dtype, "a block is not an array of the scalar type")
                mon.require(v.shape == tuple(t.edges[i].dims[qs[i]] for i in order), "shape of a block")
                back = np.transpose(v, np.argsort(order)) if order else v
                for idx in np.ndindex(*back.shape):
                    t.data[tuple(zip(qs, idx))] = back[idx].item()
        return t

    def same(self, want, T, what, tol=0.0, ordered=True, arrows=True):
        mon.require(type(T) is self.T, what + ": type of the result")
        got = self.read(T) if not isinstance(T, RT) else T
        if ordered:
            mon.require(got.names == list(want.names), "%s: names %r, expected %r" % (what, got.names, want.names))
        else:
            mon.require(sorted(got.names) == sorted(want.names), "%s: names %r, expected %r" % (what, got.names, want.names))
            want = ref.transpose(want, got.names)
        for n, e, f in zip(got.names, got.edges, want.edges):
            mon.require(e.dims == f.dims, "%s: edge %s is %r, expected %r" % (what, n, e, f))
            if self.fermi and arrows and f.matters():
                mon.require(e.arrow == f.arrow, "%s: arrow of edge %s" % (what, n))
        for p in want.positions():
            a, b = want.data.get(p, 0), got.data[p]
            if not abs(a - b) <= tol:
                raise mon.Bad("%s: element %r is %r, expected %r" % (what, dict(zip(got.names, p)), b, a))
        mon.observe(len(got.data))

    # --- random models
    def charge(self):
        k = 1 if self.r.chance(75) else 2
        return tuple(self.r.range(0, 1) if p == "z" else self.r.range(-k, k) for p in self.alg.parts)

    def rand_edge(self, zero=2, dim=3):
        n = 1 if self.no else self.r.range(1, 3)
        return Edge({self.charge(): 0 if self.r.chance(zero) else self.r.range(1, dim) for _ in range(n)}, self.fermi and self.r.chance(50))

    def closing(self, edges, dim=3):
        dims = {}
        for _ in range(1 if self.no else self.r.range(1, 3)):
            qs = [self.r.choice(list(e.dims)) for e in edges if e.dims]
            dims[self.alg.neg(self.alg.total(qs))] = self.r.range(1, dim)
        return Edge(dims, self.fermi and self.r.chance(50))

    def fill(self, t, nonzero=False, magnitude=4, unique=False):
        k = self.r.range(1, 30)
        for p in t.positions():
            if unique:
                v = complex(k, -k - 7)
            else:
                while True:
                    v = complex(self.r.range(-magnitude, magnitude), self.r.range(-magnitude, magnitude))
                    if v.real != 0 or not nonzero:
                        break
            t.data[p] = v if self.cplx else v.real
            k += 1
        return t

    def with_edges(self, names, edges, **kw):
        t = RT(self.alg, names, edges).prune()
        return self.fill(t, **kw)

    def rand_edges(self, rank, limit=200, zero=2, dim=3):
        for tries in range(200):
            es = []
            for i in range(rank):
                es.append(self.closing(es, dim) if i + 1 == rank and not self.no and not self.r.chance(10) else self.rand_edge(zero, dim))
            self.r.shuffle(es)
            n = 1
            for e in es:
                n *= max(1, e.size())
            if n <= limit:
                return es
            if tries > 30:
                dim = 2
            if tries > 60:
                rank = max(rank - 1, 0)
        return []

    def tensor(self, rank_max=4, prefix=None, names=None, rank_min=0, **kw):
        es = self.rand_edges(self.r.range(rank_min, rank_max))
        if names is None:
            names = [prefix + str(i) for i in range(len(es))] if prefix else self.r.sample(NAMES, len(es))
        return self.with_edges(names, es, **kw)


# ---------------------------------------------------------------- operations
def access(k):
    r = k.r
    t = k.tensor(unique=True)
    mon.describe("access %s%r" % (k.s, t))
    T = k.make(t)
    k.same(t, T, "what was written")
    ps = list(t.positions())
    for _ in range(r.range(1, 6)):
        if ps and r.chance(60):
            p = r.choice(ps)
            v = k.value(complex(r.range(-50, 50), r.range(-50, 50)))
            items = [(k.name(n), k.point(x)) for n, x in zip(t.names, p)]
            r.shuffle(items)
            T[dict(items)] = v
            t.data[p] = v
            mon.require(T[dict(items)] == v, "reading the element just written")
        elif t.blocks():
            qs = r.choice(t.blocks())
            key, order = k.key(t, qs)
            v = k.value(r.range(-9, 9))
            if r.chance(50):
                T.block[key] = v
                for p in ps:
                    if tuple(q for q, _ in p) == qs:
                        t.data[p] = v
            else:
                view = T.block[key]
                if view.size:
                    idx = tuple(r.randrange(n) for n in view.shape)
                    view[idx] += v
                    full = [None] * len(order)
                    for a, o in enumerate(order):
                        full[o] = idx[a]
                    t.data[tuple(zip(qs, full))] += v
        k.same(t, T, "after writing")
    if not t.names:
        mon.require((complex(T) if k.cplx else float(T)) == t.data[()], "a number")
    if len(ps) > 1:
        mon.nontrivial("access %s%r" % (k.s, t))


def fused_parts(k, n):
    arrow = k.fermi and k.r.chance(50)
    parts = [k.rand_edge(0, 2).with_arrow(arrow) for _ in range(n)]
    if n == 0:
        return Edge({k.alg.zero: 1}, arrow), []
    return ref.fuse(k.alg, parts, arrow)[0], parts


def edge_op(k):
    r = k.r
    while True:
        rank = r.range(0, 4)
        es, splits = [None] * rank, {}
        closing = r.randrange(rank) if rank and not k.no and not r.chance(10) else -1
        for i in range(rank):
            if i == closing:
                continue
            if r.chance(35):
                es[i], splits[i] = fused_parts(k, 0 if r.chance(8) else r.range(1, 3))
            else:
                es[i] = k.rand_edge()
        if closing >= 0:
            es[closing] = k.closing([e for e in es if e])
        size = 1
        for i, e in enumerate(es):
            size *= max(1, e.size())
            for p in splits.get(i, []):
                size *= max(1, p.size()) ** 0.5
        if size <= 300:
            break
    names = r.sample(NAMES, rank)
    t = k.with_edges(names, es, unique=True)
    rn = {n: n + "'" for n in names if r.chance(40)} if r.chance(50) else {}
    now = [rn.get(n, n) for n in names]
    if r.chance(20):
        rn["absent"] = "other"
    cuts = {}
    if r.chance(30):
        for i, n in enumerate(names):
            if i not in splits and r.chance(50):
                cuts[n] = {q: r.range(1 if k.no else 0, d + 1) for q, d in t.edges[i].dims.items() if r.chance(50) and d > 0}
        cuts = {n: c for n, c in cuts.items() if c}
    sp, after = {}, []
    for i in range(rank):
        if i in splits:
            sp[now[i]] = [("%s/%d" % (now[i], x), e) for x, e in enumerate(splits[i])]
            after += [n for n, _ in sp[now[i]]]
        else:
            after.append(now[i])
    rev = {n for n in after if r.chance(40)} if r.chance(50) else set()
    if r.chance(80):
        r.shuffle(after)
    mg, result, at, m = {}, [], 0, 0
    merging = 60 if r.chance(60) else 0
    while at < len(after):
        if r.chance(merging):
            n = min(len(after) - at, r.range(1, 3))
            mg["m%d" % m] = after[at:at + n]
            result.append("m%d" % m)
            m += 1
            at += n
        else:
            result.append(after[at])
            at += 1
    pool = after + now + result
    parity = r.chance(50)
    ex = [{n for n in pool if r.chance(40)} if r.chance(60) else set() for _ in range(4)]
    what = "edge_operator %s%r rename %r cut %r split %r reverse %r merge %r result %r parity %r exclude %r" % (
        k.s, t, rn, cuts, sp, rev, mg, result, parity, ex)
    mon.describe(what)
    T = k.make(t)
    want = ref.edge_operator(t, rn, sp, rev, mg, result, parity, ex, cuts)
    sm = {n: [(k.name(x), k.bose_edge(e)) for x, e in v] for n, v in sp.items()}
    cm = {n: {k.sym(q): d for q, d in c.items()} for n, c in cuts.items()}
    if r.chance(50):
        got = T.edge_operator(rn, sm, rev, mg, result, parity, *ex, cm)
    else:
        kw = dict(zip(["parity_exclude_name_split_set", "parity_exclude_name_reverse_set", "parity_exclude_name_reverse_before_merge_set",
                       "parity_exclude_name_merge_set"], ex))
        kw = {a: b for a, b in kw.items() if b or r.chance(30)}
        if cm or r.chance(30):
            kw["edge_and_symmetries_to_cut_before_all"] = cm
        if parity or r.chance(50):
            kw["apply_parity"] = parity
        got = T.edge_operator(rename_map=rn, split_map=sm, reversed_name=rev, merge_map=mg, new_names=result, **kw)
    k.same(want, got, "edge_operator")
    k.same(t, T, "operand of edge_operator")
    # the specialised entry points
    k.same(ref.rename(t, rn), T.edge_rename(rn), "edge_rename")
    order = list(t.names)
    r.shuffle(order)
    tr = T.transpose(order)
    k.same(ref.transpose(t, order), tr, "transpose")
    k.same(t, tr.transpose(t.names), "transpose and back")
    rv = {n for n in t.names if r.chance(50)}
    x1, x2 = {n for n in t.names if r.chance(40)}, {n for n in t.names if r.chance(40)}
    want = ref.reverse(t, rv, {n for n in rv if parity != (n in x1)}) if k.fermi else t
    k.same(want, T.reverse_edge(rv, parity, x1), "reverse_edge")
    # merge some edges: the merged edge takes the place of the last one
    if rank:
        part = r.sample(t.names, r.range(1, rank))
        place = [("M" if n == part[-1] else n) for n in t.names if n not in part[:-1]]
        xm = {"M"} if r.chance(50) else set()
        want = ref.edge_operator(t, {}, {}, set(), {"M": part}, place, parity, ((), (), x2, xm))
        merged = T.merge_edge({"M": part}, parity, xm, x2)
        k.same(want, merged, "merge_edge")
        if not k.fermi or len({t.edge(n).arrow for n in part if t.edge(n).matters()}) < 2:
            back = merged.split_edge({"M": [(n, k.bose_edge(t.edge(n))) for n in part]}, parity, xm)
            k.same(t, back.transpose(t.names), "merge_edge and split_edge", arrows=False)
            mon.count("merged and split back")
    mon.count("edge operations")
    if len(t.data) > 1:
        mon.nontrivial(what)
        mon.sample(what)


def partner(k, e):
    d = {k.alg.neg(q): n for q, n in e.dims.items()}
    if not k.no and k.r.chance(20):
        if len(d) > 1 and k.r.chance(50):
            del d[k.r.choice(list(d))]
        else:
            d.setdefault(k.charge(), k.r.range(1, 2))
    return Edge(d, not e.arrow)


def contraction(k):
    r = k.r
    a = k.tensor(prefix="a")
    n = r.range(0, min(len(a.names), 1 if k.fermi else 3))
    paired = r.sample(a.names, n)
    fused = []
    if k.no and r.chance(40):
        fused = r.sample([x for x in a.names if x not in paired], r.range(0, len(a.names) - n))
    es = [partner(k, a.edge(x)) for x in paired] + [a.edge(x) for x in fused]
    names = ["b%d" % i for i in range(n)] + fused
    extra = k.rand_edges(r.range(0, 2), limit=12)
    if extra and not k.no:
        extra[-1] = k.closing(es + extra[:-1], 2)
    es += extra
    names += ["y%d" % i for i in range(len(extra))]
    mix = list(range(len(es)))
    r.shuffle(mix)
    size = 1
    for e in es:
        size *= max(1, e.size())
    if size > 300:
        return
    b = k.with_edges([names[i] for i in mix], [es[i] for i in mix])
    pairs = [(x, "b%d" % i) for i, x in enumerate(paired)]
    what = "contract %s%r with %r over %r" % (k.s, a, b, pairs)
    mon.describe(what)
    A, B = k.make(a), k.make(b)
    got = A.contract(B, set(pairs))
    if fused:
        order = [str(x) for x in got.name][:len(fused)]
        mon.require(sorted(order) == sorted(fused), "kept edges come first")
        k.same(ref.contract_fuse(a, b, pairs, order), got, "contract keeping common edges")
        mon.count("contractions keeping common edges")
    else:
        k.same(ref.contract(a, b, pairs), got, "contract")
        # the same through common names
        if not k.fermi or n <= 1:
            m = {"b%d" % i: x for i, x in enumerate(paired)}
            k.same(ref.contract(a, b, pairs), A.contract_all_edge(B.edge_rename(m)), "contract_all_edge", ordered=False)
    if not k.fermi:
        s = complex(sum(complex(v).real ** 2 + complex(v).imag ** 2 for v in a.data.values()))
        v = A.contract_all_edge()
        mon.require(complex(v) == s if k.cplx else float(v) == s.real, "contract_all_edge with the conjugate")
    k.same(a, A, "operand of contract")
    k.same(b, B, "operand of contract")
    mon.count("contractions")
    if len(a.data) > 1 and len(b.data) > 1:
        mon.nontrivial(what)
        mon.sample(what)


def with_pairs(k, pairs, free, dim=2, limit=250):
    r = k.r
    while True:
        es, names = [], []
        for i in range(pairs):
            e = k.rand_edge(0, dim)
            es += [e, Edge({k.alg.neg(q): d for q, d in e.dims.items()}, not e.arrow)]
            names += ["i%d" % i, "o%d" % i]
        ex = k.rand_edges(free, limit=20)
        es += ex
        names += ["x%d" % i for i in range(len(ex))]
        n = 1
        for e in es:
            n *= max(1, e.size())
        if n <= limit:
            break
    mix = list(range(len(es)))
    r.shuffle(mix)
    return [names[i] for i in mix], [es[i] for i in mix], [("i%d" % i, "o%d" % i) if r.chance(50) else ("o%d" % i, "i%d" % i) for i in range(pairs)]


def trace_and_norms(k):
    r = k.r
    names, es, pairs = with_pairs(k, r.range(0, 2), r.range(0, 2))
    t = k.with_edges(names, es)
    if any(t.edge(x).dims.keys() != {k.alg.neg(q) for q in t.edge(y).dims} for x, y in pairs):
        return
    what = "trace %s%r over %r" % (k.s, t, pairs)
    mon.describe(what)
    T = k.make(t)
    k.same(ref.trace(t, pairs), T.trace(set(pairs)), "trace")
    c = T.conjugate()
    w = ref.conjugate(t)
    if not k.cplx:
        w.data = {p: v.real for p, v in w.data.items()}
    k.same(w, c, "conjugate")
    k.same(t, c.conjugate(), "conjugate twice")
    v = [abs(x) for x in t.data.values()]
    tol = k.eps * (1 + sum(v))
    for got, want, n in [(T.norm_max(), max(v, default=0), "norm_max"), (T.norm_num(), len(v), "norm_num"), (T.norm_sum(), sum(v), "norm_sum"),
                         (T.norm_2(), sum(x * x for x in v) ** 0.5, "norm_2")]:
        mon.require(abs(got - want) <= tol, "%s is %r, expected %r" % (n, got, want))
    k.same(t, T, "operand of trace")
    mon.count("traces")
    if len(t.data) > 1:
        mon.nontrivial(what)


def decompositions(k):
    r = k.r
    t = k.tensor(names=None)
    left = [n for n in t.names if r.chance(50)]
    right = [n for n in t.names if n not in left]
    if not t.data or any(d == 0 for e in t.edges for d in e.dims.values()):
        return
    scale = max(1.0, max(abs(v) for v in t.data.values())) * len(t.data) ** 0.5
    tol = 50 * k.eps * scale
    what = "decompose %s%r over %r" % (k.s, t, left)
    mon.describe(what)
    T = k.make(t)
    total = {}
    # matrix blocks of the model
    rows = {}
    for p, v in t.data.items():
        a = tuple(x for n, x in zip(t.names, p) if n in left)
        b = tuple(x for n, x in zip(t.names, p) if n not in left)
        rows.setdefault(k.alg.total([q for q, _ in a]), []).append((a, b, v))
    spectrum = []
    for q, l in rows.items():
        ra = sorted({a for a, _, _ in l})
        rb = sorted({b for _, b, _ in l})
        m = np.zeros((len(ra), len(rb)), complex)
        for a, b, v in l:
            m[ra.index(a), rb.index(b)] = v
        total[q] = min(m.shape)
        spectrum += list(np.linalg.svd(m, compute_uv=False))
    spectrum.sort(reverse=True)
    U, S, V = T.svd(set(left), "su", "sv")
    mon.require([str(n) for n in S.name] == [",SVD_U", ",SVD_V"], "names of the singular values")
    s = [abs(v) for p, v in k.read(S).data.items() if p[0][1] == p[1][1]]
    off = [abs(v) for p, v in k.read(S).data.items() if p[0][1] != p[1][1]]
    mon.require(max(off, default=0) == 0, "singular values outside the diagonal")
    s.sort(reverse=True)
    mon.require(len(s) == len(spectrum), "number of singular values %d, expected %d" % (len(s), len(spectrum)))
    for x, y in zip(s, spectrum):
        mon.require(abs(x - y) <= tol, "singular value %r, expected %r" % (x, y))
    k.same(t, U.multiple(S, "su", "u").contract(V, {("su", "sv")}).transpose(t.names), "U S V", tol)
    k.same(t, U.contract(V.multiple(S, "sv", "v"), {("su", "sv")}).transpose(t.names), "U (S V)", tol)
    mon.require([str(n) for n in U.name if str(n) != "su"] == [n for n in t.names if n in left], "edges of U")
    # contracting with the matrix itself
    if not k.fermi:
        k.same(t, U.contract(S, {("su", ",SVD_U")}).contract(V, {(",SVD_V", "sv")}).transpose(t.names), "U S V by contraction", tol)
        e = U.edge_rename({"su": "su2"}).conjugate().contract(U, {(n, n) for n in left})
        for p, v in k.read(e).data.items():
            mon.require(abs(v - (1 if p[0][1] == p[1][1] else 0)) <= tol, "U is not an isometry")
    cut = r.range(1, max(1, len(spectrum)))
    U, S, V = T.svd(set(left), "su", "sv", cut) if r.chance(50) else T.svd(set(left), "su", "sv", cut=cut)
    s = [abs(v) for p, v in k.read(S).data.items() if p[0][1] == p[1][1]]
    kept = min(cut, len(spectrum))
    mon.require(len(s) <= kept and abs(sum(x * x for x in s) - sum(x * x for x in spectrum[:kept])) <= tol * scale * 4, "what a truncation keeps")
    approx = U.multiple(S, "su", "u").contract(V, {("su", "sv")}).transpose(t.names)
    got = k.read(approx)
    distance = sum(abs(v - got.data.get(p, 0)) ** 2 for p, v in t.data.items())
    mon.require(abs(distance - sum(x * x for x in spectrum[kept:])) <= tol * scale * 4, "distance after a truncation")
    # division undoes multiplication
    if min(spectrum) > 1e-2:
        U, S, V = T.svd(set(left), "su", "sv")
        k.same(k.read(U), U.multiple(S, "su", "u").multiple(S, "su", "u", True), "multiple and divide", 100 * tol)
    side = r.choice("qrQR")
    q, x = T.qr(side, set(left if side in "qQ" else right), "cq", "cr")
    mon.require(sorted(str(n) for n in q.name) == sorted(left + ["cq"]), "edges of Q")
    k.same(t, q.contract(x, {("cq", "cr")}).transpose(t.names), "Q R", tol)
    if not k.fermi:
        e = q.edge_rename({"cq": "cq2"}).conjugate().contract(q, {(n, n) for n in left})
        for p, v in k.read(e).data.items():
            mon.require(abs(v - (1 if p[0][1] == p[1][1] else 0)) <= tol, "Q is not an isometry")
    k.same(t, T, "operand of a decomposition")
    mon.count("decompositions")
    if len(t.data) > 1:
        mon.nontrivial(what)
        mon.sample(what)


def expm(m):
    n = max(0, int(np.ceil(np.log2(max(np.abs(m).sum(), 1e-300)))) + 2)
    m = m / 2.0 ** n
    r = np.eye(len(m), dtype=complex)
    term = np.eye(len(m), dtype=complex)
    for i in range(1, 30):
        term = term @ m / i
        r = r + term
    for _ in range(n):
        r = r @ r
    return r


def operators(k):
    if k.fermi:
        return trace_and_norms(k)
    r = k.r
    names, es, pairs = with_pairs(k, r.range(1, 2), 0)
    t = k.with_edges(names, es, magnitude=2)
    if any(t.edge(x).dims.keys() != {k.alg.neg(q) for q in t.edge(y).dims} for x, y in pairs):
        return
    what = "exponential %s%r over %r" % (k.s, t, pairs)
    mon.describe(what)
    first = [t.names.index(x) for x, _ in pairs]
    second = [t.names.index(y) for _, y in pairs]
    label = sorted({tuple(p[i] for i in first) for p in t.data})
    where = {x: i for i, x in enumerate(label)}

    def neg(x):
        return tuple((k.alg.neg(q), i) for q, i in x)
    m = np.zeros((len(label), len(label)), complex)
    for p, v in t.data.items():
        m[where[tuple(p[i] for i in first)], where[neg(tuple(p[i] for i in second))]] = v
    T = k.make(t)
    one = RT(k.alg, t.names, t.edges, {p: 1.0 if tuple(p[i] for i in first) == neg(tuple(p[i] for i in second)) else 0.0 for p in t.data})
    k.same(one, T.identity(set(pairs)), "identity")
    want = expm(m)
    w = RT(k.alg, t.names, t.edges)
    for p in t.data:
        w.data[p] = want[where[tuple(p[i] for i in first)], where[neg(tuple(p[i] for i in second))]]
    tol = k.eps * 100 * (1 + np.abs(want).max()) * len(label)
    k.same(w, T.exponential(set(pairs), 8) if r.chance(50) else T.exponential(pairs=set(pairs), step=8), "exponential", tol, ordered=False)
    k.same(t, T, "operand of exponential")
    mon.count("exponentials")
    if len(label) > 1:
        mon.nontrivial(what)


def arithmetic(k):
    r = k.r
    a = k.tensor(nonzero=True)
    b = k.fill(RT(k.alg, a.names, a.edges), nonzero=True)
    order = list(a.names)
    if r.chance(60):
        r.shuffle(order)
    bb = ref.transpose(b, order)
    what = "arithmetic %s%r with order %r" % (k.s, a, order)
    mon.describe(what)
    A, B = k.make(a), k.make(bb)
    x = k.value(complex(r.range(1, 5), r.range(-3, 3)))
    tol = 20 * k.eps
    ops = {"+": lambda p, q: p + q, "-": lambda p, q: p - q, "*": lambda p, q: p * q, "/": lambda p, q: p / q}
    f = k.fermi and order != a.names  # multiplying fermionic tensors elementwise carries the sign of the order along with it
    for o, fn in ops.items():
        if not f or o in "+-":
            k.same(RT(k.alg, a.names, a.edges, {p: fn(v, b.data[p]) for p, v in a.data.items()}), fn(A, B), "tensor %s tensor" % o, tol)
        k.same(RT(k.alg, a.names, a.edges, {p: fn(v, x) for p, v in a.data.items()}), fn(A, x), "tensor %s number" % o, tol)
        k.same(RT(k.alg, a.names, a.edges, {p: fn(x, v) for p, v in a.data.items()}), fn(x, A), "number %s tensor" % o, tol)
    k.same(a, A, "operand of arithmetic")
    k.same(bb, B, "operand of arithmetic")
    o = r.choice("+-*/")
    if f:
        o = r.choice("+-")
    C = A.copy() if r.chance(50) else A.edge_rename({})
    D = C
    if o == "+":
        C += B
    elif o == "-":
        C -= B
    elif o == "*":
        C *= B
    else:
        C /= B
    want = RT(k.alg, a.names, a.edges, {p: ops[o](v, b.data[p]) for p, v in a.data.items()})
    k.same(want, C, "in place tensor", tol)
    mon.require(C is D, "in place arithmetic changes the object itself")
    E = A.edge_rename({})
    if o == "+":
        E += x
    elif o == "-":
        E -= x
    elif o == "*":
        E *= x
    else:
        E /= x
    k.same(RT(k.alg, a.names, a.edges, {p: ops[o](v, x) for p, v in a.data.items()}), E, "in place number", tol)
    k.same(a, A, "operand of in place arithmetic")
    # functions
    k.same(RT(k.alg, a.names, a.edges, {p: v * v + 1 for p, v in a.data.items()}), A.map(lambda v: v * v + 1), "map", tol * 50)
    F = A.copy()
    mon.require(F.transform(lambda v: v - 2) is F, "transform returns the tensor")
    k.same(RT(k.alg, a.names, a.edges, {p: v - 2 for p, v in a.data.items()}), F, "transform", tol)
    k.same(a, A, "operand of map")
    sq = RT(k.alg, a.names, a.edges, {p: abs(v) for p, v in a.data.items()})
    k.same(RT(k.alg, a.names, a.edges, {p: abs(v) ** 0.5 for p, v in a.data.items()}), k.make(sq).sqrt(), "sqrt", tol)
    Z = F.same_shape()
    mon.require(Z.zero() is Z, "zero returns the tensor")
    k.same(RT(k.alg, a.names, a.edges, {p: 0 for p in a.data}), Z, "zero")
    k.same(RT(k.alg, a.names, a.edges, {p: v - 2 for p, v in a.data.items()}), F, "same_shape shares nothing", tol)
    first, step = r.range(-3, 3), r.range(1, 3)
    k.same(RT(k.alg, a.names, a.edges, {p: first + step * i for i, p in enumerate(a.positions())}), Z.test(first, step), "test")
    # conversion
    for target, s in [("S", "S"), ("D", "D"), ("C", "C"), ("Z", "Z"), (float, "D"), (complex, "Z"), ("float32", "S"), ("complex32", "C"), (np.float32, "S"),
                      (np.float64, "D"), (np.complex128, "Z"), ("float64", "D"), ("complex128", "Z")]:
        if not r.chance(35):
            continue
        other = Case(r, k.kind, s)
        G = A.to(target)
        mon.require(type(G) is other.T, "type after conversion to %r" % (target,))
        other.same(RT(k.alg, a.names, a.edges, {p: v if other.cplx else complex(v).real for p, v in a.data.items()}), G, "conversion to %r" % (target,))
    # numbers
    v = k.value(complex(r.range(-9, 9), r.range(-9, 9)))
    N = k.T(v)
    mon.require(len(N.name) == 0 and (complex(N) if k.cplx else float(N)) == v, "a tensor made of a number")
    names = r.sample(NAMES, r.range(1, 3))
    if not k.no:
        qs = [k.charge() for _ in names[1:]]
        qs.append(k.alg.neg(k.alg.total(qs)))
        arrows = [r.chance(50) for _ in names] if k.fermi else [False for _ in names]
        O = k.T.one(v, names, [k.sym(q) for q in qs], arrows) if k.fermi else k.T.one(v, names, [k.sym(q) for q in qs])
        k.same(RT(k.alg, names, [Edge({q: 1}, w) for q, w in zip(qs, arrows)], {tuple((q, 0) for q in qs): v}), O, "one")
    else:
        k.same(RT(k.alg, names, [Edge({(): 1})] * len(names), {tuple(((), 0) for _ in names): v}), k.T.one(v, names), "one")
    # random
    R = k.T([str(n) for n in a.names], [k.edge(e) for e in a.edges])
    TAT.random.seed(5)
    lo, hi = (complex(-1, 2), complex(3, 5)) if k.cplx else (-1, 3)
    mon.require(R.rand(lo, hi) is R, "rand returns the tensor")
    one = k.read(R)
    for u in one.data.values():
        ok = (lo.real <= u.real <= hi.real and lo.imag <= u.imag <= hi.imag) if k.cplx else lo <= u <= hi
        mon.require(ok, "a random number outside the interval")
    TAT.random.seed(5)
    k.same(one, R.rand(lo, hi), "the same seed gives the same numbers")
    mon.require(all(np.isfinite(x) for x in k.read(R.randn()).data.values()), "normal numbers")
    mon.count("arithmetic")
    if len(a.data) > 1:
        mon.nontrivial(what)


def slices(k):
    r = k.r
    t = k.tensor(unique=True)
    fix, total = {}, k.alg.zero
    for n, e in zip(t.names, t.edges):
        if r.chance(50) and e.positions():
            fix[n] = r.choice(e.positions())
            total = k.alg.add(total, fix[n][0])
    what = "shrink %s%r at %r" % (k.s, t, fix)
    mon.describe(what)
    T = k.make(t)
    named = total != k.alg.zero or r.chance(40)
    arrow = k.fermi and r.chance(50)
    # contract with a tensor that is one at the point
    h = RT(k.alg, [], [])
    at, pairs = [], []
    for n, e in zip(t.names, t.edges):
        if n in fix:
            q, i = fix[n]
            h.names.append(n + "_h")
            h.edges.append(Edge({k.alg.neg(q): e.dims[q]}, not e.arrow))
            at.append((k.alg.neg(q), i))
            pairs.append((n + "_h", n))
    if named:
        h.names.append("new")
        h.edges.append(Edge({total: 1}, arrow))
        at.append((total, 0))
    h.data = {p: 1 if p == tuple(at) else 0 for p in h.positions()}
    conf = {k.name(n): k.point(p) for n, p in fix.items()}
    if not named:
        got = T.shrink(conf)
    elif r.chance(50):
        got = T.shrink(conf, "new", arrow)
    else:
        got = T.shrink(configure=conf, new_name="new", arrow=arrow)
    k.same(ref.contract(h, t, pairs), got, "shrink", ordered=False)
    k.same(t, T, "operand of shrink")
    # expand with new edges of total charge zero
    new, total = {}, k.alg.zero
    n = r.range(0 if k.no else 1, 2)
    for i in range(n):
        q = k.charge() if i + 1 < n else k.alg.neg(total)
        total = k.alg.add(total, q)
        d = r.range(1, 3)
        new["n%d" % i] = (k.fermi and r.chance(50), q, r.randrange(d), d)
    h = RT(k.alg, list(new), [Edge({q: d}, a) for a, q, i, d in new.values()])
    h.data = {p: 1 if p == tuple((q, i) for a, q, i, d in new.values()) else 0 for p in h.positions()}
    conf = {k.name(m): (i, d) if k.no else (a, k.sym(q), i, d) if k.fermi else (k.sym(q), i, d) for m, (a, q, i, d) in new.items()}
    E = T.expand(conf)
    names = [str(x) for x in E.name]
    want = ref.contract(ref.transpose(h, [x for x in names if x in new]), t, []) if len(new) < 2 or not k.fermi else None
    if want is not None:
        k.same(want, E, "expand", ordered=False)
    if t.data and not k.fermi:
        k.same(t, E.shrink({m: k.point((q, i)) for m, (a, q, i, d) in new.items()}), "expand and shrink", ordered=False)
    k.same(t, T, "operand of expand")
    mon.count("slices")
    if len(t.data) > 1:
        mon.nontrivial(what)


def storage(k):
    r = k.r
    t = k.tensor(unique=r.chance(50))
    what = "storage %s%r" % (k.s, t)
    mon.describe(what)
    T = k.make(t)
    if r.chance(50):
        T /= 3
        t = k.read(T)
    data = T.dump()
    mon.require(isinstance(data, bytes), "dump gives bytes")
    k.same(t, k.T().load(data), "dump and load")
    other = k.make(k.tensor())
    alias = other
    shared = other.edge_rename({})
    old = k.read(shared)
    mon.require(other.load(data) is other, "load returns the tensor")
    k.same(t, other, "load over another tensor")
    k.same(old, shared, "load left a tensor that shared the data alone")
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        if p >= 2:
            k.same(t, pickle.loads(pickle.dumps(T, p)), "pickle")
    both = pickle.loads(pickle.dumps([T, {"x": other}, T]))
    k.same(t, both[0], "pickle of a list")
    k.same(t, both[1]["x"], "pickle of a list")
    mon.require(both[0] is both[2], "identity inside a pickle")
    k.same(t, copy.copy(T), "copy.copy")
    C = copy.deepcopy(T)
    k.same(t, C, "copy.deepcopy")
    k.same(t, T, "operand of dump")
    for c in (C, both[0], T.copy(), pickle.loads(pickle.dumps(T))):
        c += 1
        k.same(t, T, "a copy that was changed")
    digits = 1e-5
    text = k.T(str(T))
    k.same(t, text, "text", tol=digits * max([abs(v) for v in t.data.values()], default=0))
    mon.require(str(k.T(str(text))) == str(text), "text of a text")
    mon.require(isinstance(repr(T), str) and str(k.T()) == "{}", "text of an empty tensor")
    mon.count("storage")
    if len(t.data) > 1:
        mon.nontrivial(what)


def history(k):
    """values derived from one another stay independent"""
    r = k.r
    pool = []
    log = []
    for _ in range(r.range(5, 16)):
        act = r.randrange(8)
        if act == 0 or not pool:
            t = k.tensor(rank_max=3)
            pool.append([k.make(t), t])
            log.append("new")
        elif act in (1, 2, 3):
            T, t = r.choice(pool)
            how = r.randrange(7)
            if how == 0:
                pool.append([T.edge_rename({}), t.copy()])
            elif how == 1:
                pool.append([T.copy(), t.copy()])
            elif how == 2:
                pool.append([copy.copy(T), t.copy()])
            elif how == 3:
                pool.append([k.T(T) if False else T.transpose(t.names), t.copy()])
            elif how == 4:
                pool.append([T.to(k.s), t.copy()])
            elif how == 5:
                pool.append([T.reverse_edge(set()), t.copy()])
            else:
                m = {n: n + "'" for n in t.names}
                pool.append([T.edge_rename(m), ref.rename(t, m)])
            log.append("derive%d" % how)
        else:
            i = r.randrange(len(pool))
            T, t = pool[i]
            how = r.randrange(7)
            ps = list(t.positions())
            if how == 0 and ps:
                p = r.choice(ps)
                T[{n: k.point(x) for n, x in zip(t.names, p)}] = 7
                t.data[p] = 7
            elif how == 1 and t.blocks():
                qs = r.choice(t.blocks())
                key, order = k.key(t, qs)
                T.block[key] = 5
                for p in ps:
                    if tuple(q for q, _ in p) == qs:
                        t.data[p] = 5
            elif how == 2 and t.blocks():
                qs = r.choice(t.blocks())
                key, order = k.key(t, qs)
                T.block[key][...] = 9
                for p in ps:
                    if tuple(q for q, _ in p) == qs:
                        t.data[p] = 9
            elif how == 3:
                T *= 2
                t.data = {p: 2 * v for p, v in t.data.items()}
            elif how == 4:
                T.transform(lambda v: v + 1)
                t.data = {p: v + 1 for p, v in t.data.items()}
            elif how == 5:
                T.zero()
                t.data = {p: 0 for p in t.data}
            else:
                other, o = r.choice(pool)
                if sorted(o.names) == sorted(t.names) and all(t.edge(n).dims == o.edge(n).dims and t.edge(n).arrow == o.edge(n).arrow for n in t.names):
                    T += other
                    o2 = ref.transpose(o, t.names)
                    t.data = {p: v + o2.data[p] for p, v in t.data.items()}
            log.append("change%d" % how)
        mon.describe("%s%s history %s" % (k.s, k.kind, " ".join(log)))
        for T, t in pool:
            k.same(t, T, "tensor of a history")
        if len(pool) > 6:
            pool.pop(r.randrange(len(pool)))
    mon.count("history steps", len(log))
    mon.nontrivial("%s%s history %s" % (k.s, k.kind, " ".join(log)))


def objects(k):
    """names, quantum numbers, edges, types"""
    r = k.r
    mon.describe("objects %s%s" % (k.s, k.kind))
    a, b = r.choice(NAMES), r.choice(NAMES)
    A, B = TAT.Name(a), TAT.Name(b)
    mon.require((A == B) == (a == b) and (A != B) == (a != b), "equality of names")
    mon.require(str(A) == a and A.name == a and repr(A) == "Name[%s]" % a, "text of a name")
    mon.require(a != b or hash(A) == hash(B), "hash of names")
    mon.require((A < B) + (B < A) + (A == B) == 1 and (A <= B) == (not B < A) and (A >= B) == (not A < B) and (A > B) == (B < A), "order of names")
    mon.require(TAT.Name(A.id) == A and {A: 1}.get(TAT.Name(a)) == 1, "a name as a key")
    if not k.no:
        p, q = k.charge(), k.charge()
        P, Q = k.sym(p, False), k.sym(q, False)
        mon.require((P == Q) == (p == q) and (P != Q) == (p != q) and (P < Q) == (p < q) and (P <= Q) == (p <= q) and (P > Q) == (p > q) and (P >= Q) == (p >= q),
                    "comparison of quantum numbers %r %r" % (p, q))
        mon.require(p != q or hash(P) == hash(Q), "hash of quantum numbers")
        mon.require(k.q_of(P + Q) == k.alg.add(p, q) and k.q_of(-P) == k.alg.neg(p), "sum of quantum numbers")
        P += Q
        mon.require(k.q_of(P) == k.alg.add(p, q) and k.q_of(Q) == q, "sum in place")
        e = k.rand_edge()
        E = getattr(TAT._internal.Edge, k.kind)
        x = E(e.arrow, k.dims(e)) if k.fermi else E(k.dims(e))
        mon.require({k.q_of(s): d for s, d in x.map.items()} == e.dims, "quantum numbers of an edge")
        mon.require(not k.fermi or x.arrow == e.arrow, "arrow of an edge")
        if not k.fermi:
            n = r.range(1, 5)
            mon.require({k.q_of(s): d for s, d in E(n).map.items()} == {k.alg.zero: n}, "edge made of a dimension")
    scalar = {"S": "float32", "D": "float", "C": "complex32", "Z": "complex"}[k.s]
    words = [scalar] + ([] if k.no and r.chance(50) else [k.kind])
    r.shuffle(words)
    mon.require(TAT(*words) is k.T, "TAT(%r)" % (words,))
    if not k.fermi:
        g = [TAT.random.uniform_int(-2, 3), TAT.random.uniform_real(1, 2), TAT.random.normal(0, 1)]
        TAT.random.seed(11)
        x = [[f() for _ in range(20)] for f in g[:2]]
        mon.require(all(isinstance(v, int) and -2 <= v <= 3 for v in x[0]) and all(1 <= v <= 2 for v in x[1]) and np.isfinite(g[2]()), "random numbers")
        TAT.random.seed(11)
        mon.require([[f() for _ in range(20)] for f in g[:2]] == x, "random numbers after seeding")
    mon.count("objects")
    mon.nontrivial("objects %s%s %s %s" % (k.s, k.kind, a, b))


OPS = [(access, 12), (edge_op, 20), (contraction, 16), (trace_and_norms, 8), (decompositions, 12), (operators, 6), (arithmetic, 10), (slices, 8), (storage, 6), (history, 6), (objects, 4)]
TABLE = [f for f, n in OPS for _ in range(n)]
kinds = os.environ.get("VERIF_KINDS", "No Z2 U1 Fermi FermiZ2 FermiU1").split()


def body(r, c):
    k = Case(r, r.choice(kinds), r.choice("SDCZ"))
    r.choice(TABLE)(k)


if __name__ == "__main__":
    code = mon.run(body)
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
