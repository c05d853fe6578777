"""Element-wise model of symmetric tensors for the Python monitors: a tensor is a dictionary from positions to values, a position being
(quantum number, index inside it) on every edge.  Quantum numbers are tuples; it shares no code with the library."""
import itertools

KINDS = {"No": (), "Z2": ("z",), "U1": ("u",), "Fermi": ("f",), "FermiZ2": ("f", "z"), "FermiU1": ("f", "u")}


class Algebra:
    def __init__(self, kind):
        self.kind = kind
        self.parts = KINDS[kind]
        self.fermi = kind.startswith("Fermi")
        self.zero = tuple(0 for _ in self.parts)

    def add(self, a, b):
        return tuple((x + y) % 2 if p == "z" else x + y for p, x, y in zip(self.parts, a, b))

    def neg(self, a):
        return tuple(x if p == "z" else -x for p, x in zip(self.parts, a))

    def odd(self, a):
        return self.fermi and a[0] % 2 != 0

    def total(self, qs):
        s = self.zero
        for q in qs:
            s = self.add(s, q)
        return s


class Edge:
    def __init__(self, dims, arrow=False):
        self.dims = dict(sorted(dims.items()))
        self.arrow = arrow

    def positions(self):
        return [(q, i) for q, d in self.dims.items() for i in range(d)]

    def size(self):
        return sum(self.dims.values())

    def matters(self):
        return any(q[0] != 0 for q in self.dims if q)

    def with_arrow(self, a):
        return Edge(self.dims, a)

    def __repr__(self):
        return ("+" if self.arrow else "-") + str(self.dims)


class RT:
    def __init__(self, alg, names, edges, data=None):
        self.alg, self.names, self.edges = alg, list(names), list(edges)
        self.data = {} if data is None else data

    def edge(self, n):
        return self.edges[self.names.index(n)]

    def blocks(self):
        return [b for b in itertools.product(*[list(e.dims) for e in self.edges]) if self.alg.total(b) == self.alg.zero]

    def positions(self):
        """every stored position"""
        for b in self.blocks():
            yield from itertools.product(*[[(q, i) for i in range(e.dims[q])] for q, e in zip(b, self.edges)])

    def prune(self):
        used = [set() for _ in self.edges]
        for b in self.blocks():
            for u, q in zip(used, b):
                u.add(q)
        edges = [Edge({q: d for q, d in e.dims.items() if q in u}, e.arrow) for e, u in zip(self.edges, used)]
        r = RT(self.alg, self.names, edges)
        r.data = {p: self.data.get(p, 0) for p in r.positions()}
        return r

    def copy(self):
        return RT(self.alg, self.names, self.edges, dict(self.data))

    def __repr__(self):
        return self.alg.kind + " " + " ".join("%s%r" % x for x in zip(self.names, self.edges))


def pair_sign(n):
    return -1 if (n * (n - 1) // 2) % 2 else 1


def rename(t, m):
    return RT(t.alg, [m.get(n, n) for n in t.names], t.edges, dict(t.data))


def transpose(t, order):
    perm = [t.names.index(n) for n in order]
    odd = t.alg.odd
    inversions = [(perm[i], perm[j]) for i in range(len(perm)) for j in range(i + 1, len(perm)) if perm[i] > perm[j]] if t.alg.fermi else []
    data = {}
    for p, v in t.data.items():
        n = sum(1 for i, j in inversions if odd(p[i][0]) and odd(p[j][0]))
        data[tuple(p[k] for k in perm)] = -v if n % 2 else v
    return RT(t.alg, order, [t.edges[k] for k in perm], data)


def cut(t, c):
    edges = []
    for n, e in zip(t.names, t.edges):
        dims = {}
        for q, d in e.dims.items():
            k = min(d, c[n][q]) if n in c and q in c[n] else d
            if k != 0 or d == 0:
                dims[q] = k
        edges.append(Edge(dims, e.arrow))
    return RT(t.alg, t.names, edges, {p: v for p, v in t.data.items() if all(q in e.dims and i < e.dims[q] for (q, i), e in zip(p, edges))})


def fuse(alg, parts, arrow):
    """(whole edge, map from the positions of the parts to the position of the whole)"""
    dims, at = {}, {}
    for qs in itertools.product(*[list(e.dims) for e in parts]):
        s = alg.total(qs)
        offset = dims.get(s, 0)
        k = 0
        for idx in itertools.product(*[range(e.dims[q]) for q, e in zip(qs, parts)]):
            at[tuple(zip(qs, idx))] = (s, offset + k)
            k += 1
        dims[s] = offset + k
    return Edge(dims, arrow), at


def reverse(t, names, signed):
    edges = [e.with_arrow(e.arrow != (n in names)) for n, e in zip(t.names, t.edges)]
    which = [i for i, n in enumerate(t.names) if n in names and n in signed]
    return RT(t.alg, t.names, edges, {p: -v if sum(t.alg.odd(p[i][0]) for i in which) % 2 else v for p, v in t.data.items()})


def split(t, name, parts, sign):
    k = t.names.index(name)
    arrow = t.edges[k].arrow
    pe = [e.with_arrow(arrow) for _, e in parts]
    _, at = fuse(t.alg, pe, arrow)
    back = {w: p for p, w in at.items()}
    r = RT(t.alg, t.names[:k] + [n for n, _ in parts] + t.names[k + 1:], t.edges[:k] + pe + t.edges[k + 1:])
    for p, v in t.data.items():
        if p[k] in back:
            mid = back[p[k]]
            s = pair_sign(sum(t.alg.odd(q) for q, _ in mid)) if sign and t.alg.fermi else 1
            r.data[p[:k] + mid + p[k + 1:]] = s * v
    return r


def merge_adjacent(t, k, n, name, arrow, sign):
    whole, at = fuse(t.alg, t.edges[k:k + n], arrow)
    r = RT(t.alg, t.names[:k] + [name] + t.names[k + n:], t.edges[:k] + [whole] + t.edges[k + n:])
    for p, v in t.data.items():
        s = pair_sign(sum(t.alg.odd(q) for q, _ in p[k:k + n])) if sign and t.alg.fermi else 1
        r.data[p[:k] + (at[p[k:k + n]],) + p[k + n:]] = s * v
    return r


def edge_operator(t, rename_map, split_map, reversed_names, merge_map, result, parity=False, exclude=((), (), (), ()), cut_map={}):
    def marked(k, n):
        return parity != (n in exclude[k])
    t = rename(cut(t, cut_map), rename_map)
    for n, parts in split_map.items():
        if n in t.names:
            t = split(t, n, parts, marked(0, n))
    if t.alg.fermi:
        t = reverse(t, reversed_names, {n for n in reversed_names if marked(1, n)})
    before = [x for n in result for x in merge_map.get(n, [n])]
    t = transpose(t, before)
    k = 0
    for n in result:
        if n in merge_map:
            m = len(merge_map[n])
            arrow, fixed, flip = False, False, set()
            if t.alg.fermi:
                for a in range(k, k + m):
                    if t.edges[a].matters():
                        if not fixed:
                            fixed, arrow = True, t.edges[a].arrow
                        elif t.edges[a].arrow != arrow:
                            flip.add(t.names[a])
                t = reverse(t, flip, {x for x in flip if marked(2, x)})
            if m == 1:
                t.names[k] = n
            else:
                t = merge_adjacent(t, k, m, n, arrow, marked(3, n))
        k += 1
    return t.prune()


def contract(a, b, pairs):
    """free edges of a, then of b"""
    alg = a.alg
    ca, cb = [x for x, _ in pairs], [y for _, y in pairs]
    fa, fb = [n for n in a.names if n not in ca], [n for n in b.names if n not in cb]
    A, B = transpose(a, fa + ca), transpose(b, cb + fb)
    k, na = len(pairs), len(fa)
    r = RT(alg, fa + fb, A.edges[:na] + B.edges[k:])
    rows = {}
    for p, v in B.data.items():
        rows.setdefault(p[:k], []).append((p[k:], v))
    for p, v in A.data.items():
        mid = p[na:]
        s = 1
        if alg.fermi:
            s = pair_sign(sum(alg.odd(q) for q, _ in mid))
            for (q, _), e in zip(mid, A.edges[na:]):
                if alg.odd(q) and not e.arrow:
                    s = -s
        for rest, w in rows.get(tuple((alg.neg(q), i) for q, i in mid), []):
            key = p[:na] + rest
            r.data[key] = r.data.get(key, 0) + s * v * w
    return r.prune()


def contract_fuse(a, b, pairs, fused):
    """no symmetry: edges of the same name that are not contracted are kept once; the fused edges' order is given by the library's result"""
    ca, cb = [x for x, _ in pairs], [y for _, y in pairs]
    fa = [n for n in a.names if n not in ca and n not in fused]
    fb = [n for n in b.names if n not in cb and n not in fused]
    A, B = transpose(a, fused + fa + ca), transpose(b, fused + cb + fb)
    f, k, na = len(fused), len(pairs), len(fused) + len(fa)
    r = RT(a.alg, fused + fa + fb, A.edges[:na] + B.edges[f + k:])
    rows = {}
    for p, v in B.data.items():
        rows.setdefault(p[:f + k], []).append((p[f + k:], v))
    for p, v in A.data.items():
        for rest, w in rows.get(p[:f] + p[na:], []):
            key = p[:na] + rest
            r.data[key] = r.data.get(key, 0) + v * w
    return r.prune()


def trace(t, pairs):
    alg = t.alg
    order = []
    for x, y in pairs:
        if alg.fermi and not t.edge(x).arrow:
            x, y = y, x
        order += [x, y]
    free = [n for n in t.names if n not in order]
    a = transpose(t, order + free)
    r = RT(alg, free, [t.edge(n) for n in free])
    for p, v in a.data.items():
        if all(p[2 * i][0] == alg.neg(p[2 * i + 1][0]) and p[2 * i][1] == p[2 * i + 1][1] for i in range(len(pairs))):
            key = p[2 * len(pairs):]
            r.data[key] = r.data.get(key, 0) + v
    return r.prune()


def conjugate(t):
    alg = t.alg
    r = RT(alg, t.names, [Edge({alg.neg(q): d for q, d in e.dims.items()}, not e.arrow) for e in t.edges])
    for p, v in t.data.items():
        s = pair_sign(sum(alg.odd(q) for q, _ in p)) if alg.fermi else 1
        r.data[tuple((alg.neg(q), i) for q, i in p)] = s * complex(v).conjugate()
    return r
