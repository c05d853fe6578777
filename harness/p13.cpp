// P13: element access, shrink and expand.
#include "edgeop.hpp"
using namespace gen;

using Point = typename Tensor::EdgePoint;
using PointArrow = typename Tensor::EdgePointWithArrow;

template<class P = Point>
static P point(const std::pair<Q, long>& p) {
   if constexpr (is_no)
      return P(p.second);
   else
      return P(sym(p.first), p.second);
}
template<class P = PointArrow>
static P point_arrow(bool arrow, const Q& q, long i, long d) {
   if constexpr (is_no)
      return P(i, d);
   else if constexpr (is_fermi)
      return P(arrow, sym(q), i, d);
   else
      return P(sym(q), i, d);
}

static void access(Rng& r, const RT& t) {
   Tensor T = make_tensor(t);
   auto pos = ref::positions(t);
   auto shape = t.shape();
   std::vector<std::vector<long>> valid;
   ref::each(shape, [&](const std::vector<long>& idx, long k) {
      Q s;
      for (std::size_t i = 0; i < idx.size(); i++)
         s = s + pos[i][idx[i]].first;
      if (s == Q())
         valid.push_back(idx);
   });
   RT now = t;
   const Tensor other = T; // shares its data
   const auto io = image(other);
   Names order = t.names;
   r.shuffle(order);
   for (int trial = 0; trial < 6 && !valid.empty(); trial++) {
      auto& idx = r.pick(valid);
      std::map<Name, Point> p;
      for (auto& n : order)
         p[Name(n)] = point(pos[t.index(n)][idx[t.index(n)]]);
      const Tensor& K = T;
      auto k = ref::flat(shape, idx);
      mon::require(to_c(K.at(p)) == now.d[k] && to_c(T.const_at(p)) == now.d[k], "reading an element");
      ref::cplx v(r.range(1000, 2000));
      T.at(p) = from_c<Scalar>(v);
      now.d[k] = v;
      expect(now, T, 0, "writing an element");
      mon::require(image(other) == io, "writing an element changed a tensor sharing the data");
   }
   // blocks
   if (!valid.empty()) {
      auto& idx = r.pick(valid);
      std::map<Name, Sym> p;
      std::vector<long> dims;
      std::vector<Q> q;
      for (std::size_t i = 0; i < idx.size(); i++) {
         q.push_back(pos[i][idx[i]].first);
         p[Name(t.names[i])] = sym(q.back());
         dims.push_back(t.edges[i].dims.at(q.back()));
      }
      const Tensor& K = T;
      const auto& b = K.block(p);
      mon::require((long)b.size() == ref::product(dims), "size of a block");
      ref::each(dims, [&](const std::vector<long>& j, long k) {
         std::vector<long> full;
         for (std::size_t i = 0; i < j.size(); i++)
            full.push_back(t.edges[i].pos(q[i], j[i]));
         mon::require(to_c(b[k]) == now.d[ref::flat(shape, full)], "reading a block");
      });
      auto& w = T.block(p);
      ref::each(dims, [&](const std::vector<long>& j, long k) {
         std::vector<long> full;
         for (std::size_t i = 0; i < j.size(); i++)
            full.push_back(t.edges[i].pos(q[i], j[i]));
         w[k] = Scalar(k + 5);
         now.d[ref::flat(shape, full)] = k + 5;
      });
      expect(now, T, 0, "writing a block");
      const auto& cb = T.const_block(p);
      mon::require((long)cb.size() == ref::product(dims), "size of a constant block");
   }
   if (t.rank() == 0)
      mon::require(to_c(Scalar(T)) == now.d[0], "value of a number");
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.rank_max = 5;
      o.max_elements = 400;
      o.zero_dim = 2;
      o.unique = true;
      const int kind = r.range(0, 2);
      RT t = tensor(r, o);
      std::string what = config_name() + " " + ref::describe(t);
      if (kind == 0) {
         mon::describe("access " + what);
         access(r, t);
         if (t.d.size() > 1)
            mon::nontrivial("access " + what);
         return;
      }
      auto pos = ref::positions(t);
      if (kind == 1) { // shrink
         std::map<std::string, std::pair<Q, long>> fix;
         Q total;
         for (std::size_t i = 0; i < t.rank(); i++)
            if (r.chance(50) && !pos[i].empty()) {
               fix[t.names[i]] = r.pick(pos[i]);
               total = total + fix[t.names[i]].first;
            }
         bool named = total != Q() || r.chance(40);
         bool arrow = is_fermi && r.chance(50);
         std::map<Name, Point> conf;
         what = "shrink " + what;
         for (auto& [n, p] : fix) {
            conf[Name(n)] = point(p);
            what += " " + n + "=" + ref::str(p.first) + "#" + std::to_string(p.second);
         }
         what += named ? " with a new edge" : "";
         mon::describe(what);
         const Tensor T = make_tensor(t);
         const auto before = image(T);
         Tensor S = named ? T.shrink(conf, Name("new"), arrow) : T.shrink(conf);
         mon::require(image(T) == before, "shrink changed its operand");
         // the slice: without symmetry signs this is plain indexing
         RT h;
         ref::Pairs pairs;
         std::vector<long> at;
         for (std::size_t i = 0; i < t.rank(); i++)
            if (auto f = fix.find(t.names[i]); f != fix.end()) {
               REdge e;
               e.arrow = !t.edges[i].arrow;
               e.dims[-f->second.first] = t.edges[i].dims.at(f->second.first);
               h.names.push_back(t.names[i] + "_h");
               h.edges.push_back(e);
               at.push_back(f->second.second);
               pairs.push_back({t.names[i] + "_h", t.names[i]});
            }
         if (named) {
            REdge e;
            e.arrow = arrow;
            e.dims[total] = 1;
            h.names.push_back("new");
            h.edges.push_back(e);
            at.push_back(0);
         }
         h.d.assign(ref::product(h.shape()), 0);
         h.d[ref::flat(h.shape(), at)] = 1;
         RT want = ref::contract(h, t, pairs, is_fermi);
         expect(want, S, 0, "shrink");
         mon::observe(want.d.size());
         // plain indexing, up to the fermionic sign
         auto gp = ref::positions(want);
         RT got = back(S);
         ref::each(got.shape(), [&](const std::vector<long>& idx, long k) {
            std::vector<long> full(t.rank());
            for (std::size_t i = 0; i < t.rank(); i++) {
               auto [q, x] = fix.count(t.names[i]) ? fix.at(t.names[i]) : gp[got.index(t.names[i])][idx[got.index(t.names[i])]];
               full[i] = t.edges[i].pos(q, x);
            }
            auto v = t.d[ref::flat(t.shape(), full)];
            mon::require(got.d[k] == v || (is_fermi && got.d[k] == -v), "slice is not the indexed part");
         });
         if (!fix.empty() && t.d.size() > 1) {
            mon::nontrivial(what);
            mon::sample(what);
         }
         mon::count(named ? "shrink with a new edge" : "shrink");
      } else { // expand
         long n = r.range(is_no ? 0 : 1, 3);
         bool old = r.chance(50);
         std::map<std::string, std::tuple<bool, Q, long, long>> add;
         Q total;
         for (long i = 0; i < n; i++) {
            Q q = is_no ? Q() : charge(r);
            if (!old && i + 1 == n)
               q = -total;
            total = total + q;
            long d = r.range(1, 3);
            add["n" + std::to_string(i)] = {is_fermi && r.chance(50), q, r.range(0, d - 1), d};
         }
         RT x = t;
         if (old) { // an edge of dimension one carrying the charge
            REdge e;
            e.arrow = is_fermi && r.chance(50);
            e.dims[total] = 1;
            Names names = t.names;
            auto edges = t.edges;
            long p = r.range(0, names.size());
            names.insert(names.begin() + p, "old");
            edges.insert(edges.begin() + p, e);
            if (!is_no) {
               std::vector<REdge> others;
               for (long i = 0; i < (long)edges.size(); i++)
                  if (i != 0)
                     others.push_back(edges[i]);
               if (p != 0 && edges.size() > 1)
                  edges[0] = closing_edge(r, o, others);
            }
            if (!fits(edges, 600))
               return;
            x = with_edges(r, names, edges, o);
            if (x.edges[x.index("old")].dims.empty())
               return;
         }
         what = config_name() + " expand " + ref::describe(x) + (old ? " from its edge old" : "");
         std::map<Name, PointArrow> conf;
         for (auto& [m, v] : add) {
            auto& [a, q, i, d] = v;
            conf[Name(m)] = point_arrow(a, q, i, d);
            what += " " + m + "=" + ref::str(q) + "#" + std::to_string(i) + "/" + std::to_string(d);
         }
         mon::describe(what);
         const Tensor T = make_tensor(x);
         const auto before = image(T);
         Tensor E = old ? T.expand(conf, Name("old")) : T.expand(conf);
         mon::require(image(T) == before, "expand changed its operand");
         RT h;
         std::vector<long> at;
         for (auto& [m, v] : conf) { // in the library's order of names
            auto& [a, q, i, d] = add.at(name_str(m));
            REdge e;
            e.arrow = a;
            e.dims[q] = d;
            h.names.push_back(name_str(m));
            h.edges.push_back(e);
            at.push_back(i);
         }
         ref::Pairs pairs;
         if (old) {
            REdge e;
            e.arrow = !x.edges[x.index("old")].arrow;
            e.dims[-total] = 1;
            h.names.push_back("old_h");
            h.edges.push_back(e);
            at.push_back(0);
            pairs.push_back({"old_h", "old"});
         }
         h.d.assign(ref::product(h.shape()), 0);
         h.d[ref::flat(h.shape(), at)] = 1;
         RT want = ref::contract(h, x, pairs, is_fermi);
         expect(want, E, 0, "expand");
         mon::observe(want.d.size());
         // shrinking undoes expanding (fermionic tensors: up to a common sign)
         if (!x.d.empty() && ref::max_abs(x) > 0) {
            std::map<Name, Point> fix;
            for (auto& [m, v] : add)
               fix[Name(m)] = point({std::get<1>(v), std::get<2>(v)});
            Tensor B = old ? E.shrink(fix, Name("old"), is_fermi ? x.edges[x.index("old")].arrow : false) : E.shrink(fix);
            RT b = back(B.transpose(names_of(x.names)));
            std::string bad = ref::diff(x, b, 0, is_fermi);
            if (!bad.empty() && is_fermi) {
               for (auto& v : b.d)
                  v = -v;
               bad = ref::diff(x, b, 0, is_fermi);
            }
            mon::require(bad.empty(), "shrinking what was expanded: " + bad);
            mon::count("shrunk what was expanded");
         }
         if (x.d.size() > 1) {
            mon::nontrivial(what);
            mon::sample(what);
         }
         mon::count(old ? "expand an edge" : "expand with new edges");
      }
   });
}
