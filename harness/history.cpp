// P01, P12, P20: random histories of operations on a pool of tensors that share data, names and operands.
// Watched after every single step: the result is well formed (P01); every tensor of the pool that the step was not asked to change is bit-for-bit what it was,
// and a tensor asked to change is exactly what the same change gives on a private copy (P12); the working-memory stack is back at its base (P20).
#include "edgeop.hpp"
using namespace gen;

struct Slot {
   Tensor t;
   std::string image;
};
using Point = typename Tensor::EdgePoint;
using PointArrow = typename Tensor::EdgePointWithArrow;
template<class P = Point>
static P point(const Q& q, long i) {
   if constexpr (is_no)
      return P(i);
   else
      return P(sym(q), i);
}
template<class P = PointArrow>
static P point_arrow(bool arrow, const Q& q, long i, long d) {
   if constexpr (is_no)
      return P(i, d);
   else if constexpr (is_fermi)
      return P(arrow, sym(q), i, d);
   else
      return P(sym(q), i, d);
}

struct History {
   Rng& r;
   std::vector<Slot> pool;
   std::string log;
   int fresh_name = 0;
   Opt o;

   explicit History(Rng& rng) : r(rng) {
      o.rank_max = 4;
      o.max_elements = 200;
      o.zero_dim = 2;
   }
   std::string name() {
      return "x" + std::to_string(fresh_name++ % 40);
   }
   static bool usable(const Tensor& t) {
      if (t.names.size() > 6)
         return false;
      long n = 0;
      for (const auto& [_, b] : t.core->blocks) {
         n += b.size();
         for (const auto& v : b)
            if (!std::isfinite(std::abs(v)) || std::abs(v) > 1e6)
               return false;
      }
      if (n > 500)
         return false;
      double full = 1;
      for (const auto& e : t.core->edges) {
         long d = 0;
         for (const auto& [_, x] : e.map)
            d += x;
         full *= std::max(1l, d);
      }
      return full < 5000;
   }
   void add(const Tensor& t) {
      std::string bad = ill_formed(t);
      mon::require(bad.empty(), "[P01] a result is malformed: " + bad);
      if (!usable(t))
         return;
      if (pool.size() < 9)
         pool.push_back({t, image(t)});
      else
         pool[r.range(0, pool.size() - 1)] = {t, image(t)};
   }
   void result(const Tensor& t) {
      add(t);
   }
   // the pool may have been changed only at the given place (-1: nowhere)
   void watch(long except = -1) {
      for (long i = 0; i < (long)pool.size(); i++)
         if (i != except)
            mon::require(image(pool[i].t) == pool[i].image, "[P12] tensor " + std::to_string(i) + " of the pool was changed by an operation on others");
      mon::require(TAT::pmr::get_default_resource() == &TAT::pmr::new_delete_resource_object, "[P20] working memory was not restored");
   }
   long some() {
      return r.range(0, pool.size() - 1);
   }
   RT shape_of(const Tensor& t) {
      return back_of(t);
   }
   // a change of pool[i]; must equal the same change on a private copy and touch nothing else
   template<class F>
   void mutate(long i, F&& f) {
      Tensor priv = pool[i].t.copy();
      const auto seed = r.g;
      f(priv);
      r.g = seed;
      f(pool[i].t);
      watch(i);
      std::string bad = ill_formed(pool[i].t);
      mon::require(bad.empty(), "[P01] a changed tensor is malformed: " + bad);
      mon::require(image(pool[i].t) == image(priv), "[P12] changing a tensor that shares its data differs from changing a private copy");
      if (usable(pool[i].t))
         pool[i].image = image(pool[i].t);
      else
         pool.erase(pool.begin() + i);
      mon::count("mutations");
   }
   Names names(const Tensor& t) {
      Names v;
      for (auto& n : t.names)
         v.push_back(name_str(n));
      return v;
   }
   // a tensor with conjugate pairs of edges
   void paired(RT& t, ref::Pairs& pairs, long k, long extra) {
      for (;;) {
         std::vector<REdge> e;
         Names n;
         pairs.clear();
         for (long i = 0; i < k; i++) {
            REdge x = edge(r, o);
            std::string p = "p" + std::to_string(i), q = "q" + std::to_string(i);
            e.push_back(x);
            n.push_back(p);
            e.push_back(ref::conj_edge(x));
            n.push_back(q);
            pairs.push_back({p, q});
         }
         for (long i = 0; i < extra; i++) {
            e.push_back(edge(r, o));
            n.push_back("f" + std::to_string(i));
         }
         if (!fits(e, o.max_elements))
            continue;
         auto p = subset(r, n.size(), n.size());
         std::vector<REdge> e2;
         Names n2;
         for (auto i : p) {
            e2.push_back(e[i]);
            n2.push_back(n[i]);
         }
         t = with_edges(r, n2, e2, o);
         // tracing and the exponential need both edges of a pair to keep matching quantum numbers
         for (auto& [a, b] : pairs)
            if (t.edges[t.index(b)].dims != ref::conj_edge(t.edges[t.index(a)]).dims) {
               t.names.clear();
               break;
            }
         if (t.names.empty() && k > 0)
            continue;
         return;
      }
   }

   void step() {
      long kind = pool.empty() ? 0 : r.range(0, 29);
      log += " " + std::to_string(kind);
      mon::describe(config_name() + " history" + log);
      mon::count("operation " + std::to_string(kind));
      if (kind == 0) {
         add(make_tensor(tensor(r, o)));
         watch();
         return;
      }
      const long i = some();
      const Tensor held = pool[i].t; // one more sharer, except in half of the changes in place
      const Tensor& t = held;
      if (kind >= 25 && r.chance(50))
         const_cast<Tensor&>(held) = pool[i].t.copy();
      const RT shape = shape_of(t);
      const Names ns = shape.names;
      switch (kind) {
         case 1:
            result(t.copy());
            break;
         case 2: {
            Tensor s = t;
            Tensor m = std::move(s);
            result(m);
            break;
         }
         case 3: {
            std::map<Name, Name> m;
            for (auto& n : ns)
               if (r.chance(50))
                  m[Name(n)] = Name("y" + std::to_string(&n - &ns[0]) + name());
            m[Name("absent")] = Name("other");
            result(t.edge_rename(m));
            break;
         }
         case 4: {
            Names p = ns;
            if (!r.chance(25))
               r.shuffle(p);
            result(t.transpose(names_of(p)));
            break;
         }
         case 5:
         case 6: {
            OpCase c = op_case(r, o);
            Tensor x = make_tensor(c.t);
            const auto im = image(x);
            Tensor y = run_op(x, c.op);
            mon::require(image(x) == im, "[P12] edge operation changed its operand");
            result(x);
            result(y);
            break;
         }
         case 7: { // merge some edges of a pool tensor, and split them back
            Names p = ns;
            r.shuffle(p);
            long k = r.range(0, std::min<long>(3, p.size()));
            p.resize(k);
            std::string m = name() + "m";
            Tensor y = t.merge_edge(std::map<Name, std::vector<Name>>{{Name(m), names_of(p)}}, r.chance(50));
            result(y);
            break;
         }
         case 8: {
            std::set<Name> rev;
            for (auto& n : ns)
               if (r.chance(50))
                  rev.insert(Name(n));
            std::set<Name> ex;
            for (auto& n : ns)
               if (r.chance(30))
                  ex.insert(Name(n));
            result(t.reverse_edge(rev, r.chance(50), std::move(ex)));
            break;
         }
         case 9:
         case 10: { // contract with a new partner
            for (int tries = 0; tries < 10; tries++) {
               long k = r.range(0, std::min<long>(is_fermi ? 2 : 3, ns.size()));
               auto chosen = subset(r, ns.size(), k);
               std::vector<REdge> e;
               Names n;
               ref::Pairs pairs;
               for (auto c : chosen) {
                  e.push_back(partner(r, shape.edges[c], 30));
                  n.push_back("k" + std::to_string(c));
                  pairs.push_back({ns[c], n.back()});
               }
               long f = r.range(0, 2);
               for (long j = 0; j < f; j++) {
                  e.push_back(j == 0 && !is_no ? closing_edge(r, o, e) : edge(r, o));
                  n.push_back("g" + std::to_string(j) + name());
               }
               if (!fits(e, 200))
                  continue;
               if (std::set<std::string>(n.begin(), n.end()).size() != n.size())
                  continue;
               Names rest;
               for (auto& x : ns) {
                  bool used = false;
                  for (auto& [a, b] : pairs)
                     used = used || a == x;
                  if (!used)
                     rest.push_back(x);
               }
               bool clash = false;
               for (auto& x : rest)
                  for (auto& y : n)
                     clash = clash || x == y;
               if (clash)
                  continue;
               Tensor b = make_tensor(with_edges(r, n, e, o));
               const auto im = image(b);
               Tensor y = t.contract(b, pair_set(pairs));
               mon::require(image(b) == im, "[P12] contract changed its second operand");
               result(b);
               result(y);
               break;
            }
            break;
         }
         case 11: {
            if (ns.size() > 4)
               break;
            result(t.contract_all_edge());
            result(t.contract_all_edge(t.conjugate()));
            break;
         }
         case 12: { // the same tensor on both sides
            RT x;
            ref::Pairs pairs;
            paired(x, pairs, 1, r.range(0, is_no ? 1 : 0));
            Tensor a = make_tensor(x);
            const auto im = image(a);
            Tensor y = a.contract(a, std::set<std::tuple<Name, Name>>{{Name(pairs[0].first), Name(pairs[0].second)}, {Name("f0"), Name("f0")}});
            mon::require(image(a) == im, "[P12] contract with itself changed the operand");
            result(a);
            result(y);
            break;
         }
         case 13: {
            RT x;
            ref::Pairs pairs;
            paired(x, pairs, r.range(0, 2), r.range(0, 2));
            Tensor a = make_tensor(x);
            const auto im = image(a);
            Tensor y = a.trace(pair_set(pairs));
            mon::require(image(a) == im, "[P12] trace changed its operand");
            result(a);
            result(y);
            break;
         }
         case 14:
         case 15: {
            std::set<Name> u;
            for (auto& n : ns)
               if (r.chance(50))
                  u.insert(Name(n));
            std::string a = name() + "u", b = name() + "v";
            auto svd = r.chance(40) ? t.svd(u, Name(a), Name(b), r.range(1, 4)) : t.svd(u, Name(a), Name(b));
            for (const auto& e : svd.U.core->edges[svd.U.name_to_index.at(Name(a))].map) {
               auto f = svd.S.value.find(e.first);
               mon::require(f != svd.S.value.end() && f->second.size() == e.second, "[P01] singular values do not match the new edge");
            }
            auto S = svd.S;
            const auto dump = svd.S.value;
            result(svd.U);
            result(svd.V);
            result(svd.U.multiple(svd.S, Name(a), 'u'));
            result(svd.V.multiple(svd.S, Name(b), 'v'));
            if (r.chance(30))
               result(svd.U.multiple(svd.S, Name(a), 'u', true));
            auto copied = svd.S.copy();
            for (auto& [_, v] : S.value)
               for (auto& x : v)
                  x += 1;
            mon::require(svd.S.value == dump && copied.value == dump, "[P12] singular values were changed through a copy");
            break;
         }
         case 16: {
            std::set<Name> u;
            for (auto& n : ns)
               if (r.chance(50))
                  u.insert(Name(n));
            auto qr = t.qr(r.chance(50) ? 'Q' : 'R', u, Name(name() + "a"), Name(name() + "b"));
            result(qr.Q);
            result(qr.R);
            break;
         }
         case 17: {
            RT x;
            ref::Pairs pairs;
            paired(x, pairs, is_fermi ? 1 : r.range(0, 2), 0);
            for (auto& v : x.d)
               v *= 0.125;
            Tensor a = make_tensor(x);
            const auto im = image(a);
            Tensor y = a.exponential(pair_set(pairs), r.range(1, 6));
            Tensor z = a.identity(pair_set(pairs));
            mon::require(image(a) == im, "[P12] exponential or identity changed its operand");
            result(a);
            result(y);
            result(z);
            break;
         }
         case 18:
            result(t.conjugate());
            break;
         case 19: {
            const Tensor b = pool[some()].t;
            Scalar c = Scalar(r.range(1, 3));
            switch (r.range(0, 5)) {
               case 0:
                  result(t + c);
                  break;
               case 1:
                  result(c - t);
                  break;
               case 2:
                  result(t * c);
                  break;
               case 3:
                  result(t + t);
                  break;
               case 4: {
                  Names p = ns;
                  r.shuffle(p);
                  Tensor x = t.transpose(names_of(p));
                  result(t - x * c);
                  result(t * x);
                  break;
               }
               default:
                  result(t / c);
                  if (names(b) == ns && b.core->edges == t.core->edges)
                     result(t + b);
            }
            break;
         }
         case 20: {
            auto f = t.template to<float>();
            auto z = t.template to<std::complex<double>>();
            auto d = t.template to<double>();
            auto bad = ill_formed(f) + ill_formed(z) + ill_formed(d);
            mon::require(bad.empty(), "[P01] a converted tensor is malformed: " + bad);
            f.zero();
            z.zero();
            d.zero();
            result(t.template to<Scalar>());
            break;
         }
         case 21: { // shrink
            auto pos = ref::positions(shape);
            std::map<Name, Point> conf;
            for (std::size_t k = 0; k < ns.size(); k++)
               if (r.chance(40) && !pos[k].empty()) {
                  auto& [q, x] = r.pick(pos[k]);
                  conf[Name(ns[k])] = point(q, x);
               }
            result(t.shrink(conf, Name(name() + "s"), is_fermi && r.chance(50)));
            break;
         }
         case 22: { // expand
            std::map<Name, PointArrow> conf;
            long n = is_no ? r.range(0, 2) : 2;
            Q q = is_no ? Q() : charge(r);
            for (long k = 0; k < n; k++) {
               long d = r.range(1, 2);
               conf[Name("w" + std::to_string(k) + name())] = point_arrow(is_fermi && r.chance(50), k == 0 ? q : -q, r.range(0, d - 1), d);
            }
            bool clash = false;
            for (auto& [m, _] : conf)
               for (auto& x : t.names)
                  clash = clash || m == x;
            if (!clash && (is_no || conf.size() == 2))
               result(t.expand(conf));
            break;
         }
         case 23: { // output and input
            std::stringstream b;
            b < t;
            const auto text = t.show();
            Tensor x;
            if (r.chance(50))
               x = pool[some()].t; // reading over a tensor that shares its data with others
            b > x;
            mon::require(image(x) == image(t), "[P14] binary round trip");
            watch();
            result(x);
            Tensor y = pool[some()].t;
            y.load(t.dump());
            mon::require(image(y) == image(t), "[P14] load of dump");
            watch();
            Tensor z = pool[some()].t;
            std::stringstream s(text);
            s >> z;
            result(z);
            break;
         }
         case 24:
            result(t.map([](Scalar v) { return v + Scalar(1); }));
            result(t.same_shape().set([] { return Scalar(2); }));
            break;
         // changes in place
         case 25: {
            auto pos = ref::positions(shape);
            std::vector<std::vector<long>> valid;
            ref::each(shape.shape(), [&](const std::vector<long>& idx, long k) {
               Q s;
               for (std::size_t j = 0; j < idx.size(); j++)
                  s = s + pos[j][idx[j]].first;
               if (s == Q())
                  valid.push_back(idx);
            });
            if (valid.empty())
               break;
            auto idx = r.pick(valid);
            const bool whole = r.chance(50);
            mutate(i, [&](Tensor& x) {
               if (whole) {
                  std::map<Name, Sym> p;
                  for (std::size_t j = 0; j < idx.size(); j++)
                     p[Name(ns[j])] = sym(pos[j][idx[j]].first);
                  for (auto& v : x.block(p))
                     v += Scalar(3);
               } else {
                  std::map<Name, Point> p;
                  for (std::size_t j = 0; j < idx.size(); j++)
                     p[Name(ns[j])] = point(pos[j][idx[j]].first, pos[j][idx[j]].second);
                  x.at(p) = Scalar(7);
               }
            });
            break;
         }
         case 26: {
            const int w = r.range(0, 4);
            mutate(i, [&](Tensor& x) {
               if (w == 0)
                  x.transform([](Scalar v) { return v * Scalar(2); });
               else if (w == 1)
                  x.set([] { return Scalar(5); });
               else if (w == 2)
                  x.zero();
               else if (w == 3)
                  x.test(1, 2);
               else
                  x = x.copy().zero();
            });
            break;
         }
         case 27: {
            const int w = r.range(0, 5);
            mutate(i, [&](Tensor& x) {
               if (w == 0)
                  x += x;
               else if (w == 1)
                  x *= x;
               else if (w == 2)
                  x -= x;
               else if (w == 3)
                  x += Scalar(2);
               else if (w == 4)
                  x *= Scalar(3);
               else
                  x /= Scalar(2);
            });
            break;
         }
         case 28: { // in place with another tensor, possibly one that shares the data
            Names p = ns;
            r.shuffle(p);
            const Tensor b = r.chance(50) ? t : t.transpose(names_of(p));
            const auto im = image(b);
            const int w = r.range(0, 2);
            mutate(i, [&](Tensor& x) {
               if (w == 0)
                  x += b;
               else if (w == 1)
                  x -= b;
               else
                  x *= b;
            });
            mon::require(image(b) == im, "[P12] the right-hand operand of an in-place operation was changed");
            break;
         }
         case 29: { // load over
            const Tensor b = pool[some()].t;
            const auto im = image(b);
            const auto d = b.dump();
            mutate(i, [&](Tensor& x) { x.load(d); });
            mon::require(image(b) == im, "[P12] loading changed the source");
            break;
         }
      }
      watch();
   }
};

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      History h(r);
      const long steps = r.range(5, 40);
      for (long s = 0; s < steps; s++)
         h.step();
      mon::nontrivial(h.log);
      mon::count("steps", steps);
      mon::sample(config_name() + " operations" + h.log);
   });
}
