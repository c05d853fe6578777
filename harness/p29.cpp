// P29: construction, filling, mapping, weights on an edge, and quantum-number arithmetic.
#include <list>

#include "edgeop.hpp"
using namespace gen;

namespace {
   Q wide_charge(Rng& r) {
      const long s = r.pick<long>({1, 3, 100, 15000});
      Q q;
      if constexpr (std::is_same_v<Sym, TAT::Z2Symmetry> || std::is_same_v<Sym, TAT::FermiZ2Symmetry>)
         q.z = r.range(0, 1);
      if constexpr (std::is_same_v<Sym, TAT::U1Symmetry> || std::is_same_v<Sym, TAT::FermiU1Symmetry>)
         q.u = r.range(-s, s) * (r.chance(20) ? 50000 : 1);
      if constexpr (is_fermi)
         q.f = r.range(-s, s);
      return q;
   }
   void numbers(Rng& r) {
      const Q a = wide_charge(r), b = r.chance(30) ? a : wide_charge(r), c = wide_charge(r);
      const Sym A = sym(a), B = sym(b);
      auto what = "quantum numbers " + ref::str(a) + " and " + ref::str(b);
      mon::describe(config_name() + " " + what);
      mon::require(from_sym(A) == a && from_sym(Sym()) == Q(), what + ": made from its labels");
      mon::require(from_sym(A + B) == a + b, what + ": sum");
      mon::require(from_sym(B + A) == a + b, what + ": sum in the other order");
      Sym S = A;
      Sym& back = (S += B);
      mon::require(&back == &S && from_sym(S) == a + b, what + ": sum in place");
      mon::require(from_sym(-A) == -a && A + (-A) == Sym() && from_sym(-(-A)) == a, what + ": negation");
      mon::require(A + Sym() == A, what + ": zero is neutral");
      if (std::abs((a + b + c).f) < 30000)
         mon::require((A + B) + sym(c) == A + (B + sym(c)), what + ": sum of three");
      mon::require((A == B) == (a == b) && (A != B) == (a != b), what + ": equality");
      mon::require((A < B) == (a < b) && (A > B) == (b < a) && (A <= B) == !(b < a) && (A >= B) == !(a < b), what + ": order");
      std::vector<double> data(r.range(0, 9));
      for (auto& x : data)
         x = r.real();
      TAT::vector<double> block(data);
      mon::require(std::equal(block.begin(), block.end(), data.begin(), data.end()) && std::vector<double>(block) == data, "data of a block to and from a vector");
      mon::count("quantum-number pairs");
   }
   template<class S, class F>
   void lists(Rng& r, const REdge& e, long d, F&& check) {
      using E = TAT::Edge<S>;
      if constexpr (!std::is_same_v<S, TAT::NoSymmetry>) {
         std::set<S> s;
         REdge ones;
         for (auto& [q, d] : e.dims) {
            s.insert(to_sym<S>(q));
            ones.dims[q] = 1;
         }
         check(E(s), ones, "a set of quantum numbers");
         const Q a = wide_charge(r), b = wide_charge(r);
         REdge two;
         two.dims[a] = 1;
         two.dims[b] = 1;
         check(E({to_sym<S>(a), to_sym<S>(b)}), two, "a list of quantum numbers");
         REdge two_d;
         two_d.dims[a] = d;
         if (a != b)
            two_d.dims[b] = d + 1;
         check(E({{to_sym<S>(a), TAT::Size(d)}, {to_sym<S>(b), TAT::Size(d + 1)}}), two_d, "a list of quantum numbers and dimensions");
         if constexpr (TAT::is_fermi_symmetry_v<S>) {
            two_d.arrow = e.arrow;
            check(E(e.arrow, {{to_sym<S>(a), TAT::Size(d)}, {to_sym<S>(b), TAT::Size(d + 1)}}), two_d, "an arrow and a list");
         }
      }
   }
   void edges(Rng& r) {
      Opt o;
      o.charges_max = 4;
      REdge e = gen::edge(r, o);
      std::string what = config_name() + " edge";
      mon::describe(what);
      auto check = [&](const Edge& got, const REdge& want, const char* how) {
         REdge g = back_edge(got);
         mon::require(g.dims == want.dims && (!is_fermi || g.arrow == want.arrow), std::string("edge made from ") + how);
      };
      typename Edge::edge_map m;
      for (auto& [q, d] : e.dims)
         m[sym(q)] = d;
      REdge plain = e;
      plain.arrow = false;
      check(Edge(m), plain, "a map");
      {
         auto copy = m;
         check(Edge(std::move(copy)), plain, "a moved map");
      }
      const Edge one = make_edge(e);
      check(one, e, is_fermi ? "an arrow and a map" : "a map");
      Edge assigned(1);
      assigned = one;
      check(assigned, e, "another edge");
      mon::require(assigned == one, "equal edges compare equal");
      {
         REdge other = e;
         other.dims[other.dims.begin()->first]++;
         mon::require(!(make_edge(other) == one), "edges of other dimensions compare different");
         if constexpr (is_fermi) {
            other = e;
            other.arrow = !other.arrow;
            mon::require(!(make_edge(other) == one), "edges of other arrows compare different");
         }
         if constexpr (!is_no) {
            other = e;
            for (int i = 0; i < 50 && other.dims.size() == e.dims.size(); i++)
               other.dims.insert({wide_charge(r), 1});
            if (other.dims.size() != e.dims.size())
               mon::require(!(make_edge(other) == one) && !(one == make_edge(other)), "edges of other quantum numbers compare different");
         }
      }
      const long d = r.range(0, 9);
      REdge trivial;
      trivial.dims[Q()] = d;
      check(Edge(TAT::Size(d)), trivial, "a dimension");
      lists<Sym>(r, e, d, check);
      mon::count("edges made in every way");
   }
   // positions in the model of the stored elements, in storage order: blocks by ascending quantum numbers, rows first inside
   std::vector<long> storage(const RT& t) {
      std::vector<long> r;
      auto shape = t.shape();
      auto keys = ref::zero_blocks(t.edges);
      std::sort(keys.begin(), keys.end());
      for (auto& key : keys) {
         std::vector<long> dims;
         for (std::size_t i = 0; i < key.size(); i++)
            dims.push_back(t.edges[i].dims.at(key[i]));
         ref::each(dims, [&](const std::vector<long>& idx, long) {
            std::vector<long> p;
            for (std::size_t i = 0; i < idx.size(); i++)
               p.push_back(t.edges[i].pos(key[i], idx[i]));
            r.push_back(ref::flat(shape, p));
         });
      }
      return r;
   }
   Scalar number(long a) {
      return from_c<Scalar>(is_cplx ? ref::cplx(a, 3 - 2 * a) : ref::cplx(a));
   }
} // namespace

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      numbers(r);
      edges(r);
      Opt o;
      o.rank_max = 6;
      o.max_elements = 1200;
      o.zero_dim = 3;
      o.unbalanced = 25;
      o.charges_max = 4;
      if (r.chance(10)) {
         o.rank_max = 3;
         o.dim_max = 24;
         o.max_elements = 6000;
      }
      auto e = gen::edges(r, r.range(0, o.rank_max), o);
      RT t{fresh(e.size(), "n", &r), e, {}};
      t.d.assign(ref::product(t.shape()), 0);
      const bool reverse = is_fermi && r.chance(25);
      if (reverse)
         for (auto& x : t.edges)
            if (std::any_of(x.dims.begin(), x.dims.end(), [](auto& i) { return i.first.f < 0; }))
               x.arrow = !x.arrow;
      t = ref::prune(t);
      std::string what = config_name() + " construction of " + ref::describe(t);
      mon::describe(what);
      // construction from different containers
      std::vector<Name> names = names_of(t.names);
      std::vector<Edge> full;
      for (auto& x : e)
         full.push_back(make_edge(x));
      Tensor T;
      switch (r.range(0, 2)) {
         case 0: T = Tensor(names, full, reverse); break;
         case 1: T = Tensor(std::list<Name>(names.begin(), names.end()), std::list<Edge>(full.begin(), full.end()), reverse); break;
         default:
            T = reverse ? Tensor({names.begin(), names.end()}, {full.begin(), full.end()}, true) : Tensor({names.begin(), names.end()}, {full.begin(), full.end()});
      }
      mon::require(T.is_valid(), "a constructed tensor is valid");
      const auto order = storage(t);
      // filling: one call per element, in storage order
      const long first = r.range(-20, 20), step = r.range(-3, 3);
      auto filled = [&](auto&& f) {
         RT w = t;
         for (std::size_t i = 0; i < order.size(); i++)
            w.d[order[i]] = to_c(Scalar(f(long(i))));
         return w;
      };
      long calls = 0;
      Tensor* ret = &T.set([&]() { return number(first + step * calls++); });
      mon::require(ret == &T, "set returns the tensor itself");
      mon::require(calls == long(order.size()), "set calls its generator once per element: " + std::to_string(calls) + " calls for " + std::to_string(order.size()));
      RT w = filled([&](long i) { return number(first + step * i); });
      expect(w, T, 0, "set");
      calls = 0;
      Tensor M = T.map([&](Scalar v) {
         calls++;
         return v * Scalar(3) + Scalar(1);
      });
      mon::require(calls == long(order.size()), "map calls its function once per element");
      RT w3 = filled([&](long i) { return number(first + step * i) * Scalar(3) + Scalar(1); });
      expect(w3, M, 0, "map");
      expect(w, T, 0, "map leaves its operand");
      calls = 0;
      Tensor K = T.copy();
      K.transform([&](Scalar v) {
         calls++;
         return v * Scalar(3) + Scalar(1);
      });
      mon::require(calls == long(order.size()), "transform calls its function once per element");
      expect(w3, K, 0, "transform");
      expect(w3, T.copy().transform([](Scalar v) { return v * Scalar(3) + Scalar(1); }), 0, "transform of a temporary");
      expect(filled([&](long i) { return Scalar(i); }), T.same_shape().test(), 0, "test()");
      expect(filled([&](long i) { return Scalar(number(first) + number(step) * Scalar(i)); }), T.same_shape().test(number(first), number(step)), 0, "test(first, step)");
      expect(filled([&](long) { return Scalar(0); }), M.zero(), 0, "zero()");
      expect(w, T, 0, "filling others leaves the tensor");
      {
         calls = 0;
         Tensor S = T.same_shape().set([&]() { return number(2 + calls++); });
         expect(filled([&](long i) { return number(2 + i); }), S, 0, "set of a temporary");
      }
      // one element
      const Scalar x = number(r.range(-9, 9));
      Tensor scalar(x);
      mon::require(scalar.names.empty() && scalar.is_scalar() && Scalar(scalar) == x, "tensor made from a number");
      RT s0{{}, {}, {to_c(x)}};
      expect(s0, scalar, 0, "tensor made from a number");
      mon::require(T.is_scalar() == (order.size() == 1 && ref::zero_blocks(t.edges).size() == 1), "is_scalar");
      if (T.is_scalar())
         mon::require(to_c(Scalar(T)) == w.d[order[0]], "the number of a one-element tensor");
      {
         const long rank = r.range(0, 6);
         std::vector<Sym> q;
         std::vector<bool> arrows;
         RT u{fresh(rank, "o", &r), {}, {to_c(x)}};
         Q sum;
         for (long i = 0; i < rank; i++) {
            Q k = is_no ? Q() : i + 1 == rank ? -sum : charge(r);
            sum = sum + k;
            q.push_back(sym(k));
            arrows.push_back(is_fermi && r.chance(50));
            REdge x;
            x.dims[k] = 1;
            x.arrow = arrows.back();
            u.edges.push_back(x);
         }
         Tensor one;
         if (is_no && r.chance(50))
            one = Tensor::one(x, names_of(u.names));
         else
            one = Tensor::one(x, names_of(u.names), q, arrows);
         expect(u, one, 0, "one()");
         mon::require(one.is_scalar() && Scalar(one) == x, "the number of one()");
      }
      // the other name type keeps everything else
      {
         std::map<Name, std::string> to;
         for (auto& n : t.names)
            to[Name(n)] = "s-" + n;
         auto other = T.edge_rename(to);
         RT v = w;
         for (auto& n : v.names)
            n = "s-" + n;
         expect(v, other, 0, "renamed to plain strings");
         std::map<std::string, Name> fro;
         for (auto& n : t.names)
            fro["s-" + n] = Name(n);
         expect(w, other.edge_rename(fro), 0, "renamed back from plain strings");
      }
#ifndef TAT_USE_SINGULAR_MATRIX
      // weights on an edge
      if (t.rank() && !order.empty()) {
         const long k = r.range(0, t.rank() - 1);
         for (const bool v : {false, true}) {
            typename Tensor::SingularType S;
            std::map<Q, std::vector<double>> weights;
            for (auto& [q, d] : t.edges[k].dims) {
               auto& list = weights[q];
               for (long i = 0; i < d; i++)
                  list.push_back(std::ldexp(r.range(1, 7), -r.range(0, 3)));
               S.value[sym(v ? -q : q)] = {list.begin(), list.end()};
            }
            if (!is_no && r.chance(30))
               if (const Q q = charge(r); !t.edges[k].dims.count(q))
                  S.value[sym(v ? -q : q)] = {TAT::real_base_t<Scalar>(5)};
            double sum = 0, largest = 0;
            for (const auto& [q, list] : S.value)
               for (auto i : list) {
                  sum += i;
                  largest = std::max(largest, double(i));
               }
            mon::require(S.template norm<1>() == sum && S.template norm<-1>() == largest, "norms of a list of weights");
            auto saved = S.copy();
            const bool division = r.chance(40);
            const char direction = v ? r.pick<char>({'v', 'V'}) : r.pick<char>({'u', 'U'});
            Tensor P = T.multiple(S, Name(t.names[k]), direction, division);
            RT p = w;
            auto pos = ref::positions(t);
            ref::each(t.shape(), [&](const std::vector<long>& idx, long n) {
               auto& [q, i] = pos[k][idx[k]];
               p.d[n] = division ? p.d[n] / weights.at(q)[i] : p.d[n] * weights.at(q)[i];
            });
            double scale = 0;
            for (auto& i : p.d)
               scale = std::max(scale, std::abs(i));
            expect(p, P, division ? 4 * eps * scale : 0, division ? "division by weights" : "multiplication by weights");
            mon::require(saved.value == S.value, "the weights stay");
            mon::count(division ? "divisions by weights" : "multiplications by weights");
         }
         expect(w, T, 0, "weighting leaves its operand");
      }
#endif
      mon::count("elements filled", order.size());
      if (order.size() > 1) {
         mon::nontrivial(what);
         mon::sample(what);
      }
   });
}
