// P04 (no symmetry and bosonic) and P05 (fermionic): contraction against the sum over paired indices.
#include "edgeop.hpp"
using namespace gen;

#ifndef OTHER
#define OTHER SCALAR
#endif
using Other = OTHER;
using OtherTensor = TAT::Tensor<Other, Sym, Name>;

struct Two {
   RT a, b;
   ref::Pairs pairs;
};
static Two two(Rng& r, long k, long free_max, int perturb, const Opt& o) {
   for (;;) {
      Two x;
      std::vector<REdge> ea, eb, ca;
      long fa = r.range(0, free_max), fb = r.range(0, free_max);
      for (long i = 0; i < fa; i++)
         ea.push_back(edge(r, o));
      for (long i = 0; i < fb; i++)
         eb.push_back(edge(r, o));
      Names na = fresh(fa, "a"), nb = fresh(fb, "b");
      for (long i = 0; i < k; i++) {
         REdge e = i + 1 == k && !is_no && !r.chance(o.unbalanced) ? closing_edge(r, o, ea) : edge(r, o);
         ea.push_back(e);
         na.push_back(r.chance(50) ? "c" + std::to_string(i) : "d" + std::to_string(i));
         nb.push_back("c" + std::to_string(i));
         x.pairs.push_back({na.back(), nb.back()});
         eb.push_back(partner(r, e, perturb));
      }
      if (fb && !is_no && !r.chance(o.unbalanced)) { // make the second operand have blocks too
         std::vector<REdge> rest(eb.begin() + 1, eb.end());
         eb[0] = closing_edge(r, o, rest);
      }
      if (!fits(ea, o.max_elements) || !fits(eb, o.max_elements))
         continue;
      auto mix = [&](Names& n, std::vector<REdge>& e) {
         auto p = subset(r, n.size(), n.size());
         if (r.chance(30)) {
            std::sort(p.begin(), p.end());
            if (r.chance(50) && !p.empty())
               std::rotate(p.begin(), p.begin() + r.range(0, p.size() - 1), p.end());
         }
         Names m;
         std::vector<REdge> f;
         for (auto i : p) {
            m.push_back(n[i]);
            f.push_back(e[i]);
         }
         n = m;
         e = f;
      };
      mix(na, ea);
      mix(nb, eb);
      x.a = with_edges(r, na, ea, o);
      x.b = with_edges(r, nb, eb, o);
      r.shuffle(x.pairs);
      return x;
   }
}
static ref::Pairs by_names(const ref::Pairs& p, const Names& order, bool first) {
   ref::Pairs q;
   for (auto& n : order)
      for (auto& x : p)
         if ((first ? x.first : x.second) == n)
            q.push_back(x);
   return q;
}
// compares with the true result, and reports the known deviation separately
template<class T>
static void compare(const RT& a, const RT& b, const ref::Pairs& pairs, const T& got, double tol, const std::string& what) {
   RT want = ref::contract(a, b, pairs, is_fermi);
   mon::observe(want.d.size());
   std::string bad = ill_formed(got);
   if (!bad.empty())
      throw mon::Bad(what + ": result is malformed: " + bad);
   RT g = back_of(got);
   bad = ref::diff(want, g, tol, is_fermi);
   if (bad.empty())
      return;
   if (is_fermi && pairs.size() > 1)
      for (bool first : {true, false}) {
         RT by_rank = ref::contract_by_rank(a, b, by_names(pairs, first ? a.names : b.names, first), is_fermi);
         if (ref::diff(by_rank, g, tol, is_fermi).empty())
            throw mon::Known("fermi-multi-edge-order");
      }
   throw mon::Bad(what + ": " + bad);
}
static bool agree(const Two& x) {
   return ref::same_order(x.a, x.b, by_names(x.pairs, x.a.names, true)) && ref::same_order(x.a, x.b, by_names(x.pairs, x.b.names, false));
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.max_elements = 250;
      o.zero_dim = 3;
      const int kind = r.range(0, 11);
      if (kind < 8) {
         long k = r.range(0, is_fermi ? 2 : 4);
         const bool wide = kind == 7;
         if (wide) { // one or two wide edges
            o.dim_max = 24;
            o.charges_max = 2;
            k = r.range(1, 2);
            o.max_elements = 1200;
            o.zero_dim = 0;
         }
         Two x = two(r, k, wide ? 1 : 3, is_no ? 0 : 35, o);
         if (is_fermi && k > 1 && r.chance(70)) // keep the deviation listed as known from hiding others
            for (int tries = 0; tries < 50 && !agree(x); tries++)
               x = two(r, k, wide ? 1 : 3, 35, o);
         std::string what = config_name() + " contract " + ref::describe(x.a) + " with " + ref::describe(x.b) + " over";
         for (auto& [p, q] : x.pairs)
            what += " " + p + "=" + q;
         mon::describe(what);
         const Tensor A = make_tensor(x.a), B = make_tensor(x.b);
         const auto ia = image(A), ib = image(B);
         auto pairs = pair_set(x.pairs);
         if (r.chance(20)) // a pair that does not exist is ignored
            pairs.insert({Name("absent"), Name("nothing")});
         if (!x.a.d.empty() && !x.b.d.empty()) {
            mon::nontrivial(what);
            mon::sample(what);
         }
         mon::count("pairs " + std::to_string(k));
         Tensor R = A.contract(B, pairs);
         compare(x.a, x.b, x.pairs, R, 0, "contract");
         mon::require(image(A) == ia && image(B) == ib, "contract changed an operand");
         // mixed scalar types
         if (kind < 3 && !std::is_same_v<Other, Scalar>) {
            RT b = x.b;
            if (!TAT::is_complex_v<Other>)
               for (auto& v : b.d)
                  v = v.real();
            auto Bo = make_tensor_of<OtherTensor>(b);
            compare(x.a, b, x.pairs, A.contract(Bo, pairs), 0, "contract with another scalar type");
            ref::Pairs flip;
            for (auto& [p, q] : x.pairs)
               flip.push_back({q, p});
            compare(b, x.a, flip, TAT::contract(Bo, A, pair_set(flip)), 0, "contract from another scalar type");
            mon::count("mixed scalar types");
         }
         // edges of the operands in another order: the same tensor
         if (!is_fermi || k < 2 || agree(x)) {
            Names oa = x.a.names, ob = x.b.names;
            r.shuffle(oa);
            r.shuffle(ob);
            Two y = x;
            y.a = ref::transpose(x.a, oa);
            y.b = ref::transpose(x.b, ob);
            if (!is_fermi || k < 2 || agree(y)) {
               Tensor S = A.transpose(names_of(oa)).contract(B.transpose(names_of(ob)), pairs);
               Names order;
               for (auto& n : R.names)
                  order.push_back(name_str(n));
               std::string d = ref::diff(back(R), back(S.transpose(names_of(order))), 0, is_fermi);
               mon::require(d.empty(), "contracting the transposed operands: " + d);
               mon::count("order independence");
            }
         }
      } else if (kind < 10 && is_no) { // edges of the same name that are not contracted are kept once
         Two x = two(r, r.range(0, 2), 2, 0, o);
         long n = r.range(1, 2);
         Names fused;
         Names na = x.a.names, nb = x.b.names;
         auto ea = x.a.edges, eb = x.b.edges;
         for (long i = 0; i < n; i++) {
            fused.push_back("f" + std::to_string(i));
            REdge e = edge(r, o);
            long p = r.range(0, na.size()), q = r.range(0, nb.size());
            na.insert(na.begin() + p, fused.back());
            ea.insert(ea.begin() + p, e);
            nb.insert(nb.begin() + q, fused.back());
            eb.insert(eb.begin() + q, e);
         }
         RT a = with_edges(r, na, ea, o), b = with_edges(r, nb, eb, o);
         std::string what = config_name() + " contract with kept edges " + ref::describe(a) + " with " + ref::describe(b) + " over";
         for (auto& [p, q] : x.pairs)
            what += " " + p + "=" + q;
         mon::describe(what);
         if constexpr (is_no) {
            Tensor R = make_tensor(a).contract(make_tensor(b), pair_set(x.pairs));
            std::string bad = ill_formed(R);
            mon::require(bad.empty(), "contract with kept edges: malformed: " + bad);
            RT want = ref::contract_fuse(a, b, x.pairs, fused), got = back(R);
            std::set<std::string> s1(want.names.begin(), want.names.end()), s2(got.names.begin(), got.names.end());
            mon::require(s1 == s2 && want.names.size() == got.names.size(), "contract with kept edges: wrong names " + ref::str(got.names));
            bad = ref::diff(ref::transpose(want, got.names), got, 0, false);
            mon::observe(want.d.size());
            mon::require(bad.empty(), "contract with kept edges: " + bad);
            mon::nontrivial(what);
            mon::count("kept edges");
         }
      } else if (kind < 11) { // a chain of three or four tensors in every association
         const long n = r.range(3, 4);
         o.max_elements = 60;
         std::vector<RT> t;
         std::vector<REdge> bond;
         for (long i = 0; i + 1 < n; i++)
            bond.push_back(edge(r, o));
         for (long i = 0; i < n; i++) {
            Names names{"p" + std::to_string(i)};
            std::vector<REdge> e;
            std::vector<REdge> others;
            if (i > 0) {
               names.push_back("b" + std::to_string(i - 1));
               others.push_back(ref::conj_edge(bond[i - 1]));
            }
            if (i + 1 < n) {
               names.push_back("b" + std::to_string(i));
               others.push_back(bond[i]);
            }
            e.push_back(is_no ? edge(r, o) : closing_edge(r, o, others));
            e.insert(e.end(), others.begin(), others.end());
            RT x = with_edges(r, names, e, o);
            Names order = names;
            r.shuffle(order);
            t.push_back(ref::transpose(x, order));
         }
         std::string what = config_name() + " chain";
         for (auto& x : t)
            what += " " + ref::describe(x);
         mon::describe(what);
         // the model contracts from the left; the library in a random order of bonds
         RT want = t[0];
         for (long i = 1; i < n; i++)
            want = ref::contract(want, t[i], {{"b" + std::to_string(i - 1), "b" + std::to_string(i - 1)}}, is_fermi);
         for (int trial = 0; trial < 3; trial++) {
            std::vector<Tensor> p;
            for (auto& x : t)
               p.push_back(make_tensor(x));
            std::vector<long> left; // bond numbers between consecutive pieces
            for (long i = 0; i + 1 < n; i++)
               left.push_back(i);
            while (p.size() > 1) {
               long i = r.range(0, p.size() - 2);
               Name b("b" + std::to_string(left[i]));
               p[i] = p[i].contract(p[i + 1], std::set<std::tuple<Name, Name>>{{b, b}});
               p.erase(p.begin() + i + 1);
               left.erase(left.begin() + i);
            }
            Tensor R = p[0].transpose(names_of(want.names));
            std::string bad = ill_formed(R);
            mon::require(bad.empty(), "chain: malformed: " + bad);
            // quantum numbers that end up without blocks may differ between orders of contraction; compare the elements
            bad = ref::diff_values(want, back(R), 0);
            mon::observe(want.d.size());
            mon::require(bad.empty(), "chain: " + bad);
         }
         mon::nontrivial(what);
         mon::count("chains");
      } else { // every common name
         Two x = two(r, is_fermi ? r.range(0, 1) : r.range(0, 3), 2, is_no ? 0 : 20, o);
         std::map<std::string, std::string> m;
         ref::Pairs p;
         for (auto& [u, v] : x.pairs) {
            m[u] = v;
            p.push_back({v, v});
         }
         RT a = ref::rename(x.a, m);
         std::string what = config_name() + " contract_all_edge " + ref::describe(a) + " with " + ref::describe(x.b);
         mon::describe(what);
         compare(a, x.b, p, make_tensor(a).contract_all_edge(make_tensor(x.b)), 0, "contract_all_edge");
         mon::nontrivial(what);
         mon::count("contract_all_edge");
      }
   });
}
