// P06: trace against the diagonal sum.
#include "edgeop.hpp"
using namespace gen;

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.max_elements = 1200;
      o.zero_dim = 3;
      RT t;
      ref::Pairs pairs;
      for (;;) {
         long k = r.range(0, 3), f = r.range(0, 3);
         pairs.clear();
         std::vector<REdge> e;
         Names n;
         Opt q = o;
         if (k == 3) {
            q.dim_max = 2;
            q.charges_max = 2;
         }
         for (long i = 0; i < k; i++) {
            REdge x = edge(r, q);
            e.push_back(x);
            e.push_back(ref::conj_edge(x));
            n.push_back("x" + std::to_string(i));
            n.push_back("y" + std::to_string(i));
            pairs.push_back({n[2 * i], n[2 * i + 1]});
            if (r.chance(50))
               std::swap(pairs.back().first, pairs.back().second);
         }
         std::vector<REdge> fe;
         for (long i = 0; i < f; i++) {
            fe.push_back(i + 1 == f && !is_no && !r.chance(25) ? closing_edge(r, q, fe) : edge(r, q));
            n.push_back("f" + std::to_string(i));
         }
         e.insert(e.end(), fe.begin(), fe.end());
         if (!fits(e, o.max_elements))
            continue;
         auto p = subset(r, n.size(), n.size());
         Names m;
         std::vector<REdge> g;
         for (auto i : p) {
            m.push_back(n[i]);
            g.push_back(e[i]);
         }
         t = with_edges(r, m, g, o);
         bool conj = true;
         for (auto& [a, b] : pairs)
            if (t.edges[t.index(a)].dims != ref::conj_edge(t.edges[t.index(b)]).dims)
               conj = false;
         if (conj || k == 1)
            break;
      }
      r.shuffle(pairs);
      std::string what = config_name() + " trace " + ref::describe(t) + " over";
      for (auto& [a, b] : pairs)
         what += " " + a + "=" + b;
      mon::describe(what);
      const Tensor T = make_tensor(t);
      const auto before = image(T);
      RT want = ref::trace(t, pairs, is_fermi);
      Tensor R = T.trace(pair_set(pairs));
      expect(want, R, 0, "trace");
      mon::observe(want.d.size());
      mon::require(image(T) == before, "trace changed its operand");
      if (pairs.size() > 0 && !t.d.empty()) {
         mon::nontrivial(what);
         mon::sample(what);
      }
      mon::count("pairs " + std::to_string(pairs.size()));
      if (pairs.size() > 1) { // one after another
         Tensor S = T;
         for (auto& p : pairs)
            S = S.trace(pair_set({p}));
         std::string bad = ill_formed(S);
         mon::require(bad.empty(), "tracing one after another: malformed: " + bad);
         bad = ref::diff(want, back(S), 0, is_fermi);
         mon::require(bad.empty(), "tracing one after another: " + bad);
         mon::count("one after another");
      }
      // the order of the other edges beforehand does not matter
      Names order = t.names;
      r.shuffle(order);
      Tensor P = T.transpose(names_of(order)).trace(pair_set(pairs)).transpose(R.names);
      std::string bad = ref::diff(back(R), back(P), 0, is_fermi);
      mon::require(bad.empty(), "trace of the transposed tensor: " + bad);
   });
}
