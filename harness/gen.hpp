// Random tensors, edges and requests.  Element values are small integers so that every sum the library may form is exact.
#pragma once
#include "bridge.hpp"

namespace gen {
   using namespace br;
   using mon::Rng;

   inline Q charge(Rng& r) {
      const int dice = r.range(0, 199);
      const int spread = dice < 148 ? 1 : dice < 193 ? 2 : dice < 198 ? 5 : 2000;
      Q q;
      if constexpr (std::is_same_v<Sym, TAT::Z2Symmetry> || std::is_same_v<Sym, TAT::FermiZ2Symmetry>)
         q.z = r.range(0, 1);
      if constexpr (std::is_same_v<Sym, TAT::U1Symmetry> || std::is_same_v<Sym, TAT::FermiU1Symmetry>)
         q.u = r.range(-spread, spread);
      if constexpr (is_fermi)
         q.f = r.range(-spread, spread);
      return q;
   }
   struct Opt {
      long rank_min = 0, rank_max = 5;
      long max_elements = 1500; // of the dense model
      int dim_max = 3, charges_max = 3;
      int zero_dim = 2;   // percent of quantum numbers with dimension 0
      int unbalanced = 10; // percent of tensors whose edges are not arranged to have blocks
      bool unique = false; // distinct values everywhere
      int magnitude = 4;
      std::string prefix = "e";
   };
   inline REdge edge(Rng& r, const Opt& o) {
      REdge e;
      e.arrow = is_fermi && r.chance(50);
      long n = is_no ? 1 : r.range(1, o.charges_max);
      for (long i = 0; i < n; i++) {
         long d = r.chance(o.zero_dim) ? 0 : r.range(1, o.dim_max);
         e.dims[is_no ? Q() : charge(r)] = d;
      }
      return e;
   }
   // an edge whose charges cancel those of some combinations of the given ones
   inline REdge closing_edge(Rng& r, const Opt& o, const std::vector<REdge>& edges) {
      REdge e;
      e.arrow = is_fermi && r.chance(50);
      long n = is_no ? 1 : r.range(1, o.charges_max);
      for (long i = 0; i < n; i++) {
         Q s;
         for (auto& x : edges) {
            if (x.dims.empty())
               continue;
            auto it = x.dims.begin();
            std::advance(it, r.range(0, x.dims.size() - 1));
            s = s + it->first;
         }
         e.dims[-s] = r.chance(o.zero_dim) ? 0 : r.range(1, o.dim_max);
      }
      return e;
   }
   inline void fill(Rng& r, RT& t, const Opt& o) {
      auto shape = t.shape();
      t.d.assign(ref::product(shape), 0);
      auto p = ref::positions(t);
      long counter = r.range(1, 50);
      ref::each(shape, [&](const std::vector<long>& idx, long k) {
         Q s;
         for (std::size_t i = 0; i < idx.size(); i++)
            s = s + p[i][idx[i]].first;
         if (s != Q())
            return;
         if (o.unique)
            t.d[k] = is_cplx ? ref::cplx(counter, -counter - 7) : ref::cplx(counter);
         else {
            double a = r.range(-o.magnitude, o.magnitude), b = r.range(-o.magnitude, o.magnitude);
            t.d[k] = is_cplx ? ref::cplx(a, b) : ref::cplx(a);
         }
         counter++;
      });
   }
   inline RT with_edges(Rng& r, const Names& names, const std::vector<REdge>& edges, const Opt& o = {}) {
      RT t{names, edges, {}};
      t.d.assign(ref::product(t.shape()), 0);
      t = ref::prune(t);
      fill(r, t, o);
      return t;
   }
   inline Names fresh(long n, const std::string& prefix, Rng* r = nullptr) {
      Names v;
      for (long i = 0; i < n; i++)
         v.push_back(prefix + std::to_string(i));
      if (r)
         r->shuffle(v);
      return v;
   }
   inline bool fits(const std::vector<REdge>& e, long limit) {
      double p = 1;
      for (auto& x : e)
         p *= std::max(1l, x.total());
      return p <= limit;
   }
   inline std::vector<REdge> edges(Rng& r, long rank, const Opt& o) {
      for (int tries = 0;; tries++) {
         std::vector<REdge> e;
         Opt q = o;
         if (tries > 20) {
            q.dim_max = 2;
            q.charges_max = 2;
         }
         if (tries > 60)
            rank = std::max(0l, rank - 1);
         if (tries > 40)
            q.dim_max = q.charges_max = 1;
         for (long i = 0; i < rank; i++)
            e.push_back(i + 1 == rank && !r.chance(o.unbalanced) && !is_no ? closing_edge(r, q, e) : edge(r, q));
         r.shuffle(e);
         if (fits(e, o.max_elements))
            return e;
      }
   }
   inline RT tensor(Rng& r, const Opt& o = {}) {
      auto e = edges(r, r.range(o.rank_min, o.rank_max), o);
      return with_edges(r, fresh(e.size(), o.prefix, &r), e, o);
   }
   // a partner edge to contract with: conjugate, sometimes with quantum numbers added or dropped
   inline REdge partner(Rng& r, const REdge& e, int perturb) {
      REdge c = ref::conj_edge(e);
      if (!is_no && r.chance(perturb)) {
         if (r.chance(50) && c.dims.size() > 1) {
            auto it = c.dims.begin();
            std::advance(it, r.range(0, c.dims.size() - 1));
            c.dims.erase(it);
         } else {
            Q q = charge(r);
            if (!c.dims.count(q))
               c.dims[q] = r.range(1, 2);
         }
      }
      return c;
   }
   inline std::vector<long> subset(Rng& r, long n, long k) {
      std::vector<long> v;
      for (long i = 0; i < n; i++)
         v.push_back(i);
      r.shuffle(v);
      v.resize(k);
      return v;
   }
   inline std::string signature(const RT& t) {
      return ref::describe(t);
   }
} // namespace gen
