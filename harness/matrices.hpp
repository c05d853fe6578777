// Tensors seen as block matrices through a bipartition of their edges.
#pragma once
#include "edgeop.hpp"
#include "linalg.hpp"

namespace gen {
   struct Block {
      long m = 0, n = 0;
      la::Mat a;
   };
   // by the total charge of the row edges
   inline std::map<Q, Block> blocks_of(const RT& t, const Names& rows, const Names& cols) {
      Names order = rows;
      order.insert(order.end(), cols.begin(), cols.end());
      RT x = ref::transpose(t, order);
      const long nr = rows.size();
      auto fr = ref::fuse({x.edges.begin(), x.edges.begin() + nr}, false), fc = ref::fuse({x.edges.begin() + nr, x.edges.end()}, false);
      if (nr == 0) {
         fr.whole.dims[Q()] = 1;
         fr.at[{}] = {Q(), 0};
      }
      if (cols.empty()) {
         fc.whole.dims[Q()] = 1;
         fc.at[{}] = {Q(), 0};
      }
      std::map<Q, Block> r;
      for (auto& [q, m] : fr.whole.dims)
         if (auto f = fc.whole.dims.find(-q); f != fc.whole.dims.end())
            r[q] = Block{m, f->second, la::Mat(m, f->second)};
      ref::each(x.shape(), [&](const std::vector<long>& idx, long k) {
         auto [q, i] = fr.at.at({idx.begin(), idx.begin() + nr});
         auto [p, j] = fc.at.at({idx.begin() + nr, idx.end()});
         if (p == -q)
            r.at(q).a(i, j) = x.d[k];
      });
      return r;
   }
   inline void random_values(Rng& r, RT& t) {
      const int kind = r.range(0, 5);
      double scale = kind == 0 ? 1e-6 : kind == 1 ? 1e6 : 1;
      for (auto& v : t.d)
         if (v != 0.) {
            if (kind == 2) // small integers: degenerate and vanishing singular values are common
               v = is_cplx ? ref::cplx(r.range(-1, 1), r.range(-1, 1)) : ref::cplx(r.range(-1, 1));
            else if (kind == 3)
               v = r.chance(70) ? 0 : r.range(-2, 2);
            else {
               double a = (r.real() * 2 - 1) * scale, b = (r.real() * 2 - 1) * scale;
               v = is_cplx ? ref::cplx(a, b) : ref::cplx(a);
            }
            v = to_c(from_c<Scalar>(v));
         }
   }
   // is the named edge of t an isometry: sum over the other indices of conj(t)t = identity
   inline std::string not_isometric(const RT& t, const std::string& edge, double tol) {
      Names rest;
      for (auto& n : t.names)
         if (n != edge)
            rest.push_back(n);
      for (auto& [q, b] : blocks_of(t, rest, {edge})) {
         la::Mat g = la::mul(la::dagger(b.a), b.a);
         for (long i = 0; i < b.n; i++)
            for (long j = 0; j < b.n; j++)
               if (!(std::abs(g(i, j) - la::cx(i == j)) <= tol)) {
                  std::ostringstream o;
                  o << "overlap of columns " << i << "," << j << " of charge " << ref::str(q) << " is " << g(i, j);
                  return o.str();
               }
      }
      return "";
   }
} // namespace gen
