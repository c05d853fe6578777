// P10: conjugation and norms.
#include "edgeop.hpp"
using namespace gen;

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.rank_max = 6;
      o.max_elements = 800;
      o.zero_dim = 3;
      if (r.chance(10)) { // long blocks
         o.rank_max = 3;
         o.dim_max = 30;
         o.max_elements = 6000;
      }
      RT t = tensor(r, o);
      const bool exact = r.chance(60);
      if (!exact)
         for (auto& v : t.d)
            if (v != 0.) {
               double a = r.real() * 4 - 2, b = r.real() * 4 - 2;
               v = to_c(from_c<Scalar>(is_cplx ? ref::cplx(a, b) : ref::cplx(a)));
            }
      std::string what = config_name() + " conjugate and norms of " + ref::describe(t);
      mon::describe(what);
      const Tensor T = make_tensor(t);
      const auto before = image(T);
      Tensor C = T.conjugate();
      RT want = ref::conjugate(t, is_fermi);
      expect(want, C, 0, "conjugate");
      mon::observe(want.d.size());
      expect(t, C.conjugate(), 0, "conjugating twice");
      mon::require(image(T) == before, "conjugate changed its operand");
      // norms of the stored elements
      std::vector<ref::cplx> stored;
      {
         auto p = ref::positions(t);
         ref::each(t.shape(), [&](const std::vector<long>& idx, long k) {
            Q s;
            for (std::size_t i = 0; i < idx.size(); i++)
               s = s + p[i][idx[i]].first;
            if (s == Q())
               stored.push_back(t.d[k]);
         });
      }
      long double m = 0, s1 = 0, s2 = 0, s3 = 0, s4 = 0;
      for (auto& v : stored) {
         long double a = std::abs(std::complex<long double>(v));
         m = std::max(m, a);
         s1 += a;
         s2 += a * a;
         s3 += a * a * a;
         s4 += a * a * a * a;
      }
      const long double tol = 8 * eps * (4 + stored.size());
      auto near = [&](long double got, long double w, const char* n) {
         mon::observe();
         if (!(std::abs(got - w) <= tol * (w + 1e-300L)))
            throw mon::Bad(std::string(n) + ": expected " + std::to_string((double)w) + " got " + std::to_string((double)got));
      };
      near(T.norm<-1>(), m, "maximum norm");
      near(T.norm<0>(), stored.size(), "number of elements");
      near(T.norm<1>(), s1, "1-norm");
      near(T.norm<2>(), std::sqrt(s2), "2-norm");
      near(T.norm(), std::sqrt(s2), "default norm");
      near(T.norm<3>(), std::cbrt(s3), "3-norm");
      near(T.norm<4>(), std::sqrt(std::sqrt(s4)), "4-norm");
      if (!is_fermi && !stored.empty()) {
         ref::Pairs p;
         for (auto& n : t.names)
            p.push_back({n, n});
         auto full = back(T.contract(C, pair_set(p)));
         mon::require(full.rank() == 0 && full.d.size() == 1, "the full contraction is not a number");
         mon::require(std::abs(full.d[0] - ref::cplx((double)s2)) <= (exact && !is_single ? 0 : (double)(tol * (s2 + 1e-300L))), "contraction with the conjugate");
         auto self = back(T.contract_all_edge());
         mon::require(self.rank() == 0 && std::abs(self.d[0] - full.d[0]) <= double(tol * (s2 + 1e-300L)), "contract_all_edge with itself");
         mon::count("contracted with the conjugate");
      }
      if (stored.size() > 1) {
         mon::nontrivial(what);
         mon::sample(what);
      }
   });
}
