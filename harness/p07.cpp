// P07: singular value decomposition.
#include "matrices.hpp"
using namespace gen;

// by charge of the new edge of the first factor; S is a list per charge or a diagonal matrix
template<class S>
auto singular_of(const S& s) {
   std::map<Q, std::vector<double>> r;
   if constexpr (std::is_same_v<S, Tensor>) {
      std::string bad = ill_formed(s);
      mon::require(bad.empty(), "the matrix of singular values is malformed: " + bad);
      RT t = back(s);
      mon::require(t.rank() == 2 && t.names == Names{"su", "sv"}, "names of the matrix of singular values");
      auto pos = ref::positions(t);
      ref::each(t.shape(), [&](const std::vector<long>& idx, long k) {
         auto [q, i] = pos[0][idx[0]];
         auto [p, j] = pos[1][idx[1]];
         if (i == j && p == -q) {
            auto& v = r[p];
            if ((long)v.size() < i + 1)
               v.resize(i + 1);
            v[i] = t.d[k].real();
            mon::require(t.d[k].imag() == 0, "a singular value is not real");
         } else
            mon::require(t.d[k] == ref::cplx(0), "the matrix of singular values is not diagonal");
      });
   } else
      for (auto& [q, v] : s.value)
         r[from_sym(q)] = {v.begin(), v.end()};
   return r;
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.max_elements = 900;
      o.rank_max = 5;
      o.zero_dim = 3;
      if (r.chance(25)) {
         o.rank_min = 2;
         o.rank_max = 3;
         o.dim_max = 14;
         o.charges_max = 2;
      }
      RT t = tensor(r, o);
      random_values(r, t);
      Names us, vs;
      std::set<std::string> uset;
      int p = r.chance(8) ? (r.chance(50) ? 0 : 100) : 50;
      for (auto& n : t.names)
         if (r.chance(p)) {
            us.push_back(n);
            uset.insert(n);
         } else
            vs.push_back(n);
      auto ref_blocks = blocks_of(t, us, vs);
      std::map<Q, std::vector<la::real>> exact; // by the charge of the new edge of the first factor
      std::vector<la::real> all;
      long total = 0;
      for (auto& [q, b] : ref_blocks) {
         exact[-q] = b.m && b.n ? la::singular(b.a) : std::vector<la::real>();
         for (auto v : exact[-q])
            all.push_back(v);
         total += std::min(b.m, b.n);
      }
      std::sort(all.rbegin(), all.rend());
      const double size = all.empty() ? 0 : double(all[0]);
      const double tol = 60 * eps * (size + 1e-300) * std::sqrt(1.0 + t.d.size());
      long cut = -1;
      if (r.chance(60) && total > 0)
         cut = r.chance(15) ? total + r.range(0, 3) : r.range(1, total);
      std::string what = config_name() + " svd " + ref::describe(t) + " u=" + ref::str(us) + " cut " + std::to_string(cut);
      mon::describe(what);
      const Tensor T = make_tensor(t);
      const auto before = image(T);
      auto result = cut < 0 ? T.svd(name_set(uset), Name("nu"), Name("nv"), TAT::Size(-1), Name("su"), Name("sv")) :
                              T.svd(name_set(uset), Name("nu"), Name("nv"), cut, Name("su"), Name("sv"));
      mon::require(image(T) == before, "svd changed its operand");
      for (auto* x : {&result.U, &result.V}) {
         std::string bad = ill_formed(*x);
         mon::require(bad.empty(), "a factor is malformed: " + bad);
      }
      RT U = back(result.U), V = back(result.V);
      Names nu = us, nv{"nv"};
      nu.push_back("nu");
      nv.insert(nv.end(), vs.begin(), vs.end());
      mon::require(U.names == nu && V.names == nv, "names of the factors: " + ref::str(U.names) + ref::str(V.names));
      // singular values
      std::map<Q, std::vector<double>> S;
      std::vector<double> kept;
      S = singular_of(result.S);
      for (auto& [s, x] : S) {
         kept.insert(kept.end(), x.begin(), x.end());
         for (std::size_t i = 0; i < x.size(); i++) {
            mon::require(x[i] >= 0, "negative singular value");
            mon::require(i == 0 || x[i] <= x[i - 1], "singular values are not sorted");
            auto f = exact.find(s);
            mon::require(f != exact.end() && i < f->second.size() && std::abs(double(f->second[i]) - x[i]) <= tol,
                         "singular value " + std::to_string(i) + " of " + ref::str(s) + " is wrong: " + std::to_string(x[i]));
         }
      }
      std::sort(kept.rbegin(), kept.rend());
      const long want = cut < 0 ? total : std::min(cut, total);
      mon::require((long)kept.size() == want, "kept " + std::to_string(kept.size()) + " singular values instead of " + std::to_string(want));
      for (long i = 0; i < want; i++)
         mon::require(std::abs(kept[i] - double(all[i])) <= tol, "the kept singular values are not the largest ones");
      // the new edges carry one position per singular value
      auto &eu = U.edges.back(), &ev = V.edges.front();
      for (auto& [q, x] : S)
         if (x.empty())
            mon::require(!exact.count(q) || exact.at(q).empty(), "an empty list of singular values for a quantum number the new edges do not have");
         else
            mon::require(eu.dims.count(q) && eu.dims.at(q) == (long)x.size() && ev.dims.count(-q) && ev.dims.at(-q) == (long)x.size(),
                         "the new edges do not match the singular values");
      mon::require(eu.total() == want && ev.total() == want, "dimension of the new edges");
      // isometries
      std::string bad = not_isometric(U, "nu", 60 * eps * std::sqrt(1.0 + t.d.size()));
      mon::require(bad.empty(), "first factor is not an isometry: " + bad);
      bad = not_isometric(V, "nv", 60 * eps * std::sqrt(1.0 + t.d.size()));
      mon::require(bad.empty(), "second factor is not an isometry: " + bad);
      // product, by the model
      RT US = U;
      {
         auto pos = ref::positions(U);
         ref::each(U.shape(), [&](const std::vector<long>& idx, long k) {
            auto [q, i] = pos.back()[idx.back()];
            US.d[k] *= S.at(q)[i];
         });
      }
      RT prod = ref::transpose(ref::contract(US, V, {{"nu", "nv"}}, is_fermi), t.names);
      std::vector<REdge> wide;
      double lost = 0;
      for (std::size_t i = want; i < all.size(); i++)
         lost += double(all[i] * all[i]);
      if (want == total) {
         bad = ref::diff_values(t, prod, tol * 4);
         mon::require(bad.empty(), "product of the factors: " + bad);
      }
      RT w = ref::widen(prod, t.edges);
      double dist = 0;
      for (std::size_t i = 0; i < t.d.size(); i++)
         dist += std::norm(w.d[i] - t.d[i]);
      mon::require(std::abs(dist - lost) <= 300 * eps * (1 + t.d.size()) * (size * size + 1e-300), "squared distance " + std::to_string(dist) +
                                                                                      " is not the discarded weight " + std::to_string(lost));
      for (std::size_t i = 0; i < t.rank(); i++)
         if (is_fermi && prod.edges[i].arrow_matters())
            mon::require(prod.edges[i].arrow == t.edges[i].arrow, "arrow of " + t.names[i]);
      // the library's own multiplication by singular values
      if (want > 0) {
         RT lu = back(result.U.multiple(result.S, Name("nu"), r.chance(50) ? 'U' : 'u'));
         bad = ref::diff(US, lu, 4 * eps * (size + 1e-300), is_fermi);
         mon::require(bad.empty(), "multiple on the first factor: " + bad);
         RT SV = V;
         auto pos = ref::positions(V);
         ref::each(V.shape(), [&](const std::vector<long>& idx, long k) {
            auto [q, i] = pos[0][idx[0]];
            SV.d[k] *= S.at(-q)[i];
         });
         bad = ref::diff(SV, back(result.V.multiple(result.S, Name("nv"), r.chance(50) ? 'V' : 'v')), 4 * eps * (size + 1e-300), is_fermi);
         mon::require(bad.empty(), "multiple on the second factor: " + bad);
         if (kept.back() > 1e-3 * size) {
            RT again = back(result.V.multiple(result.S, Name("nv"), 'V').multiple(result.S, Name("nv"), 'V', true));
            bad = ref::diff(V, again, 8 * eps, is_fermi);
            mon::require(bad.empty(), "multiple and divide: " + bad);
            mon::count("multiplied and divided");
         }
         Tensor lib = result.U.multiple(result.S, Name("nu"), 'U').contract(result.V, std::set<std::tuple<Name, Name>>{{Name("nu"), Name("nv")}});
         bad = ref::diff_values(prod, back(lib.transpose(names_of(t.names))), tol * 4);
         mon::require(bad.empty(), "the library's product of the factors: " + bad);
#ifdef TAT_USE_SINGULAR_MATRIX
         using Set = std::set<std::tuple<Name, Name>>;
         lib = result.U.contract(result.S, Set{{Name("nu"), Name("su")}}).contract(result.V, Set{{Name("sv"), Name("nv")}});
         bad = ref::diff_values(prod, back(lib.transpose(names_of(t.names))), tol * 4);
         mon::require(bad.empty(), "the library's product of the three factors: " + bad);
#endif
      }
      if (t.d.size() > 1 && total > 0) {
         mon::nontrivial(what);
         mon::sample(what);
      }
      if (want < total)
         mon::count("truncated");
      if (lost > 0)
         mon::count("with discarded weight");
   });
}
