// P08: QR decomposition.
#include "matrices.hpp"
using namespace gen;

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.max_elements = 900;
      o.rank_max = 5;
      o.zero_dim = 3;
      if (r.chance(25)) {
         o.rank_min = 2;
         o.rank_max = 3;
         o.dim_max = 14;
         o.charges_max = 2;
      }
      RT t = tensor(r, o);
      random_values(r, t);
      Names qs, rs;
      int p = r.chance(8) ? (r.chance(50) ? 0 : 100) : 50;
      for (auto& n : t.names)
         (r.chance(p) ? qs : rs).push_back(n);
      const bool by_q = r.chance(50);
      auto& given = by_q ? qs : rs;
      std::set<std::string> gset(given.begin(), given.end());
      const char direction = by_q ? (r.chance(50) ? 'Q' : 'q') : (r.chance(50) ? 'R' : 'r');
      std::string what = config_name() + " qr " + ref::describe(t) + " q=" + ref::str(qs) + " r=" + ref::str(rs) + " by " + direction;
      mon::describe(what);
      const Tensor T = make_tensor(t);
      const auto before = image(T);
      auto result = T.qr(direction, name_set(gset), Name("nq"), Name("nr"));
      mon::require(image(T) == before, "qr changed its operand");
      for (auto* x : {&result.Q, &result.R}) {
         std::string bad = ill_formed(*x);
         mon::require(bad.empty(), "a factor is malformed: " + bad);
      }
      RT A = back(result.Q), B = back(result.R);
      std::set<std::string> sa(A.names.begin(), A.names.end()), sb(B.names.begin(), B.names.end()), wa(qs.begin(), qs.end()), wb(rs.begin(), rs.end());
      wa.insert("nq");
      wb.insert("nr");
      mon::require(sa == wa && sb == wb, "names of the factors: " + ref::str(A.names) + ref::str(B.names));
      auto blocks = blocks_of(t, qs, rs);
      double size = ref::max_abs(t);
      const double tol = 100 * eps * (size + 1e-300) * (1 + t.d.size());
      // dimension of the new edge
      std::map<Q, long> dims;
      for (auto& [q, b] : blocks)
         if (std::min(b.m, b.n) > 0)
            dims[-q] = std::min(b.m, b.n);
      std::map<Q, long> got, other;
      for (auto& [q, d] : A.edges[A.index("nq")].dims)
         if (d)
            got[q] = d;
      for (auto& [q, d] : B.edges[B.index("nr")].dims)
         if (d)
            other[-q] = d;
      mon::require(got == dims && other == dims, "dimension of the new edge: " + ref::str(A.edges[A.index("nq")]));
      std::string bad = not_isometric(A, "nq", 60 * eps * std::sqrt(1.0 + t.d.size()));
      mon::require(bad.empty(), "the orthogonal factor is not an isometry: " + bad);
      RT prod = ref::contract(A, B, {{"nq", "nr"}}, is_fermi);
      bad = ref::diff_values(t, ref::transpose(prod, t.names), tol);
      mon::require(bad.empty(), "product of the factors: " + bad);
      for (std::size_t i = 0; i < t.rank(); i++) {
         auto& e = prod.edges[prod.index(t.names[i])];
         if (is_fermi && e.arrow_matters())
            mon::require(e.arrow == t.edges[i].arrow, "arrow of " + t.names[i]);
      }
      Tensor lib = result.Q.contract(result.R, std::set<std::tuple<Name, Name>>{{Name("nq"), Name("nr")}}).transpose(names_of(t.names));
      bad = ref::diff_values(t, back(lib), tol);
      mon::require(bad.empty(), "the library's product of the factors: " + bad);
      // triangular
      Names rest;
      for (auto& n : B.names)
         if (n != "nr")
            rest.push_back(n);
      for (auto& [q, b] : blocks_of(B, {"nr"}, rest))
         for (long i = 0; i < b.m; i++)
            for (long j = 0; j < i && j < b.n; j++)
               mon::require(b.a(i, j) == la::cx(0), "the other factor is not triangular");
      if (t.d.size() > 1 && !dims.empty()) {
         mon::nontrivial(what);
         mon::sample(what);
      }
      for (auto& [q, b] : blocks)
         mon::count(b.m > b.n ? "tall blocks" : b.m < b.n ? "wide blocks" : "square blocks");
   });
}
