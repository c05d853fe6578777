// P09: matrix exponential and identity over paired edges.
#include "matrices.hpp"
using namespace gen;

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.max_elements = 600;
      o.zero_dim = 2;
      RT t;
      ref::Pairs pairs;
      long k;
      for (;;) {
         k = is_fermi ? r.range(0, 1) : r.range(0, 3);
         pairs.clear();
         std::vector<REdge> e;
         Names n;
         Opt q = o;
         if (k == 1)
            q.dim_max = 5;
         if (k == 3)
            q.dim_max = q.charges_max = 2;
         for (long i = 0; i < k; i++) {
            REdge x = edge(r, q);
            e.push_back(x);
            e.push_back(ref::conj_edge(x));
            n.push_back("x" + std::to_string(i));
            n.push_back("y" + std::to_string(i));
            pairs.push_back({n[2 * i], n[2 * i + 1]});
         }
         if (!fits(e, o.max_elements))
            continue;
         auto p = subset(r, n.size(), n.size());
         Names m;
         std::vector<REdge> g;
         for (auto i : p) {
            m.push_back(n[i]);
            g.push_back(e[i]);
         }
         t = with_edges(r, m, g, o);
         break;
      }
      r.shuffle(pairs);
      std::string what = config_name() + " on " + ref::describe(t) + " pairs";
      for (auto& [a, b] : pairs)
         what += " " + a + "=" + b;
      mon::describe("identity " + what);
      Names rows, cols;
      for (auto& [a, b] : pairs) {
         rows.push_back(a);
         cols.push_back(b);
      }
      // identity
      {
         ref::Pairs flipped = pairs;
         for (auto& p : flipped)
            if (r.chance(50))
               std::swap(p.first, p.second);
         const Tensor T = make_tensor(t);
         const auto before = image(T);
         Tensor I = T.identity(pair_set(flipped));
         RT want = t;
         auto pos = ref::positions(t);
         ref::each(t.shape(), [&](const std::vector<long>& idx, long j) {
            bool one = true;
            for (auto& [a, b] : pairs) {
               auto [q1, i1] = pos[t.index(a)][idx[t.index(a)]];
               auto [q2, i2] = pos[t.index(b)][idx[t.index(b)]];
               one = one && q1 == -q2 && i1 == i2;
            }
            want.d[j] = one;
         });
         expect(want, I, 0, "identity");
         mon::observe(want.d.size());
         mon::require(image(T) == before, "identity changed its operand");
         if (!is_fermi && k > 0) { // neutral: contract the columns of I with the rows of T
            std::map<std::string, std::string> m;
            ref::Pairs join;
            for (auto& [a, b] : pairs) {
               m[a] = a + "_mid";
               m[b] = b;
               join.push_back({b, a + "_mid"});
            }
            Tensor Tm = T.edge_rename(rename_map(m));
            std::map<std::string, std::string> mi;
            for (auto& [a, b] : pairs)
               mi[b] = b + "_I";
            ref::Pairs j2;
            for (auto& [x, y] : join)
               j2.push_back({x + "_I", y});
            Tensor N = I.edge_rename(rename_map(mi)).contract(Tm, pair_set(j2));
            std::string bad = ref::diff_values(t, back(N.transpose(names_of(t.names))), 0);
            mon::require(bad.empty(), "identity is not neutral: " + bad);
            mon::count("neutrality");
         }
      }
      // exponential.  Orientation of a pair is part of the request.
      const int kind = r.range(0, 7);
      double scale = kind == 0 ? 0 : kind == 1 ? 1e-4 : kind == 2 ? 4 : kind == 3 ? (is_single ? 6 : 25) : 0.7;
      for (auto& v : t.d)
         if (v != 0.) {
            double a = (r.real() * 2 - 1) * scale, b = (r.real() * 2 - 1) * scale;
            v = to_c(from_c<Scalar>(is_cplx ? ref::cplx(a, b) : ref::cplx(a)));
         }
      if (kind == 6) { // nilpotent
         auto pos = ref::positions(t);
         ref::each(t.shape(), [&](const std::vector<long>& idx, long j) {
            bool upper = false, decided = false;
            for (auto& [a, b] : pairs) {
               long i1 = pos[t.index(a)][idx[t.index(a)]].second, i2 = pos[t.index(b)][idx[t.index(b)]].second;
               if (!decided && i1 != i2) {
                  decided = true;
                  upper = i1 < i2;
               }
            }
            if (!upper)
               t.d[j] = 0;
         });
      }
      if (kind == 7) { // anti-hermitian and large: a rotation by many turns
         scale = is_single ? 30 : std::pow(10., r.range(2, 5));
         auto pos = ref::positions(t);
         using Key = std::vector<std::pair<Q, long>>;
         std::map<std::pair<Key, Key>, long> where;
         ref::each(t.shape(), [&](const std::vector<long>& idx, long j) {
            Key a, b;
            for (auto& [m, n] : pairs) {
               a.push_back(pos[t.index(m)][idx[t.index(m)]]);
               auto [u, v] = pos[t.index(n)][idx[t.index(n)]];
               b.push_back({-u, v});
            }
            where[{a, b}] = j;
         });
         for (auto& [key, j] : where) {
            auto f = where.find({key.second, key.first});
            if (f == where.end() || f->second < j)
               continue;
            if (t.d[j] == 0. && t.d[f->second] == 0.)
               continue;
            double a = (r.real() * 2 - 1) * scale, b = (r.real() * 2 - 1) * scale;
            ref::cplx v = f->second == j ? ref::cplx(0, is_cplx ? b : 0) : ref::cplx(a, is_cplx ? b : 0);
            v = to_c(from_c<Scalar>(v));
            t.d[j] = v;
            t.d[f->second] = -std::conj(v);
         }
         mon::count("large rotations");
      }
      const int q = kind != 7 && r.chance(30) ? r.range(1, 4) : r.range(6, 11);
      what += " step " + std::to_string(q) + " scale " + std::to_string(scale);
      mon::describe("exponential " + what);
      // matrix by rows and columns, columns in the conjugate order of rows
      std::map<Q, la::Mat> want;
      std::map<Q, double> tol;
      // positions of the rows by charge
      Names order = rows;
      order.insert(order.end(), cols.begin(), cols.end());
      // fermionic tensors are taken as they are stored (one pair)
      RT x = is_fermi ? t : ref::transpose(t, order);
      Names rr = rows, cc = cols;
      if (is_fermi && k == 1 && t.names[0] != rows[0])
         std::swap(rr, cc);
      const Tensor T = make_tensor(t);
      const auto before = image(T);
      Tensor E = T.exponential(pair_set(pairs), q);
      mon::require(image(T) == before, "exponential changed its operand");
      std::string bad = ill_formed(E);
      mon::require(bad.empty(), "exponential: malformed: " + bad);
      RT got = back(E);
      std::set<std::string> s1(got.names.begin(), got.names.end()), s2(t.names.begin(), t.names.end());
      mon::require(s1 == s2, "exponential: names " + ref::str(got.names));
      got = is_fermi ? got : ref::transpose(got, order);
      // a row position (charges and indices of all row edges) -> number inside its charge
      auto px = ref::positions(x);
      std::map<Q, std::map<std::vector<std::pair<Q, long>>, long>> rownum;
      {
         std::vector<long> sh;
         for (auto& n : rr)
            sh.push_back(x.edges[x.index(n)].total());
         ref::each(sh, [&](const std::vector<long>& idx, long) {
            Q s;
            std::vector<std::pair<Q, long>> key;
            for (std::size_t i = 0; i < idx.size(); i++) {
               key.push_back(px[x.index(rr[i])][idx[i]]);
               s = s + key.back().first;
            }
            auto& m = rownum[s];
            long n = m.size();
            m[key] = n;
         });
      }
      auto place = [&](const std::vector<long>& idx, Q& s, long& i, long& j) {
         std::vector<std::pair<Q, long>> a, b;
         Q sb;
         s = Q();
         for (auto& n : rr) {
            a.push_back(px[x.index(n)][idx[x.index(n)]]);
            s = s + a.back().first;
         }
         for (auto& n : cc) {
            auto [u, v] = px[x.index(n)][idx[x.index(n)]];
            b.push_back({-u, v});
            sb = sb + -u;
         }
         if (s != sb || !rownum[s].count(b))
            return false;
         i = rownum[s].at(a);
         j = rownum[s].at(b);
         return true;
      };
      std::map<Q, la::Mat> in;
      for (auto& [s, m] : rownum)
         in[s] = la::Mat(m.size(), m.size());
      ref::each(x.shape(), [&](const std::vector<long>& idx, long kx) {
         Q s;
         long i, j;
         if (place(idx, s, i, j))
            in[s](i, j) = x.d[kx];
      });
      double size = 0;
      for (auto& [s, m] : in) {
         want[s] = la::expm(m);
         // error bound: Pade remainder of the scaled matrix, then growth through the squarings
         double big = 0;
         for (auto& v : m.a)
            big = std::max(big, (double)std::abs(v));
         int j = big == 0 ? 0 : std::max(0, 1 + int(std::floor(std::log2(big))));
         la::Mat A = la::scale(m, std::ldexp(la::real(1), -j));
         double theta = la::norm1(A);
         double pade = 2 * std::exp(2 * std::lgamma(q + 1.) - std::lgamma(2. * q + 1) - std::lgamma(2. * q + 2) + (2 * q + 1) * std::log(theta + 1e-300)) *
                       std::exp(2 * theta);
         la::Mat X = la::expm(A);
         double e = pade + 40 * eps * (1 + m.m) * std::exp(2 * theta);
         for (int i = 0; i < j; i++) {
            double n = la::frob(X);
            e = 2 * n * e + e * e + 4 * eps * (1 + m.m) * n * n;
            X = la::mul(X, X);
         }
         tol[s] = 4 * e;
         size = std::max(size, (double)la::frob(X));
      }
      long used = 0, tight = 0;
      ref::each(got.shape(), [&](const std::vector<long>& idx, long kx) {
         Q s;
         long i, j;
         if (!place(idx, s, i, j)) {
            return;
         }
         used++;
         double e = std::abs(la::cx(got.d[kx]) - want[s](i, j));
         if (tol[s] < 1e-2 * (size + 1))
            tight++;
         if (!(e <= tol[s])) {
            std::ostringstream msg;
            msg << "exponential: element " << i << "," << j << " of charge " << ref::str(s) << ": expected " << want[s](i, j) << " got " << got.d[kx]
                << " tolerance " << tol[s];
            throw mon::Bad(msg.str());
         }
      });
      mon::observe(used);
      mon::count("exponential elements compared to better than a percent", tight);
      mon::count("pairs " + std::to_string(k));
      if (scale == 0)
         mon::count("zero operators");
      if (used > 1) {
         mon::nontrivial(what);
         mon::sample(what);
      }
   });
}
