// Independent dense model of two-dimensional lattices, for the monitors of the lattice classes.
#pragma once
#include <square/square.hpp>

#include "mon.hpp"
using TAT::operator<;
using TAT::operator>;

namespace sq {
   using Z = std::complex<double>;
   using Pos = std::tuple<int, int>;
   using Positions = std::vector<Pos>;
   using mon::Rng;

   inline double to_real(double x) {
      return x;
   }
   inline Z wide(double x) {
      return x;
   }
   inline Z wide(Z x) {
      return x;
   }
   inline Z wide(float x) {
      return x;
   }
   inline Z wide(std::complex<float> x) {
      return {x.real(), x.imag()};
   }
   template<class T>
   T narrow(Z x) {
      if constexpr (TAT::is_complex_v<T>)
         return T(typename T::value_type(x.real()), typename T::value_type(x.imag()));
      else
         return T(x.real());
   }
   template<class T>
   Z random_value(Rng& r) {
      double a = r.real() * 2 - 1, b = r.real() * 2 - 1;
      return TAT::is_complex_v<T> ? Z(a, b) : Z(a, 0);
   }

   // ---- named dense arrays
   struct Arr {
      std::vector<std::string> names;
      std::vector<long> dims;
      std::vector<Z> d{Z(1)};
      long dim(const std::string& n) const {
         for (std::size_t i = 0; i < names.size(); i++)
            if (names[i] == n)
               return dims[i];
         return -1;
      }
      bool has(const std::string& n) const {
         return dim(n) >= 0;
      }
      Arr& rename(const std::string& a, const std::string& b) {
         for (auto& n : names)
            if (n == a)
               n = b;
         return *this;
      }
      std::vector<long> strides() const {
         std::vector<long> s(dims.size(), 1);
         for (long i = long(dims.size()) - 2; i >= 0; i--)
            s[i] = s[i + 1] * dims[i + 1];
         return s;
      }
      Arr order(const std::vector<std::string>& to) const {
         Arr o;
         o.names = to;
         auto st = strides();
         std::vector<long> s;
         for (auto& n : to)
            for (std::size_t i = 0; i < names.size(); i++)
               if (names[i] == n) {
                  o.dims.push_back(dims[i]);
                  s.push_back(st[i]);
               }
         if (o.dims.size() != names.size() || to.size() != names.size())
            throw std::logic_error("order of the model");
         o.d.assign(d.size(), 0);
         std::vector<long> idx(o.dims.size(), 0);
         long off = 0;
         for (std::size_t k = 0; k < d.size(); k++) {
            o.d[k] = d[off];
            for (long p = long(idx.size()) - 1; p >= 0; p--) {
               off += s[p];
               if (++idx[p] < o.dims[p])
                  break;
               off -= s[p] * o.dims[p];
               idx[p] = 0;
            }
         }
         return o;
      }
   };
   // contraction over pairs (name in a, name in b); pairs absent on either side are skipped when both are absent
   inline Arr contract(const Arr& a, const Arr& b, const std::vector<std::pair<std::string, std::string>>& pairs) {
      std::vector<std::string> ka, kb, fa, fb;
      for (auto& [x, y] : pairs) {
         if (a.has(x) != b.has(y))
            throw std::logic_error("model: open bond " + x + "-" + y);
         if (!a.has(x))
            continue;
         if (a.dim(x) != b.dim(y))
            throw mon::Bad("bond dimensions of neighbouring tensors differ on " + x + "-" + y);
         ka.push_back(x);
         kb.push_back(y);
      }
      for (auto& n : a.names)
         if (std::find(ka.begin(), ka.end(), n) == ka.end())
            fa.push_back(n);
      for (auto& n : b.names)
         if (std::find(kb.begin(), kb.end(), n) == kb.end())
            fb.push_back(n);
      auto oa = fa, ob = kb;
      oa.insert(oa.end(), ka.begin(), ka.end());
      ob.insert(ob.end(), fb.begin(), fb.end());
      auto A = a.order(oa), B = b.order(ob);
      long k = 1, m, n;
      for (auto& x : ka)
         k *= a.dim(x);
      m = k ? long(A.d.size()) / k : 0;
      n = k ? long(B.d.size()) / k : 0;
      Arr r;
      r.names = fa;
      r.names.insert(r.names.end(), fb.begin(), fb.end());
      for (auto& x : fa)
         r.dims.push_back(a.dim(x));
      for (auto& x : fb)
         r.dims.push_back(b.dim(x));
      r.d.assign(m * n, 0);
      for (long i = 0; i < m; i++)
         for (long l = 0; l < k; l++) {
            const Z x = A.d[i * k + l];
            const Z* bp = &B.d[l * n];
            Z* rp = &r.d[i * n];
            for (long j = 0; j < n; j++)
               rp[j] += x * bp[j];
         }
      return r;
   }
   template<class T>
   Arr arr(const TAT::Tensor<T, TAT::NoSymmetry>& t) {
      Arr a;
      for (std::size_t i = 0; i < t.names.size(); i++) {
         std::ostringstream o;
         o << t.names[i];
         a.names.push_back(o.str());
         a.dims.push_back(t.core->edges[i].map.begin()->second);
      }
      auto& b = t.core->blocks.begin()->second;
      a.d.clear();
      for (auto& x : b)
         a.d.push_back(wide(x));
      return a;
   }
   template<class T>
   square::Tensor<T> tensor(const Arr& a) {
      std::vector<square::Name> n;
      std::vector<TAT::Size> e;
      for (auto& x : a.names)
         n.push_back(square::Name(x));
      for (auto x : a.dims)
         e.push_back(x);
      auto t = square::Tensor<T>(n, e);
      auto& b = t.core->blocks.begin()->second;
      for (std::size_t i = 0; i < a.d.size(); i++)
         b[i] = narrow<T>(a.d[i]);
      return t;
   }
   inline Arr shuffled(Rng& r, const Arr& a) {
      auto n = a.names;
      r.shuffle(n);
      return a.order(n);
   }

   // ---- dense states: index = mixed radix over the sites in row-major order, first site most significant
   struct Sys {
      int M, N, d;
      long size() const {
         long s = 1;
         for (int i = 0; i < M * N; i++)
            s *= d;
         return s;
      }
      long stride(const Pos& p) const {
         long s = 1;
         for (int i = std::get<0>(p) * N + std::get<1>(p); i < M * N - 1; i++)
            s *= d;
         return s;
      }
      std::string name(int i, int j) const {
         return "P-" + std::to_string(i) + "-" + std::to_string(j);
      }
      std::vector<std::string> names() const {
         std::vector<std::string> r;
         for (int i = 0; i < M; i++)
            for (int j = 0; j < N; j++)
               r.push_back(name(i, j));
         return r;
      }
   };
   using Vec = std::vector<Z>;

   // an operator on some sites: matrix element from the "I" spins to the "O" spins
   struct Term {
      Positions at;
      int body = 0, d = 0;
      Vec m; // m[in * D + out], D = d^body, first site most significant
      long D() const {
         long s = 1;
         for (int i = 0; i < body; i++)
            s *= d;
         return s;
      }
   };
   inline Term random_term(Rng& r, int body, int d, bool complex, int kind) {
      Term t;
      t.body = body;
      t.d = d;
      const long D = t.D();
      t.m.assign(D * D, 0);
      // kind 0: dense Hermitian; 1: sparse Hermitian (rows may be empty); 2: diagonal; 3: conserves the sum of the spins; 4: with isolated spins
      for (long i = 0; i < D; i++)
         for (long j = 0; j <= i; j++) {
            long si = 0, sj = 0;
            for (long x = i, y = j; x || y; x /= d, y /= d) {
               si += x % d;
               sj += y % d;
            }
            if (kind == 1 && !r.chance(30))
               continue;
            if (kind == 2 && i != j)
               continue;
            if (kind == 3 && si != sj)
               continue;
            if (kind == 4 && (i == D - 1 || j == D - 1))
               continue;
            Z x = r.chance(30) ? Z(double(r.range(-2, 2)), 0) : Z(r.real() * 2 - 1, complex ? r.real() * 2 - 1 : 0);
            if (i == j)
               x = x.real();
            t.m[i * D + j] = x;
            t.m[j * D + i] = std::conj(x);
         }
      return t;
   }
   inline Arr term_arr(const Term& t) {
      Arr a;
      for (int i = 0; i < t.body; i++) {
         a.names.push_back("I" + std::to_string(i));
         a.dims.push_back(t.d);
      }
      for (int i = 0; i < t.body; i++) {
         a.names.push_back("O" + std::to_string(i));
         a.dims.push_back(t.d);
      }
      a.d = t.m;
      return a;
   }
   template<class T>
   std::shared_ptr<const square::Tensor<T>> term_tensor(Rng& r, const Term& t) {
      return std::make_shared<const square::Tensor<T>>(tensor<T>(shuffled(r, term_arr(t))));
   }
   inline long offset(const Sys& s, const Positions& p, int d, long local) { // contribution of the local spins to the global index
      long o = 0;
      for (long i = long(p.size()) - 1; i >= 0; i--) {
         o += s.stride(p[i]) * (local % d);
         local /= d;
      }
      return o;
   }
   inline Vec apply(const Sys& s, const Term& t, const Vec& v) {
      Vec r(v.size(), 0);
      const long D = t.D();
      for (long x = 0; x < long(v.size()); x++) {
         long in = 0, base = x;
         for (auto& p : t.at) {
            const long q = s.stride(p), spin = x / q % t.d;
            in = in * t.d + spin;
            base -= q * spin;
         }
         for (long out = 0; out < D; out++)
            if (t.m[in * D + out] != Z(0))
               r[base + offset(s, t.at, t.d, out)] += t.m[in * D + out] * v[x];
      }
      return r;
   }
   inline Vec apply(const Sys& s, const std::vector<Term>& h, const Vec& v) {
      Vec r(v.size(), 0);
      for (auto& t : h) {
         auto y = apply(s, t, v);
         for (std::size_t i = 0; i < v.size(); i++)
            r[i] += y[i];
      }
      return r;
   }
   // exp(c * H) v by Taylor series in small steps
   inline Vec evolve(const Sys& s, const std::vector<Term>& h, double c, Vec v) {
      double n = 0;
      for (auto& t : h) {
         double k = 0;
         for (auto& x : t.m)
            k += std::abs(x);
         n += k;
      }
      const int parts = 1 + int(std::abs(c) * n / 2);
      for (int p = 0; p < parts; p++) {
         Vec term = v;
         for (int k = 1; k < 40; k++) {
            term = apply(s, h, term);
            double big = 0, all = 0;
            for (std::size_t i = 0; i < v.size(); i++) {
               term[i] *= c / parts / k;
               v[i] += term[i];
               big = std::max(big, std::abs(term[i]));
               all = std::max(all, std::abs(v[i]));
            }
            if (big <= 1e-18 * all)
               break;
         }
      }
      return v;
   }
   inline double norm2(const Vec& v) {
      double r = 0;
      for (auto& x : v)
         r += std::norm(x);
      return r;
   }
   inline Z dot(const Vec& a, const Vec& b) { // <b|a>
      Z r = 0;
      for (std::size_t i = 0; i < a.size(); i++)
         r += a[i] * std::conj(b[i]);
      return r;
   }
   // relative distance of two vectors up to a scalar factor
   inline double distance(const Vec& a, const Vec& b) {
      if (a.size() != b.size())
         return 1e300;
      const double na = norm2(a), nb = norm2(b);
      for (auto& x : a)
         if (!(std::abs(x) < 1e300))
            return 1e300;
      if (na == 0 || nb == 0)
         return na == nb ? 0 : 1e300;
      const Z o = dot(a, b) / nb; // a ~ o b
      double e = 0;
      for (std::size_t i = 0; i < a.size(); i++)
         e += std::norm(a[i] - o * b[i]);
      return std::sqrt(e / na);
   }
   template<class T>
   Vec state(const Sys& s, const square::Tensor<T>& t) {
      auto a = arr(t);
      for (auto& n : s.names())
         mon::require(a.dim(n) == s.d, "state vector lacks the physical edge " + n);
      mon::require(a.names.size() == std::size_t(s.M * s.N), "state vector has other edges than the physical ones");
      return a.order(s.names()).d;
   }

   // ---- networks
   using Grid = std::vector<std::vector<Arr>>;
   template<class L>
   Grid grid(const L& l) {
      Grid g;
      for (auto& row : l.lattice) {
         auto& x = g.emplace_back();
         for (auto& t : row)
            x.push_back(arr(t));
      }
      return g;
   }
   inline Arr contract_grid(const Grid& g, bool absolute = false) {
      Arr a;
      for (std::size_t i = 0; i < g.size(); i++)
         for (std::size_t j = 0; j < g[i].size(); j++) {
            Arr t = g[i][j];
            if (absolute)
               for (auto& x : t.d)
                  x = std::abs(x);
            t.rename("P", "P-" + std::to_string(i) + "-" + std::to_string(j));
            t.rename("D", "V" + std::to_string(j) + "'").rename("R", "H'");
            std::vector<std::pair<std::string, std::string>> p;
            if (j > 0)
               p.push_back({"H", "L"});
            if (i > 0)
               p.push_back({"V" + std::to_string(j), "U"});
            a = contract(a, t, p);
            a.rename("V" + std::to_string(j) + "'", "V" + std::to_string(j)).rename("H'", "H");
         }
      return a;
   }
   template<class L>
   Grid weighted_grid(const L& l) { // bond weights counted once
      Grid g = grid(l);
      for (auto& [key, s] : l.environment) {
         auto [dir, i, j] = key;
         Arr& t = g.at(i).at(j);
         const std::string n(1, dir);
         auto& w = s.value.begin()->second;
         mon::require(t.dim(n) == long(w.size()), "bond weight does not fit the tensor");
         auto st = t.strides();
         for (std::size_t e = 0; e < t.names.size(); e++)
            if (t.names[e] == n)
               for (std::size_t x = 0; x < t.d.size(); x++)
                  t.d[x] *= double(w[x / st[e] % t.dims[e]]);
      }
      return g;
   }
   inline Vec network_state(const Sys& s, const Grid& g) {
      return contract_grid(g).order(s.names()).d;
   }
   // one network per spin configuration
   inline Arr fix_spin(const Arr& t, long spin) {
      Arr r;
      auto st = t.strides();
      long pst = 1, pd = 1;
      for (std::size_t e = 0; e < t.names.size(); e++)
         if (t.names[e] == "P") {
            pst = st[e];
            pd = t.dims[e];
         } else {
            r.names.push_back(t.names[e]);
            r.dims.push_back(t.dims[e]);
         }
      r.d.clear();
      for (std::size_t x = 0; x < t.d.size(); x++)
         if (long(x) / pst % pd == spin)
            r.d.push_back(t.d[x]);
      return r;
   }
   inline Positions random_sites(Rng& r, const Sys& s, int n) {
      Positions all;
      for (int i = 0; i < s.M; i++)
         for (int j = 0; j < s.N; j++)
            all.push_back({i, j});
      r.shuffle(all);
      all.resize(n);
      return all;
   }
   inline std::vector<Positions> bonds(const Sys& s) {
      std::vector<Positions> b;
      for (int i = 0; i < s.M; i++)
         for (int j = 0; j < s.N; j++) {
            if (i + 1 < s.M)
               b.push_back({{i, j}, {i + 1, j}});
            if (j + 1 < s.N)
               b.push_back({{i, j}, {i, j + 1}});
         }
      return b;
   }
   inline std::string text(const Positions& p) {
      std::string r;
      for (auto& [i, j] : p)
         r += "(" + std::to_string(i) + "," + std::to_string(j) + ")";
      return r;
   }
   inline std::string text(double x) {
      std::ostringstream o;
      o.precision(17);
      o << x;
      return o.str();
   }
   struct Quiet { // the lattices report their progress on the standard output
      std::streambuf *a, *b, *c;
      Quiet() : a(std::cout.rdbuf(nullptr)), b(std::clog.rdbuf(nullptr)), c(std::cerr.rdbuf(nullptr)) {}
      ~Quiet() {
         std::cout.rdbuf(a);
         std::clog.rdbuf(b);
         std::cerr.rdbuf(c);
         std::cout.clear();
         std::clog.clear();
         std::cerr.clear();
      }
   };
} // namespace sq
