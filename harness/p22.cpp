// P22: exact lattice against the dense Hamiltonian.
#include "sq.hpp"
using namespace sq;
using T = SCALAR;
constexpr bool cplx = TAT::is_complex_v<T>;

static void close(double got, double want, double scale, const std::string& what) {
   mon::require(std::abs(got - want) <= 1e-10 * scale, what + ": got " + text(got) + ", dense reference " + text(want));
}

template<class C>
void observe(Rng& r, const Sys& s, const square::ExactLattice<T>& l, const Vec& v) {
   const int body = r.range(1, std::min(3, s.M * s.N));
   auto t = random_term(r, body, s.d, TAT::is_complex_v<C>, r.range(0, 4));
   t.at = random_sites(r, s, body);
   auto x = tensor<C>(shuffled(r, term_arr(t)));
   const Z num = dot(apply(s, t, v), v);
   double scale = 0;
   for (auto& e : t.m)
      scale += std::abs(e);
   const double n = norm2(v);
   close(l.observe(t.at, x, true), num.real() / n, scale, "expectation value at " + text(t.at));
   close(l.observe(t.at, x, false), num.real(), scale * n, "unnormalised expectation value at " + text(t.at));
   mon::count("expectation values");
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Quiet quiet;
      static const std::vector<std::array<int, 3>> shapes = {{1, 1, 2}, {1, 1, 3}, {1, 2, 2}, {2, 1, 3}, {1, 3, 2}, {3, 1, 2}, {2, 2, 2}, {2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {1, 5, 2}, {2, 4, 2}, {1, 4, 3}, {1, 1, 1}, {2, 2, 1}, {3, 1, 4}};
      auto [M, N, d] = r.pick(shapes);
      Sys s{M, N, d};
      square::random::seed(r.range(1, 1000000));
      square::ExactLattice<T> l(M, N, d);
      mon::describe("lattice " + std::to_string(M) + "x" + std::to_string(N) + " d=" + std::to_string(d));
      std::vector<Term> h;
      std::string log;
      // terms: the setters and arbitrary ones, sharing tensors
      auto put = [&](const Positions& p, const Term& t) {
         for (std::size_t i = 0; i < h.size(); i++)
            if (h[i].at == p)
               h.erase(h.begin() + i--);
         h.push_back(t);
         h.back().at = p;
      };
      auto add = [&] {
         const int kind = r.range(0, 4);
         const int what = r.range(0, 4);
         if (what == 0) {
            auto t = random_term(r, 1, d, cplx, kind);
            l.set_all_site(term_tensor<T>(r, t));
            for (int i = 0; i < M; i++)
               for (int j = 0; j < N; j++)
                  put({{i, j}}, t);
         } else if (what == 1) {
            auto t = random_term(r, 2, d, cplx, kind);
            l.set_all_horizontal_bond(term_tensor<T>(r, t));
            for (int i = 0; i < M; i++)
               for (int j = 0; j + 1 < N; j++)
                  put({{i, j}, {i, j + 1}}, t);
         } else if (what == 2) {
            auto t = random_term(r, 2, d, cplx, kind);
            l.set_all_vertical_bond(term_tensor<T>(r, t));
            for (int i = 0; i + 1 < M; i++)
               for (int j = 0; j < N; j++)
                  put({{i, j}, {i + 1, j}}, t);
         } else {
            const int body = r.range(1, std::min(3, M * N));
            auto t = random_term(r, body, d, cplx, kind);
            auto x = term_tensor<T>(r, t);
            for (int k = r.range(1, 3); k > 0; k--) {
               auto p = random_sites(r, s, body);
               l.hamiltonians[p] = x;
               put(p, t);
            }
         }
         log += "t" + std::to_string(what);
      };
      for (int k = r.range(0, 3); k > 0; k--)
         add();
      Vec v = state(s, l.vector);
      if (r.chance(40)) { // the state in another edge order and scale
         auto a = arr(l.vector);
         for (auto& x : a.d)
            x = random_value<T>(r);
         l.vector = tensor<T>(shuffled(r, a));
         v = state(s, l.vector);
         log += "o";
      }
      const bool copied = r.chance(20);
      if (copied) {
         auto copy = l;
         copy.update(1);
         l = square::ExactLattice<T>(l);
      }
      for (int op = r.range(1, 6); op > 0; op--) {
         const int what = r.range(0, 5);
         if (what <= 1) {
            const int steps = r.range(0, 4);
            const double a = r.chance(20) ? -0.5 : (r.real() * 4 - 2);
            const double shift = std::abs(a) * M * N;
            double biggest = 0, amplification = 1, expect = 0;
            for (auto& x : v)
               biggest = std::max(biggest, std::abs(x));
            bool meaningful = biggest > 0;
            for (int k = 0; k < steps; k++) {
               auto y = apply(s, h, v);
               double scale = 0, out = 0;
               for (auto& t : h)
                  for (auto& e : t.m)
                     scale += std::abs(e);
               for (std::size_t i = 0; i < v.size(); i++) {
                  y[i] = shift * v[i] - y[i];
                  out = std::max(out, std::abs(y[i]));
               }
               double in = 0;
               for (auto& x : v)
                  in = std::max(in, std::abs(x));
               amplification *= 1 + (shift + scale) * in / std::max(out, 1e-300) / 10;
               // a state of maximum modulus one gives the energy estimate directly
               expect = (shift - out) / (M * N);
               if (k > 0)
                  expect = (shift - out / in) / (M * N);
               if (out < 1e-6 * (shift + scale) * in)
                  meaningful = false;
               v = std::move(y);
            }
            if (!meaningful || amplification > 1e4) {
               mon::count("power steps that annihilate the state (not compared)");
               return;
            }
            const double e = r.chance(50) && a == -0.5 ? l.update(steps) : l.update(steps, a);
            auto w = state(s, l.vector);
            const double dist = distance(w, v);
            mon::require(dist <= 1e-12 * amplification * 10, "state after " + std::to_string(steps) + " power steps is not (shift - H)^k of the state before, relative distance " + text(dist));
            if (steps > 0)
               mon::require(std::abs(e - expect) <= 1e-11 * amplification * (1 + std::abs(expect) + std::abs(a)), "energy estimate " + text(e) + " instead of " + text(expect));
            v = w;
            log += "u" + std::to_string(steps);
            mon::count("power steps", steps);
         } else if (what == 2) {
            observe<T>(r, s, l, v);
            log += "e";
         } else if (what == 3) {
            observe<std::complex<double>>(r, s, l, v);
            log += "c";
         } else if (what == 4) {
            const double n = norm2(v);
            double scale = 1;
            for (auto& t : h)
               for (auto& e : t.m)
                  scale += std::abs(e);
            close(l.observe_energy(), dot(apply(s, h, v), v).real() / n / (M * N), scale, "energy per site");
            close(l.denominator(), n, n, "norm");
            mon::count("energies");
            log += "E";
         } else {
            // with a shift above the spectrum the energy never rises
            double scale = 0;
            for (auto& t : h)
               for (auto& e : t.m)
                  scale += std::abs(e);
            if (scale == 0)
               continue;
            double last = l.observe_energy();
            const double first = last;
            for (int k = 0; k < 6; k++) {
               l.update(r.range(1, 5), scale / (M * N) * 1.01);
               const double now = l.observe_energy();
               mon::require(now <= last + 1e-11 * (scale + 1), "energy rises from " + text(last) + " to " + text(now) + " under power steps with a shift above the spectrum");
               last = now;
            }
            mon::count("energy falls", first - last > 1e-9);
            v = state(s, l.vector);
            log += "m";
         }
         if (r.chance(15))
            add();
         mon::require(l.M == M && l.N == N && l.dimension_physics == square::Size(d), "lattice size changed");
      }
      if (M * N > 1 && d > 1 && !h.empty())
         mon::nontrivial(std::to_string(M) + std::to_string(N) + std::to_string(d) + log);
      mon::sample(std::to_string(M) + "x" + std::to_string(N) + " d" + std::to_string(d) + " " + std::to_string(h.size()) + " terms " + log);
   });
}
