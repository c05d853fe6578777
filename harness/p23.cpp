// P23: simple update against the dense evolution, on one or several processes.
#include "ranks.hpp"
#include "sq.hpp"
using namespace sq;
using T = SCALAR;
constexpr bool cplx = TAT::is_complex_v<T>;
using SU = square::SimpleUpdateLattice<T>;

static double weight(const std::vector<Term>& h) {
   double k = 0;
   for (auto& t : h)
      for (auto& x : t.m)
         k += std::abs(x);
   return k;
}

static void body(Rng& r, long c) {
   Quiet quiet;
   static const std::vector<std::array<int, 3>> shapes = {{1, 1, 2}, {1, 2, 2}, {2, 1, 3}, {1, 3, 2}, {3, 1, 2}, {2, 2, 2}, {2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {1, 5, 2}, {5, 1, 2}, {1, 4, 3}, {3, 1, 3}};
   auto [M, N, d] = r.pick(shapes);
   Sys s{M, N, d};
   const int D = r.range(1, M * N > 4 ? 2 : 3);
   square::random::seed(r.range(1, 1000000));
   SU l(M, N, D, d);
   std::string log = std::to_string(M) + "x" + std::to_string(N) + "d" + std::to_string(d) + "D" + std::to_string(D);
   for (auto& row : l.lattice)
      for (auto& t : row)
         t = tensor<T>(shuffled(r, arr(t)));
   const auto all = bonds(s);
   auto random_h = [&](int kind, int number, bool diagonal) {
      std::vector<Term> h;
      l.hamiltonians.clear();
      for (int k = 0; k < number; k++) {
         auto t = random_term(r, r.chance(30) || all.empty() ? 1 : 2, d, cplx, diagonal ? 2 : kind);
         auto x = term_tensor<T>(r, t);
         for (int n = r.range(1, 2); n > 0; n--) {
            auto p = t.body == 1 ? random_sites(r, s, 1) : r.pick(all);
            if (t.body == 2 && r.chance(40))
               std::swap(p[0], p[1]);
            if (l.hamiltonians.count(p))
               continue;
            l.hamiltonians[p] = x;
            h.push_back(t);
            h.back().at = p;
            if (!diagonal && kind < 5 && number == 1)
               break;
         }
      }
      return h;
   };
   auto fits = [&] { // exact dense evaluation stays affordable
      double cost = s.size();
      for (auto& row : l.lattice)
         for (auto& t : row)
            cost = std::max(cost, double(t.core->blocks.begin()->second.size()));
      long widest = 1;
      for (auto& row : l.lattice)
         for (auto& t : row)
            for (auto& e : t.core->edges)
               widest = std::max(widest, long(e.map.begin()->second));
      return widest <= 24 && cost < 60000;
   };
   // a network in the middle of its life: weights on some bonds, truncated before
   if (r.chance(60)) {
      random_h(0, r.range(1, 4), false);
      l.update(r.range(1, 2), 0.05 + 0.2 * r.real(), r.range(1, 3));
      log += "w";
      if (r.chance(25)) { // the same network without explicit weights
         l = SU(square::SamplingGradientLattice<T>(l, 4));
         mon::require(l.environment.empty(), "weights appear from nowhere");
         log += "c";
      }
   }
   auto v = network_state(s, weighted_grid(l));
   for (int round = r.range(1, 3); round > 0; round--) {
      // conversions
      {
         square::ExactLattice<T> e(l);
         double dist = distance(state(s, e.vector), v);
         mon::require(dist <= 1e-9, "conversion to an exact state differs from the contraction of the network with its weights by " + text(dist));
         mon::require(e.hamiltonians == l.hamiltonians && e.M == M && e.N == N && e.dimension_physics == square::Size(d), "conversion loses the Hamiltonian or the size");
         square::SamplingGradientLattice<T> g(l, 5);
         dist = distance(network_state(s, grid(g)), v);
         mon::require(dist <= 1e-9, "conversion to a sampling lattice changes the state by " + text(dist));
         mon::require(g.hamiltonians == l.hamiltonians && g.dimension_cut == 5 && g.dimension_virtual == l.dimension_virtual, "conversion loses parameters");
         square::ExactLattice<T> f(g);
         dist = distance(state(s, f.vector), v);
         mon::require(dist <= 1e-9, "conversion of a sampling lattice to an exact state changes the state by " + text(dist));
         mon::require(f.hamiltonians == l.hamiltonians && f.M == M && f.N == N && f.dimension_physics == square::Size(d), "conversion of a sampling lattice to an exact state loses the Hamiltonian or the size");
         SU back(g);
         dist = distance(network_state(s, weighted_grid(back)), v);
         mon::require(dist <= 1e-9, "conversion of a sampling lattice to a simple update lattice changes the state by " + text(dist));
         mon::require(back.hamiltonians == l.hamiltonians && back.M == M && back.N == N && back.dimension_physics == square::Size(d) && back.dimension_virtual == l.dimension_virtual, "conversion of a sampling lattice to a simple update lattice loses the Hamiltonian or the size");
         mon::count("conversions", 4);
      }
      const int what = r.range(0, 9);
      const double dt = (r.chance(20) ? -1 : 1) * (0.01 + 0.2 * r.real());
      std::vector<Term> h;
      int steps = 1;
      double tolerance = 1e-9;
      Vec want;
      if (what == 0) {
         l.hamiltonians.clear();
         steps = r.range(0, 3);
         want = v;
         log += "n";
      } else if (what <= 4) {
         h = random_h(r.range(0, 4), 1, false);
         steps = r.range(0, 2);
         want = evolve(s, h, -2 * dt * steps, v);
         log += "1" + text(h[0].at);
      } else if (what <= 6) {
         h = random_h(2, r.range(1, 3), true);
         steps = r.range(0, 2);
         want = evolve(s, h, -2 * dt * steps, v);
         log += "d" + std::to_string(h.size());
      } else {
         h = random_h(r.range(0, 3), r.range(2, 4), false);
         want = v; // filled below
         log += "t" + std::to_string(h.size());
      }
      double use = dt;
      if (what > 6) {
         // non-commuting terms: the product of the gates approximates the evolution to second order in the step
         const double eps = 1e-4 / std::max(1.0, weight(h));
         use = eps;
         want = evolve(s, h, -2 * eps, v);
         tolerance = 1e-9 + 40 * std::pow(eps * weight(h), 2);
      }
      auto before = l.lattice;
      const auto env_before = l.environment.size();
      l.update(steps, use, 10000);
      mon::require(l.dimension_virtual == 10000, "requested bond dimension is not recorded");
      if (what == 0 || steps == 0) {
         for (int i = 0; i < M; i++)
            for (int j = 0; j < N; j++)
               mon::require(arr(l.lattice[i][j]).d == arr(before[i][j]).d && l.environment.size() == env_before, "lattice changes although there is nothing to apply");
      }
      if (!fits()) {
         mon::count("networks too large for the dense reference");
         break;
      }
      auto now = network_state(s, weighted_grid(l));
      const double dist = distance(now, want);
      if (std::getenv("SQ_SHOW"))
         std::fprintf(stderr, "%s %g tol %g\n", log.c_str(), dist, tolerance);
      mon::require(dist <= tolerance, "state after simple update differs from the dense evolution by " + text(dist) + " (" + log + ", dt " + text(use) + ", " + std::to_string(steps) + " steps)");
      v = now;
      mon::count("updates compared");
      // truncation bounds the bonds that are updated
      if (r.chance(40)) {
         const int cut = r.range(1, 3);
         l.update(1, 0.02, cut);
         std::set<Positions> touched;
         for (auto& t : h)
            if (t.at.size() == 2)
               touched.insert({std::min(t.at[0], t.at[1]), std::max(t.at[0], t.at[1])});
         for (auto& p : touched) {
            auto [x, y] = p[0];
            const std::string n = std::get<0>(p[1]) > x ? "D" : "R";
            mon::require(arr(l.lattice[x][y]).dim(n) <= cut, "bond dimension exceeds the requested one");
         }
         if (!fits())
            break;
         v = network_state(s, weighted_grid(l));
         log += "k";
         bool finite = norm2(v) > 0;
         for (auto& x : v)
            finite = finite && std::abs(x) < 1e300;
         mon::require(finite, "truncated update leaves no finite state");
      }
      if (r.chance(30)) { // a copy evolves by itself
         SU copy(l);
         copy.update(1, 0.1, 2);
         const double moved = distance(network_state(s, weighted_grid(l)), v);
         mon::require(moved <= 1e-12, "evolving a copy changes the original");
      }
   }
   if (M * N > 1)
      mon::nontrivial(log);
   mon::sample(log);
}

int main(int argc, char** argv) {
   ranks::begin(argc, argv);
   const int rc = mon::run(argc, argv, [](Rng& r, long c) {
      ranks::beat();
      body(r, c);
   });
   ranks::end();
   return rc;
}
