// P25: sampling over configurations against the dense state, and Markov chains against recomputed amplitudes.
#include "sq.hpp"
using namespace sq;
using T = SCALAR;
constexpr bool cplx = TAT::is_complex_v<T>;
using SG = square::SamplingGradientLattice<T>;
using Config = std::vector<std::vector<int>>;
using Observers = std::map<std::string, std::map<Positions, std::shared_ptr<const square::Tensor<T>>>>;

static long index_of(const Sys& s, const Config& c) {
   long x = 0;
   for (int i = 0; i < s.M; i++)
      for (int j = 0; j < s.N; j++)
         x = x * s.d + c[i][j];
   return x;
}
static Config config_of(const Sys& s, long x) {
   Config c(s.M, std::vector<int>(s.N));
   for (int i = s.M - 1; i >= 0; i--)
      for (int j = s.N - 1; j >= 0; j--) {
         c[i][j] = x % s.d;
         x /= s.d;
      }
   return c;
}
static std::string text(const Config& c) {
   std::string r;
   for (auto& row : c) {
      for (auto x : row)
         r += x < 0 ? "-" : std::to_string(x);
      r += "/";
   }
   return r;
}
// sum over s' of <x|term|s'> v(s'), and the same with absolute values
static std::pair<Z, double> row(const Sys& s, const Term& t, const Vec& v, long x) {
   const long D = t.D();
   long out = 0, base = x;
   for (auto& p : t.at) {
      const long q = s.stride(p), spin = x / q % t.d;
      out = out * t.d + spin;
      base -= q * spin;
   }
   Z sum = 0;
   double scale = 0;
   for (long in = 0; in < D; in++) {
      const Z y = t.m[in * D + out] * v[base + offset(s, t.at, t.d, in)];
      sum += y;
      scale += std::abs(t.m[in * D + out]);
   }
   return {sum, scale};
}

struct Model {
   Sys s;
   Vec v; // amplitudes
   double big = 0; // the largest
   double fuzz = 0; // rounding of an amplitude
   Grid g;
   Model(const Sys& s, const SG& l) : s(s), g(grid(l)) {
      v = network_state(s, g);
      for (auto& x : v)
         big = std::max(big, std::abs(x));
      double p = 1;
      for (auto& r : g)
         for (auto& t : r)
            p *= std::sqrt(norm2(t.d));
      double a = 0;
      for (auto& x : contract_grid(g, true).d)
         a = std::max(a, std::abs(x));
      fuzz = 1e-12 * a + 1e-15 * p;
   }
};

struct Fixture {
   Sys s;
   SG l;
   std::vector<Term> h;
   std::string log;
};

static Fixture make(Rng& r, bool tiny) {
   static const std::vector<std::array<int, 3>> shapes = {{1, 1, 2}, {1, 1, 3}, {1, 2, 2}, {2, 1, 3}, {1, 3, 2}, {3, 1, 2}, {2, 2, 2}, {2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {1, 4, 2}, {4, 1, 2}, {3, 3, 2}};
   auto [M, N, d] = r.pick(shapes);
   while (tiny && M * N * d > 8)
      std::tie(M, N, d) = std::tuple_cat(r.pick(shapes));
   const Sys s{M, N, d};
   const int D = r.range(1, M * N > 6 ? 2 : 3);
   square::random::seed(r.range(1, 1000000));
   Fixture f{s, SG(M, N, D, 10000, d), {}, std::to_string(M) + "x" + std::to_string(N) + "d" + std::to_string(d) + "D" + std::to_string(D)};
   // tensors: random; sparse (vanishing amplitudes); integers
   const int style = r.range(0, 3);
   for (auto& row : f.l.lattice)
      for (auto& t : row) {
         auto a = shuffled(r, arr(t));
         for (auto& x : a.d) {
            x = random_value<T>(r);
            if (style == 1 && r.chance(30))
               x = 0;
            if (style == 2)
               x = double(r.range(-2, 2));
         }
         t = tensor<T>(a);
      }
   f.log += "s" + std::to_string(style);
   const auto all = bonds(s);
   const int kind = r.range(0, 5);
   for (int n = r.range(1, 5); n > 0; n--) {
      const bool two = !all.empty() && r.chance(75);
      auto t = random_term(r, two ? 2 : 1, d, cplx, kind == 5 ? r.range(0, 4) : kind);
      auto x = term_tensor<T>(r, t);
      for (int k = r.range(1, 3); k > 0; k--) {
         auto p = two ? r.pick(all) : random_sites(r, s, 1);
         if (two && r.chance(40))
            std::swap(p[0], p[1]);
         if (f.l.hamiltonians.count(p))
            continue;
         f.l.hamiltonians[p] = x;
         f.h.push_back(t);
         f.h.back().at = p;
      }
   }
   f.log += "k" + std::to_string(kind) + "h" + std::to_string(f.h.size());
   return f;
}

static void observers_for(Rng& r, const Sys& s, Observers& o, std::map<std::string, std::vector<Term>>& model) {
   const auto all = bonds(s);
   for (int n = r.range(0, 3); n > 0; n--) {
      const std::string name = "obs" + std::to_string(n);
      for (int k = r.range(0, 2); k > 0; k--) {
         Term t;
         Positions p;
         const int what = r.range(0, 3);
         if (what == 0) { // diagonal: any number of sites anywhere
            const int b = r.range(1, std::min(3, s.M * s.N));
            t = random_term(r, b, s.d, cplx, 2);
            p = random_sites(r, s, b);
         } else if (what == 1 || all.empty()) {
            t = random_term(r, 1, s.d, cplx, r.range(0, 4));
            p = random_sites(r, s, 1);
         } else {
            t = random_term(r, 2, s.d, cplx, r.range(0, 4));
            p = r.pick(all);
            if (r.chance(50))
               std::swap(p[0], p[1]);
         }
         if (o[name].count(p))
            continue;
         o[name][p] = term_tensor<T>(r, t);
         t.at = p;
         model[name].push_back(t);
      }
   }
}

// a configuration with an amplitude well above rounding, or -1
static long start(Rng& r, const Model& m) {
   std::vector<long> good;
   for (long x = 0; x < long(m.v.size()); x++)
      if (std::abs(m.v[x]) > 1e-3 * m.big && std::abs(m.v[x]) > 1e4 * m.fuzz)
         good.push_back(x);
   return good.empty() ? -1 : r.pick(good);
}
static std::set<long> reachable(const Sys& s, const std::vector<Term>& h, long from) {
   std::set<long> seen{from};
   std::vector<long> todo{from};
   while (!todo.empty()) {
      long x = todo.back();
      todo.pop_back();
      for (auto& t : h) {
         const long D = t.D();
         long in = 0, base = x;
         for (auto& p : t.at) {
            const long q = s.stride(p), spin = x / q % t.d;
            in = in * t.d + spin;
            base -= q * spin;
         }
         for (long out = 0; out < D; out++)
            if (t.m[in * D + out] != Z(0)) {
               const long y = base + offset(s, t.at, t.d, out);
               if (seen.insert(y).second)
                  todo.push_back(y);
            }
      }
   }
   return seen;
}

static void amplitudes(Rng& r, const SG& l, const Model& m, const std::string& log) {
   const Z now = wide(T(l.spin()));
   const long x = index_of(m.s, l.spin.configuration);
   mon::require(std::abs(now - m.v[x]) <= m.fuzz, "amplitude at " + text(l.spin.configuration) + " differs from the contraction of the network by " + text(std::abs(now - m.v[x])) + " " + log);
   mon::count("amplitudes compared");
   const auto all = bonds(m.s);
   std::map<Pos, int> change;
   auto p = all.empty() || r.chance(40) ? random_sites(r, m.s, 1) : r.pick(all);
   auto c = l.spin.configuration;
   for (auto [i, j] : p)
      change[{i, j}] = c[i][j] = r.range(0, m.s.d - 1);
   const char hint = " hv"[r.range(0, 2)];
   const Z got = wide(T(l.spin(change, narrow<T>(now), hint)));
   const Z want = m.v[index_of(m.s, c)];
   mon::require(std::abs(got - want) <= m.fuzz, "amplitude with the spins at " + text(p) + " changed differs from the contraction of the network by " + text(std::abs(got - want)) + " " + log);
}

static void body(Rng& r, long) {
   Quiet quiet;
   auto f = make(r, false);
   auto& [s, l, h, log] = f;
   const Model m(s, l);
   Observers obs;
   std::map<std::string, std::vector<Term>> terms;
   observers_for(r, s, obs, terms);
   const double total = norm2(m.v);
   const bool alive = m.big > 1e6 * m.fuzz;
   const long x0 = start(r, m);
   if (x0 < 0 || !alive) {
      mon::count("networks without a definite amplitude");
      return;
   }
   for (int round = r.range(1, 3); round > 0; round--) {
      const int what = r.range(0, 5);
      if (what == 0) { // amplitudes for arbitrary configurations in a row
         log += "a";
         for (int k = r.range(1, 6); k > 0; k--) {
            auto c = config_of(s, r.range(0, int(m.v.size()) - 1));
            if (r.chance(50))
               l.initialize_spin(c);
            else
               l.initialize_spin([&](int i, int j) { return c[i][j]; });
            mon::require(l.spin.configuration == c, "configuration set is not the one reported");
            amplitudes(r, l, m, log);
            if (r.chance(20))
               l.spin.set(random_sites(r, s, 1)[0], r.range(0, s.d - 1));
            amplitudes(r, l, m, log);
         }
      } else if (what == 1) { // enumeration
         log += "e";
         const bool energy = r.chance(50);
         auto result = l.ergodic(obs, energy);
         auto want = terms;
         if (energy)
            want["Energy"] = h;
         std::size_t number = 0;
         for (auto& [kind, list] : want)
            for (auto& t : list) {
               number++;
               double scale = 0;
               Z sum = 0;
               for (long x = 0; x < long(m.v.size()); x++) {
                  auto [y, w] = row(s, t, m.v, x);
                  sum += std::conj(m.v[x]) * y;
                  scale = std::max(scale, w);
               }
               mon::require(result.count(kind) && result.at(kind).count(t.at), "enumeration does not report the observable " + kind + " at " + text(t.at));
               const double got = result.at(kind).at(t.at), ref = sum.real() / total;
               const double tol = scale * (1e-10 + 1e3 * double(m.v.size()) * m.fuzz * m.big / total);
               mon::require(std::abs(got - ref) <= tol, "enumeration gives " + text(got) + " for " + kind + " at " + text(t.at) + ", the state has " + text(ref) + " " + log);
               mon::count("enumeration averages");
            }
         std::size_t reported = 0;
         for (auto& [kind, group] : result)
            reported += group.size();
         mon::require(reported == number, "enumeration reports observables nobody asked for");
         if (l.spin.configuration.size())
            amplitudes(r, l, m, log);
      } else if (what == 2) { // copies
         log += "c";
         auto before = config_of(s, r.range(0, int(m.v.size()) - 1));
         l.initialize_spin(before);
         SG copy(l);
         amplitudes(r, copy, m, log + " in a copy");
         copy.initialize_spin(config_of(s, r.range(0, int(m.v.size()) - 1)));
         amplitudes(r, copy, m, log + " in a copy");
         mon::require(l.spin.configuration == before, "changing a copy changes the original");
         amplitudes(r, l, m, log);
         { // what happens to the original is nothing to a copy
            std::unique_ptr<SG> original(new SG(l));
            SG mine(*original);
            for (auto& row : original->lattice)
               for (auto& t : row)
                  t = t * T(3);
            if (r.chance(50))
               original.reset();
            mine.initialize_spin(config_of(s, r.range(0, int(m.v.size()) - 1)));
            amplitudes(r, mine, m, log + " in a copy whose original was changed");
         }
         SG other(1, 1, 1, 1, 2);
         if (r.chance(50))
            other = copy;
         else
            other = SG(copy);
         mon::require(other.spin.configuration == copy.spin.configuration && other.dimension_cut == copy.dimension_cut, "assignment loses the configuration or the cut");
         {
            SG moved(std::move(copy));
            mon::require(moved.spin.configuration == other.spin.configuration, "moving loses the configuration");
            amplitudes(r, moved, m, log + " after moving");
         }
         amplitudes(r, other, m, log + " after assignment");
         if (r.chance(50)) { // nothing computed with a small cut may outlive it
            l.set_dimension_cut(1);
            (void)l.spin();
         }
         l.set_dimension_cut(r.range(3000, 20000));
         mon::require(l.spin.configuration == before, "changing the cut loses the configuration");
         amplitudes(r, l, m, log);
      } else if (what == 3) { // equilibration
         log += "q";
         l.initialize_spin(config_of(s, x0));
         auto can = reachable(s, h, x0);
         for (int k = r.range(1, 3); k > 0; k--) {
            l.equilibrate(r.range(0, 4));
            const long x = index_of(s, l.spin.configuration);
            mon::require(can.count(x), "equilibration reaches " + text(l.spin.configuration) + ", which no term connects with the start");
            mon::require(std::abs(m.v[x]) > 0, "equilibration reaches a configuration without amplitude");
            amplitudes(r, l, m, log);
         }
      } else { // Markov chain
         const int steps = r.range(1, 6);
         log += "m" + std::to_string(steps);
         l.initialize_spin(config_of(s, x0));
         const auto seed = r.range(1, 1000000);
         auto can = reachable(s, h, x0);
         std::vector<long> visited;
         for (int k = 1; k <= steps; k++) {
            SG again(l);
            square::random::seed(seed);
            (void)again.markov(k, {}, false, false);
            const auto& c = again.spin.configuration;
            for (auto& row : c)
               for (auto x : row)
                  mon::require(x >= 0 && x < s.d, "chain visits a configuration that does not exist");
            visited.push_back(index_of(s, c));
            mon::require(can.count(visited.back()), "chain visits " + text(c) + ", which no term connects with the start " + log);
            mon::require(m.v[visited.back()] != Z(0), "chain visits a configuration without amplitude");
            amplitudes(r, again, m, log);
         }
         const bool gradient = r.chance(60), energy = r.chance(50);
         square::random::seed(seed);
         auto [mean, variance, grad] = l.markov(steps, obs, energy, gradient);
         mon::require(index_of(s, l.spin.configuration) == visited.back(), "the same chain ends elsewhere when observables are measured");
         amplitudes(r, l, m, log);
         auto want = terms;
         if (energy || gradient)
            want["Energy"] = h;
         bool definite = true;
         double worst = 0;
         for (auto x : visited) {
            definite = definite && std::abs(m.v[x]) > 1e4 * m.fuzz;
            worst = std::max(worst, m.fuzz / std::abs(m.v[x]));
         }
         if (!definite)
            continue;
         for (auto& [kind, list] : want)
            for (auto& t : list) {
               mon::require(mean.count(kind) && mean.at(kind).count(t.at) && variance.at(kind).count(t.at), "chain does not report the observable " + kind + " at " + text(t.at));
               double sum = 0, square = 0, scale = 0;
               for (auto x : visited) {
                  auto [y, w] = row(s, t, m.v, x);
                  const double e = (y / m.v[x]).real();
                  sum += e;
                  square += e * e;
                  scale = std::max(scale, w * m.big / std::abs(m.v[x]));
               }
               sum /= steps;
               square /= steps;
               const double e1 = std::abs(mean.at(kind).at(t.at) - sum);
               mon::require(e1 <= scale * (1e-10 + 100 * worst), "chain reports " + text(mean.at(kind).at(t.at)) + " for " + kind + " at " + text(t.at) + ", the average over the visited configurations is " + text(sum) + " " + log);
               if (steps > 1) {
                  const double e2 = std::abs(variance.at(kind).at(t.at) - (square - sum * sum) / (steps - 1));
                  mon::require(e2 <= scale * scale * (1e-10 + 1000 * worst), "chain reports another squared error for " + kind + " at " + text(t.at) + " than the visited configurations have " + log);
               }
               mon::count("chain averages");
            }
         if (gradient) {
            mon::require(int(grad.size()) == s.M, "gradient has another shape than the lattice");
            Z se = 0;
            double scale = 0;
            std::vector<Z> es;
            for (auto x : visited) {
               Z e = 0;
               double k = 0;
               for (auto& t : h) {
                  auto [y, w] = row(s, t, m.v, x);
                  e += y / m.v[x];
                  k += w * m.big / std::abs(m.v[x]);
               }
               es.push_back(e);
               se += e / double(steps);
               scale = std::max(scale, k);
            }
            for (int i = 0; i < s.M; i++)
               for (int j = 0; j < s.N; j++) {
                  const Arr& site = m.g[i][j];
                  Vec ge(site.d.size(), 0), ho(site.d.size(), 0);
                  double big = 0;
                  for (std::size_t k = 0; k < visited.size(); k++) {
                     auto c = config_of(s, visited[k]);
                     Grid g = m.g;
                     for (int a = 0; a < s.M; a++)
                        for (int b = 0; b < s.N; b++)
                           g[a][b] = fix_spin(m.g[a][b], c[a][b]);
                     Arr probe;
                     for (auto& n : g[i][j].names) {
                        const long dim = g[i][j].dim(n);
                        Arr id;
                        id.names = {n, n + "0"};
                        id.dims = {dim, dim};
                        id.d.assign(dim * dim, 0);
                        for (long q = 0; q < dim; q++)
                           id.d[q * dim + q] = 1;
                        probe = contract(probe, id, {});
                     }
                     g[i][j] = probe;
                     auto hole = contract_grid(g);
                     for (auto& n : hole.names)
                        n.pop_back();
                     // spread over the physical edge
                     Arr unit;
                     unit.names = {"P"};
                     unit.dims = {s.d};
                     unit.d.assign(s.d, 0);
                     unit.d[c[i][j]] = 1;
                     auto full = contract(hole, unit, {}).order(site.names);
                     for (std::size_t q = 0; q < full.d.size(); q++) {
                        const Z o = std::conj(full.d[q] / m.v[visited[k]]);
                        ge[q] += o * es[k] / double(steps);
                        ho[q] += o / double(steps);
                        big = std::max(big, std::abs(o));
                     }
                  }
                  auto got = arr(grad[i][j]);
                  auto names = got.names, mine = site.names;
                  std::sort(names.begin(), names.end());
                  std::sort(mine.begin(), mine.end());
                  mon::require(names == mine, "gradient has other edges than the tensor at " + text(Positions{{i, j}}));
                  got = got.order(site.names);
                  mon::require(got.dims == site.dims, "gradient has another shape than the tensor at " + text(Positions{{i, j}}));
                  for (std::size_t q = 0; q < ge.size(); q++) {
                     const Z ref = 2. * ge[q] - 2. * se * ho[q];
                     mon::require(std::abs(got.d[q] - ref) <= (big + 1) * scale * (1e-9 + 1000 * worst), "gradient at " + text(Positions{{i, j}}) + " differs from the one of the visited configurations by " + text(std::abs(got.d[q] - ref)) + " " + log);
                  }
                  mon::count("gradients");
               }
         }
      }
   }
   mon::nontrivial(log);
   mon::sample(log);
}

// A sweep started from a configuration drawn with probability |amplitude|^2 ends at one with the same distribution:
// independent samples, so that the statistic has the textbook distribution.
static void stationary(Rng& r, long) {
   Quiet quiet;
   auto f = make(r, true);
   auto& [s, l, h, log] = f;
   const Model m(s, l);
   const long x0 = start(r, m);
   if (x0 < 0)
      return;
   auto can = reachable(s, h, x0);
   if (can.size() < 2)
      return;
   std::vector<long> where(can.begin(), can.end());
   std::vector<double> p;
   double total = 0;
   for (auto x : where) {
      if (m.v[x] != Z(0) && std::abs(m.v[x]) < 1e5 * m.fuzz)
         return; // amplitudes that are only rounding
      total += std::norm(m.v[x]);
      p.push_back(total);
   }
   const int samples = 2000;
   std::map<long, long> seen;
   long moved = 0;
   square::random::seed(r.range(1, 1000000));
   for (int k = 0; k < samples; k++) {
      const double u = r.real() * total;
      std::size_t i = 0;
      while (i + 1 < p.size() && p[i] <= u)
         i++;
      if (m.v[where[i]] == Z(0))
         continue;
      l.initialize_spin(config_of(s, where[i]));
      l.equilibrate(1);
      const long x = index_of(s, l.spin.configuration);
      mon::require(can.count(x), "sweep leaves what the terms connect");
      moved += x != where[i];
      seen[x]++;
   }
   // chi square over the cells, small ones together
   double chi = 0, rest = 0;
   long rest_seen = 0;
   int cells = 0;
   std::string table;
   for (std::size_t i = 0; i < where.size(); i++) {
      const double e = std::norm(m.v[where[i]]) / total * samples;
      table += " " + text(config_of(s, where[i])) + " " + std::to_string(seen[where[i]]) + " of " + sq::text(e);
      if (e < 20) {
         rest += e;
         rest_seen += seen[where[i]];
         continue;
      }
      chi += std::pow(seen[where[i]] - e, 2) / e;
      cells++;
   }
   if (rest > 5) {
      chi += std::pow(rest_seen - rest, 2) / rest;
      cells++;
   }
   if (cells < 2)
      return;
   const double k = cells - 1;
   const double z = (std::cbrt(chi / k) - (1 - 2 / (9 * k))) / std::sqrt(2 / (9 * k));
   if (std::getenv("SQ_SHOW"))
      std::fprintf(stderr, "%s cells %d chi %g z %g moved %ld\n", log.c_str(), cells, chi, z, moved);
   mon::require(z < 7.5, "a sweep does not preserve the distribution of the state: chi square " + sq::text(chi) + " for " + std::to_string(cells) + " cells" + table + " " + log);
   mon::count("stationary distributions compared");
   mon::count("moves", moved);
   if (moved)
      mon::nontrivial(log + " " + std::to_string(cells));
   mon::sample(log);
}

int main(int argc, char** argv) {
#ifdef STATIONARY
   return mon::run(argc, argv, stationary);
#else
   return mon::run(argc, argv, body);
#endif
}
