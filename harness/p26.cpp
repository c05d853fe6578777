// P26: lattices written to and read from streams and files.
#include "sq.hpp"

#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace sq;
using T = SCALAR;
constexpr bool cplx = TAT::is_complex_v<T>;
using Exact = square::ExactLattice<T>;
using SU = square::SimpleUpdateLattice<T>;
using SG = square::SamplingGradientLattice<T>;

static void same(const square::Tensor<T>& a, const square::Tensor<T>& b, const std::string& what) {
   auto x = arr(a), y = arr(b);
   mon::require(x.names == y.names && x.dims == y.dims, what + ": edges differ after loading");
   mon::require(x.d == y.d, what + ": elements differ after loading");
}
static void same_base(const square::AbstractLattice<T>& a, const square::AbstractLattice<T>& b, const std::string& what) {
   mon::require(a.M == b.M && a.N == b.N && a.dimension_physics == b.dimension_physics, what + ": size differs after loading");
   mon::require(a.hamiltonians.size() == b.hamiltonians.size(), what + ": number of Hamiltonian terms differs after loading");
   for (auto& [p, t] : a.hamiltonians) {
      auto f = b.hamiltonians.find(p);
      mon::require(f != b.hamiltonians.end() && f->second, what + ": Hamiltonian term at " + text(p) + " is lost");
      same(*t, *f->second, what + ": Hamiltonian term at " + text(p));
   }
}
static void same_net(const square::AbstractNetworkLattice<T>& a, const square::AbstractNetworkLattice<T>& b, const std::string& what) {
   same_base(a, b, what);
   mon::require(a.dimension_virtual == b.dimension_virtual, what + ": bond dimension differs after loading");
   mon::require(a.lattice.size() == b.lattice.size(), what + ": rows differ after loading");
   for (std::size_t i = 0; i < a.lattice.size(); i++) {
      mon::require(a.lattice[i].size() == b.lattice[i].size(), what + ": columns differ after loading");
      for (std::size_t j = 0; j < a.lattice[i].size(); j++)
         same(a.lattice[i][j], b.lattice[i][j], what + ": tensor at " + text(Positions{{int(i), int(j)}}));
   }
}
static void same(const Exact& a, const Exact& b, const std::string& what) {
   same_base(a, b, what);
   same(a.vector, b.vector, what + ": state");
}
static void same(const SU& a, const SU& b, const std::string& what) {
   same_net(a, b, what);
   mon::require(a.environment.size() == b.environment.size(), what + ": number of bond weights differs after loading");
   for (auto& [k, s] : a.environment) {
      auto f = b.environment.find(k);
      mon::require(f != b.environment.end() && f->second.value == s.value, what + ": bond weights differ after loading");
   }
}
static void same(const SG& a, const SG& b, const std::string& what) {
   same_net(a, b, what);
   mon::require(a.dimension_cut == b.dimension_cut, what + ": cut differs after loading");
   mon::require(a.spin.configuration == b.spin.configuration, what + ": configuration differs after loading");
   bool complete = a.M > 0;
   for (auto& r : a.spin.configuration)
      for (auto x : r)
         complete = complete && x >= 0;
   if (complete)
      mon::require(T(a.spin()) == T(b.spin()), what + ": amplitude differs after loading");
}

template<class L>
void terms(Rng& r, const Sys& s, L& l, bool any) {
   const auto all = bonds(s);
   for (int n = r.range(0, 3); n > 0; n--) {
      const int body = any ? r.range(1, std::min(3, s.M * s.N)) : all.empty() || r.chance(30) ? 1 : 2;
      auto t = random_term(r, body, s.d, cplx, r.range(0, 4));
      auto x = term_tensor<T>(r, t);
      for (int k = r.range(1, 3); k > 0; k--) {
         auto p = any || body == 1 ? random_sites(r, s, body) : r.pick(all);
         l.hamiltonians[p] = x;
      }
   }
}
static Sys shape(Rng& r) {
   static const std::vector<std::array<int, 3>> shapes = {{1, 1, 2}, {1, 1, 3}, {1, 2, 2}, {2, 1, 3}, {1, 3, 2}, {3, 1, 2}, {2, 2, 2}, {2, 2, 3}, {2, 3, 2}, {3, 2, 2}, {1, 4, 2}};
   auto [M, N, d] = r.pick(shapes);
   return {M, N, d};
}
static Exact exact(Rng& r, std::string& log) {
   auto s = shape(r);
   Exact l(s.M, s.N, s.d);
   terms(r, s, l, true);
   if (r.chance(50))
      l.update(r.range(1, 3), 3.);
   log += "E" + std::to_string(s.M) + std::to_string(s.N) + "h" + std::to_string(l.hamiltonians.size());
   return l;
}
static SU simple(Rng& r, std::string& log) {
   auto s = shape(r);
   SU l(s.M, s.N, r.range(1, 3), s.d);
   for (auto& row : l.lattice)
      for (auto& t : row)
         t = tensor<T>(shuffled(r, arr(t)));
   terms(r, s, l, false);
   if (r.chance(60))
      l.update(r.range(1, 3), 0.1, r.range(1, 4));
   log += "S" + std::to_string(s.M) + std::to_string(s.N) + "h" + std::to_string(l.hamiltonians.size()) + "w" + std::to_string(l.environment.size());
   return l;
}
static SG sampling(Rng& r, std::string& log) {
   auto s = shape(r);
   SG l(s.M, s.N, r.range(1, 3), r.range(1, 8), s.d);
   terms(r, s, l, false);
   const int what = r.range(0, 3);
   if (what > 0)
      l.initialize_spin([&, s = s](int, int) { return r.range(0, s.d - 1); });
   if (what == 2)
      l.spin.set(random_sites(r, s, 1)[0], -1);
   if (what == 3)
      l.equilibrate(r.range(1, 2));
   log += "G" + std::to_string(s.M) + std::to_string(s.N) + "h" + std::to_string(l.hamiltonians.size()) + "c" + std::to_string(what);
   return l;
}
// the two lattices behave alike from here on
static void later(Rng& r, Exact& a, Exact& b, const std::string& what) {
   a.update(2, 2.5);
   b.update(2, 2.5);
   same(a, b, what + ", after two more steps");
   if (!a.hamiltonians.empty())
      mon::require(a.observe_energy() == b.observe_energy(), what + ": energies differ after loading");
}
static void later(Rng& r, SU& a, SU& b, const std::string& what) {
   a.update(2, 0.05, 3);
   b.update(2, 0.05, 3);
   same(a, b, what + ", after two more steps");
}
static void later(Rng& r, SG& a, SG& b, const std::string& what) {
   for (int i = 0; i < a.M; i++)
      for (int j = 0; j < a.N; j++)
         if (a.spin.configuration[i][j] < 0) {
            a.spin.set({i, j}, 1);
            b.spin.set({i, j}, 1);
         }
   same(a, b, what + ", after completing the configuration");
   const int seed = r.range(1, 100000);
   const bool energy = !a.hamiltonians.empty();
   square::random::seed(seed);
   auto [x, vx, gx] = a.markov(2, {}, energy, energy);
   square::random::seed(seed);
   auto [y, vy, gy] = b.markov(2, {}, energy, energy);
   same(a, b, what + ", after two more samples");
   auto equal = [](auto p, auto q) { return p == q || (p != p && q != q); };
   for (auto& [k, g] : x)
      for (auto& [p, v] : g)
         mon::require(equal(v, y.at(k).at(p)), what + ": averages differ after loading");
   for (int i = 0; energy && i < a.M; i++)
      for (int j = 0; j < a.N; j++) {
         auto u = arr(gx[i][j]).d, w = arr(gy[i][j]).d;
         for (std::size_t k = 0; k < u.size(); k++)
            mon::require(equal(u[k].real(), w[k].real()) && equal(u[k].imag(), w[k].imag()), what + ": gradients differ after loading");
      }
}

static std::string dir;
static void body(Rng& r, long c) {
   Quiet quiet;
   square::random::seed(r.range(1, 1000000));
   std::string log;
   struct Any {
      int kind;
      std::unique_ptr<Exact> e;
      std::unique_ptr<SU> u;
      std::unique_ptr<SG> g;
   };
   auto fresh = [&](int kind) {
      Any a{kind, nullptr, nullptr, nullptr};
      if (kind == 0)
         a.e = std::make_unique<Exact>(exact(r, log));
      if (kind == 1)
         a.u = std::make_unique<SU>(simple(r, log));
      if (kind == 2)
         a.g = std::make_unique<SG>(sampling(r, log));
      return a;
   };
   std::vector<Any> list;
   for (int n = r.range(1, 4); n > 0; n--)
      list.push_back(fresh(r.range(0, 2)));
   const bool file = r.chance(20);
   const std::string path = dir + "/lattices";
   std::stringstream memory;
   const int tail = r.range(0, 1 << 30);
   auto write = [&](std::ostream& out) {
      for (auto& a : list) {
         if (a.e)
            out < *a.e;
         if (a.u)
            out < *a.u;
         if (a.g)
            out < *a.g;
      }
      out < tail;
   };
   if (file) {
      std::ofstream out(path, std::ios::binary);
      write(out);
   } else
      write(memory);
   std::ifstream in_file;
   if (file)
      in_file.open(path, std::ios::binary);
   std::istream& in = file ? static_cast<std::istream&>(in_file) : memory;
   std::string dummy;
   std::vector<std::function<void()>> after;
   for (std::size_t k = 0; k < list.size(); k++) {
      auto& a = list[k];
      const std::string what = "lattice " + std::to_string(k) + " of " + log;
      // read into an empty lattice or into one with a past of its own
      if (a.e) {
         auto b = std::make_shared<Exact>(r.chance(50) ? Exact() : exact(r, dummy));
         in > *b;
         same(*a.e, *b, what);
         after.push_back([&, b, what] { later(r, *a.e, *b, what); });
      }
      if (a.u) {
         auto b = std::make_shared<SU>(r.chance(50) ? SU() : simple(r, dummy));
         in > *b;
         same(*a.u, *b, what);
         after.push_back([&, b, what] { later(r, *a.u, *b, what); });
      }
      if (a.g) {
         auto b = std::make_shared<SG>(r.chance(50) ? SG() : sampling(r, dummy));
         in > *b;
         same(*a.g, *b, what);
         after.push_back([&, b, what] { later(r, *a.g, *b, what); });
      }
      mon::require(bool(in), "stream fails while loading " + what);
      mon::count("lattices restored");
   }
   int mark = -1;
   in > mark;
   mon::require(mark == tail, "loading consumes more or less than what was written for " + log);
   r.shuffle(after);
   for (auto& f : after)
      f();
   if (file)
      ::unlink(path.c_str());
   mon::nontrivial(log);
   mon::sample(log);
}

int main(int argc, char** argv) {
   char name[] = "/tmp/verif-p26-XXXXXX";
   if (!::mkdtemp(name))
      return 3;
   dir = name;
   const int rc = mon::run(argc, argv, body);
   ::unlink((dir + "/lattices").c_str());
   ::rmdir(name);
   return rc;
}
