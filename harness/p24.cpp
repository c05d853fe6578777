// P24: environment contraction of a two-dimensional network against the brute-force contraction, for any history.
#include "sq.hpp"
using namespace sq;
using T = SCALAR;
using Aux = square::SquareAuxiliariesSystem<T>;

struct Net {
   Aux aux;
   Grid g;
};

static double norm_product(const Grid& g) {
   double p = 1;
   for (auto& row : g)
      for (auto& t : row)
         p *= std::sqrt(norm2(t.d));
   return p;
}
static double tolerance(const Grid& g) {
   auto a = contract_grid(g, true);
   double big = 0;
   for (auto& x : a.d)
      big = std::max(big, std::abs(x));
   return 1e-10 * big + 1e-13 * norm_product(g) + 1e-290;
}

static void body(Rng& r, long c) {
   Quiet quiet;
   static const std::vector<std::array<int, 2>> shapes = {{1, 1}, {1, 2}, {2, 1}, {1, 4}, {4, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {2, 4}, {4, 2}, {3, 4}, {4, 3}};
   auto [M, N] = r.pick(shapes);
   const Sys s{M, N, 1};
   const int most = M * N > 9 ? 2 : 3;
   std::vector<std::vector<long>> right(M, std::vector<long>(N, 1)), down(M, std::vector<long>(N, 1));
   for (auto& x : right)
      for (auto& y : x)
         y = r.range(1, most);
   for (auto& x : down)
      for (auto& y : x)
         y = r.range(1, most);
   const bool empty = r.chance(10);
   const bool product = r.chance(15); // every bond carries one component only, a cut of one is exact
   std::map<std::tuple<int, int, char>, Vec> direction;
   auto site = [&, M = M, N = N](int i, int j) {
      Arr a;
      auto edge = [&](const char* n, long dim) {
         a.names.push_back(n);
         a.dims.push_back(dim);
      };
      if (i > 0)
         edge("U", down[i - 1][j]);
      if (j > 0)
         edge("L", right[i][j - 1]);
      if (i + 1 < M)
         edge("D", down[i][j]);
      if (j + 1 < N)
         edge("R", right[i][j]);
      long size = 1;
      for (auto x : a.dims)
         size *= x;
      a.d.assign(size, 0);
      const int style = r.range(0, 9);
      const double scale = r.chance(15) ? std::pow(10., r.range(-6, 6)) : 1;
      if (product) {
         Arr p;
         p.d[0] = random_value<T>(r) * scale;
         for (std::size_t e = 0; e < a.names.size(); e++) {
            Arr v;
            v.names = {a.names[e]};
            v.dims = {a.dims[e]};
            v.d.clear();
            for (long k = 0; k < a.dims[e]; k++)
               v.d.push_back(random_value<T>(r));
            p = contract(p, v, {});
         }
         a = p;
      } else
         for (auto& x : a.d) {
            if (style == 0 && empty)
               continue; // nothing at all
            if (style == 1 && !r.chance(30))
               continue;
            x = (style == 2 ? Z(double(r.range(-2, 2))) : random_value<T>(r)) * scale;
         }
      return shuffled(r, a);
   };
   long need = 1;
   for (int i = 0; i < M; i++) {
      long a = 1;
      for (int j = 0; j < N; j++)
         a *= i + 1 < M ? down[i][j] : 1;
      need = std::max(need, a);
   }
   for (int j = 0; j < N; j++) {
      long a = 1;
      for (int i = 0; i < M; i++)
         a *= j + 1 < N ? right[i][j] : 1;
      need = std::max(need, a);
   }
   const bool resize = !product && r.chance(30);
   const long cut = product && r.chance(70) ? r.range(1, 2) : resize || r.chance(50) ? 10000 : need;
   std::string log = std::to_string(M) + "x" + std::to_string(N) + (product ? "p" : "") + (cut == need ? "=" : "");
   std::vector<std::unique_ptr<Net>> nets;
   {
      auto n = std::make_unique<Net>(Net{Aux(M, N, cut), Grid(M, std::vector<Arr>(N))});
      Positions all;
      for (int i = 0; i < M; i++)
         for (int j = 0; j < N; j++)
            all.push_back({i, j});
      r.shuffle(all);
      for (auto [i, j] : all) {
         n->g[i][j] = site(i, j);
         n->aux.lattice[i][j]->set(tensor<T>(n->g[i][j]));
      }
      nets.push_back(std::move(n));
   }
   const auto neighbours = bonds(s);
   auto compare = [&](T got, const Grid& g, const std::string& what) {
      const Z want = contract_grid(g).d.at(0);
      const double tol = tolerance(g);
      const double e = std::abs(wide(got) - want);
      mon::require(e <= tol, what + " differs from the contraction of the current tensors by " + text(e) + " (value " + text(std::abs(want)) + ", allowed " + text(tol) + ") " + log);
      mon::count("contractions compared");
      if (std::abs(want) > 1e3 * tol)
         mon::count("contractions well above rounding");
   };
   const int ops = r.range(3, 25);
   for (int op = 0; op < ops; op++) {
      const std::size_t which = r.range(0, int(nets.size()) - 1);
      auto& n = *nets[which];
      const int what = r.range(0, 13);
      const int i = r.range(0, M - 1), j = r.range(0, N - 1);
      const char hint = " hv"[r.range(0, 2)];
      auto where = text(Positions{{i, j}});
      if (what <= 2) {
         n.g[i][j] = site(i, j);
         n.aux.lattice[i][j]->set(tensor<T>(n.g[i][j]));
         log += "s";
      } else if (what == 3) {
         compare(n.aux(std::map<Pos, square::Tensor<T>>(), hint), n.g, "contraction");
         log += "f";
      } else if (what <= 5) {
         auto g = n.g;
         g[i][j] = site(i, j);
         compare(n.aux({{{i, j}, tensor<T>(g[i][j])}}, hint), g, "contraction with the tensor at " + where + " replaced, hint '" + hint + "',");
         log += "1";
      } else if (what <= 8 && !neighbours.empty()) {
         auto p = r.pick(neighbours);
         auto g = n.g;
         std::map<Pos, square::Tensor<T>> m;
         for (auto [x, y] : p) {
            g[x][y] = site(x, y);
            m.emplace(Pos{x, y}, tensor<T>(g[x][y]));
         }
         compare(n.aux(m, hint), g, "contraction with the tensors at " + text(p) + " replaced");
         log += "2";
      } else if (what <= 10) {
         square::Tensor<T> hole = n.aux({Pos{i, j}}, hint);
         // the hole tensor contracted with any tensor is the network with this tensor
         Grid g = n.g;
         Arr probe; // identity from the legs of the site to the legs of the hole
         for (auto& e : n.g[i][j].names) {
            const long dim = n.g[i][j].dim(e);
            Arr id;
            id.names = {e, e + "0"};
            id.dims = {dim, dim};
            id.d.assign(dim * dim, 0);
            for (long k = 0; k < dim; k++)
               id.d[k * dim + k] = 1;
            probe = contract(probe, id, {});
         }
         g[i][j] = probe;
         auto want = contract_grid(g);
         auto got = arr(hole);
         auto names = want.names, found = got.names;
         std::sort(names.begin(), names.end());
         std::sort(found.begin(), found.end());
         mon::require(names == found, "hole at " + where + " has other edges than the removed tensor");
         auto b = got.order(want.names);
         mon::require(b.dims == want.dims, "hole at " + where + " has other dimensions than the removed tensor");
         const double tol = tolerance(g);
         for (std::size_t k = 0; k < want.d.size(); k++)
            mon::require(std::abs(b.d[k] - want.d[k]) <= tol, "hole at " + where + ", hint '" + hint + "', differs from the contraction of the other tensors by " + text(std::abs(b.d[k] - want.d[k])) + " (allowed " + text(tol) + ") " + log);
         mon::count("holes compared");
         log += "h";
      } else if (what == 11) {
         if (nets.size() < 4) {
            auto k = std::make_unique<Net>(Net{Aux(n.aux), n.g});
            nets.push_back(std::move(k));
            log += "c";
         } else if (r.chance(50)) {
            auto& o = *nets[r.range(0, int(nets.size()) - 1)];
            o.aux = n.aux;
            o.g = n.g;
            log += "a";
         } else {
            nets.erase(nets.begin() + which);
            log += "d";
         }
      } else if (what == 12 && resize && !neighbours.empty()) {
         // another bond dimension: both tensors at its ends are exchanged in all networks
         auto p = r.pick(neighbours);
         auto [x, y] = p[0];
         (std::get<0>(p[1]) > x ? down : right)[x][y] = r.range(1, most);
         for (auto& k : nets)
            for (auto [a, b] : p) {
               k->g[a][b] = site(a, b);
               k->aux.lattice[a][b]->set(tensor<T>(k->g[a][b]));
            }
         log += "r";
      } else if (what == 13) {
         if (r.chance(50) && M * N > 2) { // moving leaves a complete system behind it
            Aux moved(std::move(n.aux));
            n.aux = std::move(moved);
            log += "m";
         } else {
            // what is not supported is refused and leaves everything as it was
            auto p = random_sites(r, s, std::min(M * N, 3));
            if (p.size() == 3) {
               std::map<Pos, square::Tensor<T>> m;
               for (auto [x, y] : p)
                  m.emplace(Pos{x, y}, tensor<T>(n.g[x][y]));
               try {
                  compare(n.aux(m, hint), n.g, "contraction with three tensors replaced");
               } catch (const square::NotImplementedError&) {
                  mon::count("refused replacements");
               }
               log += "x";
            }
         }
      }
   }
   // the cached pieces agree with the current tensors wherever one looks
   for (auto& n : nets)
      compare(n->aux(std::map<Pos, square::Tensor<T>>()), n->g, "final contraction");
   if (M * N > 1)
      mon::nontrivial(log);
   mon::sample(log);
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, body);
}
