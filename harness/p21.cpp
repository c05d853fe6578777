// P21: invalid requests raise an exception and leave everything intact.
#include "edgeop.hpp"
using namespace gen;
using Point = typename Tensor::EdgePoint;
using PointArrow = typename Tensor::EdgePointWithArrow;
template<class P = Point>
static P point(const Q& q, long i) {
   if constexpr (is_no)
      return P(i);
   else
      return P(sym(q), i);
}
template<class P = PointArrow>
static P point_arrow(bool arrow, const Q& q, long i, long d) {
   if constexpr (is_no)
      return P(i, d);
   else if constexpr (is_fermi)
      return P(arrow, sym(q), i, d);
   else
      return P(sym(q), i, d);
}
static std::set<std::tuple<Name, Name>> pairs_of(std::initializer_list<std::pair<std::string, std::string>> l) {
   std::set<std::tuple<Name, Name>> s;
   for (auto& [a, b] : l)
      s.insert({Name(a), Name(b)});
   return s;
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.rank_min = 2;
      o.rank_max = 4;
      o.max_elements = 200;
      o.zero_dim = 0;
      o.unbalanced = 0;
      RT t;
      do
         t = tensor(r, o);
      while (t.rank() < 2 || t.d.size() < 2 || ref::max_abs(t) == 0);
      const std::string n0 = t.names[0], n1 = t.names[1], last = t.names.back();
      Tensor A = make_tensor(t); // not const: some requests ask for a change
      const Tensor shared = A;
      Tensor B; // a second operand, if any
      const int kind = r.range(0, 31);
      std::string what;
      std::function<void()> f;
      bool applies = true;
      // another dimension for one quantum number or for all, larger or smaller
      auto alter = [&](REdge& e) {
         const long only = r.chance(50) ? r.range(0, e.dims.size() - 1) : -1;
         long i = 0;
         for (auto& [q, d] : e.dims)
            if (const long here = i++; only < 0 || only == here)
               d += d > 1 && r.chance(50) ? -1 : 1;
      };
      auto wrong_dim = [&](REdge e) {
         e = ref::conj_edge(e);
         alter(e);
         return e;
      };
      // an edge that closes the given one, to give the second operand a block for every quantum number
      auto second = [&](const REdge& e, const std::string& n) {
         REdge other = ref::conj_edge(e);
         return make_tensor(with_edges(r, r.chance(50) ? Names{n, "z"} : Names{n, "z"}, {e, other}, o));
      };
      switch (kind) {
         case 0: {
            what = "too few or too many names at construction";
            Names v = t.names;
            if (r.chance(50))
               v.pop_back();
            else
               v.push_back("more");
            std::vector<Edge> e;
            for (auto& x : t.edges)
               e.push_back(make_edge(x));
            f = [=] { Tensor x(names_of(v), e); };
            break;
         }
         case 1: {
            what = "duplicate names at construction";
            Names v = t.names;
            v[r.range(1, v.size() - 1)] = v[0];
            std::vector<Edge> e;
            for (auto& x : t.edges)
               e.push_back(make_edge(x));
            f = [=] { Tensor x(names_of(v), e); };
            break;
         }
         case 2: {
            what = "transposing to names with one missing";
            Names v = t.names;
            r.shuffle(v);
            v.pop_back();
            f = [&A, v] { A.transpose(names_of(v)); };
            break;
         }
         case 3: {
            what = "transposing to an unknown name";
            Names v = t.names;
            v[r.range(0, v.size() - 1)] = "unknown";
            f = [&A, v] { A.transpose(names_of(v)); };
            break;
         }
         case 4: {
            what = "transposing to duplicate names";
            Names v = t.names;
            v[0] = v[1];
            f = [&A, v] { A.transpose(names_of(v)); };
            break;
         }
         case 5: {
            what = "transposing to more names than edges";
            Names v = t.names;
            v.push_back("more");
            f = [&A, v] { A.transpose(names_of(v)); };
            break;
         }
         case 6: {
            what = "contracting edges of different dimensions";
            const bool swapped = r.chance(50), two = r.chance(50);
            if (two) { // one of the two pairs is fine
               RT b = with_edges(r, {"p", "q", "y", "z"}, {wrong_dim(t.edges[0]), ref::conj_edge(t.edges[1]), t.edges[0], t.edges[1]}, o);
               if (b.d.size() > 5000) {
                  applies = false;
                  break;
               }
               B = make_tensor(b);
            } else
               B = second(wrong_dim(t.edges[0]), "p");
            f = [&, swapped, two] {
               if (two && swapped)
                  (void)B.contract(A, pairs_of({{"p", n0}, {"q", n1}}));
               else if (two)
                  (void)A.contract(B, pairs_of({{n0, "p"}, {n1, "q"}}));
               else if (swapped)
                  (void)B.contract(A, pairs_of({{"p", n0}}));
               else
                  (void)A.contract(B, pairs_of({{n0, "p"}}));
            };
            break;
         }
         case 7: {
            what = "contracting edges whose arrows agree";
            if (!is_fermi) {
               applies = false;
               break;
            }
            REdge e = ref::conj_edge(t.edges[0]);
            e.arrow = t.edges[0].arrow;
            B = second(e, "p");
            const bool swapped = r.chance(50);
            f = [&, swapped] {
               if (swapped)
                  (void)B.contract(A, pairs_of({{"p", n0}}));
               else
                  (void)A.contract(B, pairs_of({{n0, "p"}}));
            };
            break;
         }
         case 8: {
            what = "contracting one edge twice";
            RT b = with_edges(r, {"p", "q", "y", "z"}, {ref::conj_edge(t.edges[0]), ref::conj_edge(t.edges[0]), t.edges[0], t.edges[0]}, o);
            if (b.d.size() > 5000) {
               applies = false;
               break;
            }
            B = make_tensor(b);
            const bool swapped = r.chance(50);
            f = [&, swapped] {
               if (swapped)
                  (void)B.contract(A, pairs_of({{"p", n0}, {"q", n0}}));
               else
                  (void)A.contract(B, pairs_of({{n0, "p"}, {n0, "q"}}));
            };
            break;
         }
         case 9: {
            what = "contracting to a result with duplicate names";
            if (is_no) {
               applies = false; // such edges are kept once
               break;
            }
            RT b = with_edges(r, {"p", n1, "z"}, {ref::conj_edge(t.edges[0]), t.edges[0], edge(r, o)}, o);
            if (b.d.empty()) {
               applies = false;
               break;
            }
            B = make_tensor(b);
            f = [&] { A.contract(B, pairs_of({{n0, "p"}})); };
            break;
         }
         case 10: {
            what = "elementwise operation on tensors of different rank";
            Names v(t.names.begin() + 1, t.names.end());
            std::vector<REdge> e(t.edges.begin() + 1, t.edges.end());
            B = make_tensor(with_edges(r, v, e, o));
            const int op = r.range(0, 4);
            f = [&, op] {
               if (op == 0)
                  (void)(A + B);
               else if (op == 1)
                  (void)(B - A);
               else if (op == 2)
                  (void)(A * B);
               else if (op == 3)
                  (void)(A / B);
               else
                  A += B;
            };
            break;
         }
         case 11: {
            what = "elementwise operation on tensors of different dimensions";
            std::vector<REdge> e = t.edges;
            alter(e[r.range(0, e.size() - 1)]);
            B = make_tensor(with_edges(r, t.names, e, o));
            const int op = r.range(0, 3);
            const bool swapped = r.chance(50);
            f = [&, op, swapped] {
               const Tensor &x = swapped ? B : A, &y = swapped ? A : B;
               if (op == 0)
                  (void)(x + y);
               else if (op == 1)
                  (void)(x - y);
               else if (op == 2)
                  (void)(x * y);
               else
                  (void)(x / y);
            };
            break;
         }
         case 12: {
            what = "elementwise operation on tensors with other names";
            Names v = t.names;
            v[0] = "unknown";
            B = make_tensor(with_edges(r, v, t.edges, o));
            const bool inplace = r.chance(50);
            f = [&, inplace] {
               if (inplace)
                  A -= B;
               else
                  (void)(A + B);
            };
            break;
         }
         case 13: {
            what = "in-place operation on tensors of different shape";
            std::vector<REdge> e = t.edges;
            auto& x = e[r.range(0, e.size() - 1)];
            if (is_no || r.chance(50)) {
               alter(x);
            } else {
               if (x.dims.size() < 2) {
                  applies = false;
                  break;
               }
               x.dims.erase(x.dims.begin());
            }
            B = make_tensor(with_edges(r, t.names, e, o));
            const int op = r.range(0, 3);
            f = [&, op] {
               if (op == 0)
                  A += B;
               else if (op == 1)
                  A -= B;
               else if (op == 2)
                  A *= B;
               else
                  A /= B;
            };
            break;
         }
         case 14:
            what = "taking a number from a larger tensor";
            if (A.is_scalar())
               applies = false;
            f = [&] { (void)Scalar(A); };
            break;
         case 15: {
            what = "reading or writing an element with a coordinate missing";
            auto pos = ref::positions(t);
            std::map<Name, Point> p;
            for (std::size_t i = 1; i < t.rank(); i++)
               p[Name(t.names[i])] = point(pos[i][0].first, 0);
            if (r.chance(50))
               p[Name("unknown")] = point(pos[0][0].first, 0);
            const bool w = r.chance(50);
            f = [&A, p, w] {
               if (w)
                  A.at(p) = 77;
               else
                  (void)A.const_at(p);
            };
            break;
         }
         case 16: {
            what = "asking for a block with a quantum number missing";
            if (is_no) {
               applies = false;
               break;
            }
            auto pos = ref::positions(t);
            std::map<Name, Sym> p;
            for (std::size_t i = 1; i < t.rank(); i++)
               p[Name(t.names[i])] = sym(pos[i][0].first);
            const bool w = r.chance(50);
            f = [&A, p, w] {
               if (w)
                  A.block(p)[0] = 77;
               else
                  (void)A.const_block(p);
            };
            break;
         }
         case 17: {
            what = "asking for a block that does not conserve the charge";
            if (is_no) {
               applies = false;
               break;
            }
            auto pos = ref::positions(t);
            std::map<Name, Sym> p;
            Q s;
            for (std::size_t i = 0; i < t.rank(); i++) {
               Q q = r.pick(pos[i]).first;
               s = s + q;
               p[Name(t.names[i])] = sym(q);
            }
            if (s == Q())
               applies = false;
            const bool w = r.chance(50);
            f = [&A, p, w] {
               if (w)
                  A.block(p)[0] = 77;
               else
                  (void)A.const_block(p);
            };
            break;
         }
         case 18:
            what = "QR with an invalid direction";
            f = [&] { (void)A.qr(r.chance(50) ? 'x' : 'U', std::set<Name>{Name(n0)}, Name("a"), Name("b")); };
            break;
         case 19: {
            what = "multiplying by singular values with an invalid direction";
            auto s = A.svd(std::set<Name>{Name(n0)}, Name("cu"), Name("cv"));
            B = s.U;
            f = [&B, s] { (void)B.multiple(s.S, Name("cu"), 'q'); };
            break;
         }
         case 20: {
            what = "multiplying by singular values of another size";
            auto s = A.svd(std::set<Name>{Name(n0)}, Name("cu"), Name("cv"));
            B = s.U;
            auto S = s.S;
            const long only = r.chance(50) && !S.value.empty() ? r.range(0, S.value.size() - 1) : -1;
            long i = 0;
            for (auto& [q, v] : S.value)
               if (const long here = i++; only < 0 || only == here)
                  v.resize(v.size() + (v.size() > 1 && r.chance(50) ? -1 : 1));
            f = [&B, S] { (void)B.multiple(S, Name("cu"), 'u'); };
            break;
         }
         case 21: {
            what = "expanding an edge that is wider than one";
            std::size_t w = 0;
            while (w < t.rank() && t.edges[w].total() == 1)
               w++;
            if (w == t.rank()) {
               applies = false;
               break;
            }
            Q q = t.edges[w].dims.begin()->first;
            std::map<Name, PointArrow> conf{{Name("fresh"), point_arrow(false, q, 0, 2)}};
            std::string old = t.names[w];
            f = [&A, conf, old] { (void)A.expand(conf, Name(old)); };
            break;
         }
         case 22: {
            what = "expanding with a charge that does not cancel";
            if (is_no) {
               applies = false;
               break;
            }
            Q q = charge(r);
            if (q == Q()) {
               applies = false;
               break;
            }
            std::map<Name, PointArrow> conf{{Name("fresh"), point_arrow(false, q, 0, 2)}};
            f = [&A, conf] { (void)A.expand(conf); };
            break;
         }
         case 23: {
            what = "expanding an edge with another charge";
            if (is_no) {
               applies = false;
               break;
            }
            Q a = charge(r), b = charge(r);
            if (a == b) {
               applies = false;
               break;
            }
            REdge e;
            e.dims[a] = 1;
            REdge close;
            close.dims[-a] = 2;
            B = make_tensor(with_edges(r, {"old", "rest"}, {e, close}, o));
            std::map<Name, PointArrow> conf{{Name("fresh"), point_arrow(false, b, 0, 2)}};
            f = [&B, conf] { (void)B.expand(conf, Name("old")); };
            break;
         }
         case 24: {
            what = "expanding an edge that does not exist";
            std::map<Name, PointArrow> conf{{Name("fresh"), point_arrow(false, Q(), 0, 2)}};
            f = [&A, conf] { (void)A.expand(conf, Name("unknown")); };
            break;
         }
         case 25: {
            what = "fixing coordinates that carry a charge without naming a new edge";
            if (is_no) {
               applies = false;
               break;
            }
            auto pos = ref::positions(t);
            std::map<Name, Point> conf;
            Q total;
            for (long k = 0; k < r.range(1, t.rank()); k++) {
               auto [q, i] = r.pick(pos[k]);
               total = total + q;
               conf[Name(t.names[k])] = point(q, i);
            }
            if (total == Q()) {
               applies = false;
               break;
            }
            f = [&A, conf] { (void)A.shrink(conf); };
            break;
         }
         case 26: {
            what = "fixing a quantum number the edge does not have";
            if (is_no) {
               applies = false;
               break;
            }
            Q q = charge(r);
            if (t.edges[0].dims.count(q)) {
               applies = false;
               break;
            }
            std::map<Name, Point> conf{{Name(n0), point(q, 0)}};
            f = [&A, conf] { (void)A.shrink(conf, Name("fresh")); };
            break;
         }
         case 27: {
            what = "tracing edges of different dimensions";
            REdge e = t.edges[0], w = wrong_dim(e);
            B = make_tensor(with_edges(r, {"p", "q"}, {e, w}, o));
            const bool swapped = r.chance(50);
            f = [&, swapped] { (void)B.trace(swapped ? pairs_of({{"q", "p"}}) : pairs_of({{"p", "q"}})); };
            break;
         }
         case 28: {
            what = "renaming two edges to one name";
            std::map<Name, Name> m;
            if (r.chance(50))
               m[Name(n0)] = Name(n1);
            else
               m[Name(n0)] = m[Name(n1)] = Name("same");
            const bool general = r.chance(50);
            Names v = t.names;
            for (auto& n : v)
               if (auto k = m.find(Name(n)); k != m.end())
                  n = name_str(k->second);
            f = [&A, m, general, v] {
               if (general)
                  (void)A.edge_operator(m, std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>>{}, std::set<Name>{}, std::map<Name, std::vector<Name>>{}, names_of(v));
               else
                  (void)A.edge_rename(m);
            };
            break;
         }
         case 29: {
            what = "merging an edge that does not exist";
            std::string n = r.chance(50) ? n0 : "unknown";
            f = [&A, n, n0] {
               (void)A.edge_operator(
                     std::map<Name, Name>{}, std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>>{}, std::set<Name>{},
                     std::map<Name, std::vector<Name>>{{Name("m"), {Name(n0), Name("unknown")}}}, std::vector<Name>{Name("m")});
            };
            break;
         }
         case 30: {
            what = "decomposing with a new name that is taken";
            std::string u = n0, taken = n0;
            const bool svd = r.chance(50);
            f = [&A, u, taken, svd] {
               if (svd)
                  (void)A.svd(std::set<Name>{Name(u)}, Name(taken), Name("cv"));
               else
                  (void)A.qr('Q', std::set<Name>{Name(u)}, Name(taken), Name("cv"));
            };
            break;
         }
         default: {
            what = "keeping edges of different dimensions in a contraction";
            if (!is_no) {
               applies = false;
               break;
            }
            REdge e = t.edges[0];
            alter(e);
            B = make_tensor(with_edges(r, {n0, "z"}, {e, edge(r, o)}, o));
            const bool swapped = r.chance(50);
            f = [&, swapped] { (void)(swapped ? B.contract(A, pairs_of({})) : A.contract(B, pairs_of({}))); };
         }
      }
      if (!applies) {
         mon::count("not applicable to this symmetry or tensor");
         return;
      }
      mon::describe(config_name() + " " + what + ": " + ref::describe(t));
      const bool private_data = r.chance(50);
      if (private_data)
         A = A.copy();
      const auto ia = image(A), is = image(shared), ib = image(B);
      auto probe = [&] {
         Names v = t.names;
         std::reverse(v.begin(), v.end());
         std::string p = image(A.transpose(names_of(v))) + image(A.contract_all_edge(A.conjugate())) + image(A.svd(std::set<Name>{Name(n0)}, Name("pu"), Name("pv"), 2).U);
         return p;
      };
      const auto before = probe();
      bool refused = false;
      std::string message;
      try {
         f();
      } catch (const std::exception& e) {
         refused = true;
         message = e.what();
      }
      mon::require(refused, "not refused: " + what);
      mon::require(!message.empty(), "refused without a message: " + what);
      mon::require(image(A) == ia && image(shared) == is && image(B) == ib, "an operand was changed by a refused request: " + what);
      mon::require(TAT::pmr::get_default_resource() == &TAT::pmr::new_delete_resource_object, "[P20] working memory was not restored after a refused request: " + what);
      mon::require(probe() == before, "later operations are affected by a refused request: " + what);
      mon::nontrivial(config_name() + what + ref::describe(t));
      mon::count("refused: " + what);
      mon::sample(config_name() + " " + what + " -> " + message);
   });
}
