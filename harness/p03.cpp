// P03: edge operations against the element-wise model.
#include "edgeop.hpp"
using namespace gen;

static void same(const RT& want, const Tensor& got, const std::string& what) {
   expect(want, got, 0, what);
   mon::observe(want.d.size());
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.unique = true;
      o.rank_max = 5;
      o.max_elements = 600;
      if (r.chance(12)) { // many small edges
         o.rank_max = 8;
         o.dim_max = r.range(1, 2);
         o.charges_max = 2;
      }
      if (is_fermi && r.chance(1)) { // large quantum numbers of both signs, merged in an order in which every sum stays small
         const long rank = r.range(3, 8), big = r.range(20000, 32767);
         RT t{fresh(rank, "e", nullptr), {}, {}};
         const bool arrow = r.chance(50);
         Q sum;
         for (long i = 0; i < rank; i++) {
            Q q;
            q.f = i + 1 == rank ? -sum.f : i % 2 ? -big : big;
            sum = sum + q;
            REdge e;
            e.arrow = arrow;
            e.dims[q] = r.range(1, 2);
            t.edges.push_back(e);
         }
         t.d.assign(ref::product(t.shape()), 0);
         fill(r, t, o);
         const long from = r.range(0, rank - 2), to = r.range(from + 2, rank);
         ref::EdgeOp op;
         op.apply_parity = r.chance(70);
         op.merge["m"] = Names(t.names.begin() + from, t.names.begin() + to);
         op.result = t.names;
         op.result.erase(op.result.begin() + from + 1, op.result.begin() + to);
         op.result[from] = "m";
         std::string what = config_name() + " merge of large quantum numbers " + ref::describe(t) + " " + str(op);
         mon::describe(what);
         const Tensor M = make_tensor(t).merge_edge(merge_map(op.merge), op.apply_parity);
         same(ref::edge_operator(t, op, is_fermi), M, "merge_edge");
         std::map<std::string, std::vector<std::pair<std::string, REdge>>> split;
         for (auto& n : op.merge["m"])
            split["m"].push_back({n, t.edges[t.index(n)]});
         same(t, M.split_edge(split_map(split), op.apply_parity), "merge_edge and split_edge back");
         mon::nontrivial(what);
         mon::count("large quantum numbers");
         return;
      }
      const int kind = r.range(0, 9);
      if (kind < 6) {
         auto k = op_case(r, o);
         std::string what = config_name() + " edge_operator " + ref::describe(k.t) + " " + str(k.op);
         mon::describe(what);
         const Tensor T = make_tensor(k.t);
         const auto before = image(T);
         auto want = ref::edge_operator(k.t, k.op, is_fermi);
         same(want, run_op(T, k.op), "edge_operator");
         mon::require(image(T) == before, "edge_operator changed its operand");
         if (k.t.d.size() > 1) {
            mon::nontrivial(what);
            mon::sample(what);
         }
         mon::count("with split", !k.op.split.empty());
         mon::count("with merge", !k.op.merge.empty());
         mon::count("with cut", !k.op.cut.empty());
         mon::count("with reverse", !k.op.reversed.empty());
         return;
      }
      RT t = tensor(r, o);
      const Tensor T = make_tensor(t);
      const auto before = image(T);
      bool parity = r.chance(50);
      std::set<std::string> ex1, ex2;
      for (auto& n : t.names) {
         if (r.chance(40))
            ex1.insert(n);
         if (r.chance(40))
            ex2.insert(n);
      }
      if (kind == 6) { // rename and reverse
         std::map<std::string, std::string> m;
         for (auto& n : t.names)
            if (r.chance(60))
               m[n] = "new_" + n;
         mon::describe(config_name() + " edge_rename " + ref::describe(t));
         same(ref::rename(t, m), T.edge_rename(rename_map(m)), "edge_rename");
         std::set<std::string> rev, sig;
         for (auto& n : t.names)
            if (r.chance(50)) {
               rev.insert(n);
               if (parity != bool(ex1.count(n)))
                  sig.insert(n);
            }
         std::string what = config_name() + " reverse_edge " + ref::describe(t) + " of " + ref::str(Names(rev.begin(), rev.end())) + " signs " +
                            ref::str(Names(sig.begin(), sig.end()));
         mon::describe(what);
         RT want = is_fermi ? ref::reverse(t, rev, sig) : t;
         same(want, T.reverse_edge(name_set(rev), parity, name_set(ex1)), "reverse_edge");
         // twice with the sign gives the sign squared
         same(t, T.reverse_edge(name_set(rev), parity, name_set(ex1)).reverse_edge(name_set(rev), parity, name_set(ex1)), "reverse_edge twice");
         mon::nontrivial(what);
      } else if (kind < 9) { // merge_edge
         Names pool = t.names;
         r.shuffle(pool);
         std::map<std::string, Names> merge;
         long groups = r.range(0, 2);
         std::size_t at = 0;
         for (long g = 0; g < groups; g++) {
            long n = g == 0 && r.chance(15) ? 0 : std::min<long>(pool.size() - at, r.chance(20) ? r.range(4, 6) : r.range(1, 3));
            if (n == 0 && g != 0) // the place of several empty groups among each other is not specified
               break;
            Names part(pool.begin() + at, pool.begin() + at + n);
            at += n;
            merge["m" + std::to_string(g)] = part;
         }
         auto asked = merge;
         for (auto& [n, v] : asked) // unknown names are ignored
            if (r.chance(15))
               v.insert(v.begin() + r.range(0, v.size()), "absent_" + n);
         // the merged edge takes the place of the last edge listed; empty groups come first
         ref::EdgeOp op;
         op.apply_parity = parity;
         op.merge = merge;
         for (auto& n : t.names) {
            bool found = false;
            for (auto& [m, v] : merge)
               if (std::find(v.begin(), v.end(), n) != v.end()) {
                  found = true;
                  if (v.back() == n)
                     op.result.push_back(m);
               }
            if (!found)
               op.result.push_back(n);
         }
         for (auto& [m, v] : merge)
            if (v.empty())
               op.result.insert(op.result.begin(), m);
         std::set<std::string> exm = ex1;
         for (auto& [m, v] : merge)
            if (r.chance(50))
               exm.insert(m);
         op.exclude[3] = exm;
         op.exclude[2] = ex2;
         std::string what = config_name() + " merge_edge " + ref::describe(t) + " " + str(op);
         mon::describe(what);
         RT want = ref::edge_operator(t, op, is_fermi);
         const Tensor M = T.merge_edge(merge_map(asked), parity, name_set(exm), name_set(ex2));
         same(want, M, "merge_edge");
         mon::nontrivial(what);
         mon::sample(what);
         // split back: the same tensor up to order, provided the merged edges' arrows agree
         bool uniform = true;
         std::map<std::string, std::vector<std::pair<std::string, REdge>>> split;
         for (auto& [m, v] : merge) {
            int dir = -1;
            auto& parts = split[m];
            for (auto& n : v) {
               auto& e = t.edges[t.index(n)];
               parts.push_back({n, e});
               if (is_fermi && e.arrow_matters()) {
                  if (dir >= 0 && dir != e.arrow)
                     uniform = false;
                  dir = e.arrow;
               }
            }
         }
         if (uniform) {
            const auto Mimage = image(M);
            Tensor S = M.split_edge(split_map(split), parity, name_set(exm));
            same(t, S.transpose(names_of(t.names)), "merge_edge, split_edge and transpose back");
            mon::require(image(M) == Mimage, "split_edge changed its operand");
            mon::count("merge and split back");
         }
      } else { // split_edge
         OpCase k;
         do
            k = op_case(r, o, false);
         while (k.op.split.empty());
         ref::EdgeOp op;
         op.apply_parity = parity;
         for (auto& [n, parts] : k.op.split) {
            std::string orig = n;
            for (auto& [a, b] : k.op.rename)
               if (b == n)
                  orig = a;
            auto p = parts;
            for (std::size_t i = 0; i < p.size(); i++)
               p[i].first = orig + "_" + std::to_string(i);
            op.split[orig] = p;
         }
         for (auto& n : k.t.names) {
            if (auto f = op.split.find(n); f != op.split.end())
               for (auto& [x, e] : f->second)
                  op.result.push_back(x);
            else
               op.result.push_back(n);
            if (r.chance(50))
               op.exclude[0].insert(n);
         }
         std::string what = config_name() + " split_edge " + ref::describe(k.t) + " " + str(op);
         mon::describe(what);
         auto asked = op.split;
         if (r.chance(20))
            asked["absent"] = {{"nothing", trivial_edge()}};
         Tensor A = make_tensor(k.t);
         same(ref::edge_operator(k.t, op, is_fermi), A.split_edge(split_map(asked), parity, name_set(op.exclude[0])), "split_edge");
         mon::nontrivial(what);
      }
      mon::require(image(T) == before, "the operand was changed");
   });
}
