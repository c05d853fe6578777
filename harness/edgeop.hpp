// Random edge operations and their translation to library calls.
#pragma once
#include "gen.hpp"

namespace gen {
   struct OpCase {
      RT t;
      ref::EdgeOp op;
   };
   inline REdge trivial_edge() {
      REdge e;
      e.dims[Q()] = 1;
      return e;
   }
   // an edge made by fusing parts, so that it can be split into them
   inline REdge fused_edge(Rng& r, const Opt& o, std::vector<REdge>& parts, long n) {
      parts.clear();
      Opt p = o;
      p.dim_max = std::min(o.dim_max, 2);
      p.charges_max = std::min(o.charges_max, 2);
      bool arrow = is_fermi && r.chance(50);
      for (long i = 0; i < n; i++) {
         parts.push_back(edge(r, p));
         parts.back().arrow = arrow;
      }
      if (n == 0) {
         REdge e = trivial_edge();
         e.arrow = arrow;
         return e;
      }
      return ref::fuse(parts, arrow).whole;
   }
   inline OpCase op_case(Rng& r, const Opt& o, bool allow_cut = true) {
      OpCase c;
      for (;;) {
         c = OpCase();
         long rank = r.range(0, o.rank_max);
         std::vector<REdge> e(rank);
         std::vector<std::vector<REdge>> parts(rank);
         std::vector<bool> splits(rank, false);
         long closing = rank && !is_no && !r.chance(o.unbalanced) ? r.range(0, rank - 1) : -1;
         for (long i = 0; i < rank; i++) {
            if (i == closing)
               continue;
            if (r.chance(30)) {
               splits[i] = true;
               e[i] = fused_edge(r, o, parts[i], r.chance(10) ? 0 : r.chance(12) ? r.range(4, 5) : r.range(1, 3));
               // parts may ask for quantum numbers the edge lacks (these blocks are zero)
               if (!is_no && r.chance(20) && e[i].dims.size() > 1)
                  e[i].dims.erase(std::next(e[i].dims.begin(), r.range(0, e[i].dims.size() - 1)));
            } else
               e[i] = edge(r, o);
         }
         if (closing >= 0) {
            std::vector<REdge> others;
            for (long i = 0; i < rank; i++)
               if (i != closing)
                  others.push_back(e[i]);
            e[closing] = closing_edge(r, o, others);
         }
         if (!fits(e, o.max_elements))
            continue;
         Names names = fresh(rank, "e", &r);
         c.t = with_edges(r, names, e, o);
         // rename
         Names now = names;
         if (r.chance(50)) {
            if (r.chance(40) && rank > 1) { // cyclic exchange of names
               Names p = names;
               std::rotate(p.begin(), p.begin() + 1, p.end());
               for (long i = 0; i < rank; i++)
                  c.op.rename[names[i]] = p[i];
            } else
               for (long i = 0; i < rank; i++)
                  if (r.chance(50))
                     c.op.rename[names[i]] = "r" + std::to_string(i);
            if (r.chance(20))
               c.op.rename["absent"] = "other";
            for (auto& n : now)
               if (auto f = c.op.rename.find(n); f != c.op.rename.end())
                  n = f->second;
         }
         // cut
         if (allow_cut && r.chance(30))
            for (long i = 0; i < rank; i++)
               if (!splits[i] && r.chance(50))
                  for (auto& [q, d] : c.t.edges[i].dims)
                     if (r.chance(50) && d > 0)
                        c.op.cut[names[i]][q] = r.range(is_no ? 1 : 0, d + 1);
         // split
         Names after;
         double size = 1;
         std::vector<REdge> after_edges;
         for (long i = 0; i < rank; i++) {
            if (splits[i]) {
               auto& v = c.op.split[now[i]];
               for (std::size_t k = 0; k < parts[i].size(); k++) {
                  std::string n = k == 0 && r.chance(30) ? now[i] : "s" + std::to_string(i) + "_" + std::to_string(k);
                  v.push_back({n, parts[i][k]});
                  after.push_back(n);
                  size *= std::max(1l, parts[i][k].total());
               }
            } else {
               after.push_back(now[i]);
               size *= std::max(1l, c.t.edges[i].total());
            }
         }
         if (size > o.max_elements * 4)
            continue;
         // reverse
         if (r.chance(50))
            for (auto& n : after)
               if (r.chance(50))
                  c.op.reversed.insert(n);
         // transpose and merge
         if (!r.chance(20))
            r.shuffle(after);
         std::size_t at = 0;
         const int merging = r.chance(60) ? 60 : 0;
         int m = 0;
         while (at < after.size() || (merging && r.chance(8))) {
            if (r.chance(merging)) {
               long k = std::min<long>(after.size() - at, r.chance(8) ? 0 : r.chance(20) ? r.range(4, 7) : r.range(1, 3));
               std::string n = k && r.chance(30) ? after[at] : "m" + std::to_string(m);
               m++;
               c.op.merge[n] = Names(after.begin() + at, after.begin() + at + k);
               c.op.result.push_back(n);
               at += k;
            } else if (at < after.size()) {
               c.op.result.push_back(after[at]);
               at++;
            }
         }
         std::set<std::string> check(c.op.result.begin(), c.op.result.end());
         if (check.size() != c.op.result.size())
            continue;
         c.op.apply_parity = r.chance(50);
         std::vector<std::string> all(after);
         all.insert(all.end(), now.begin(), now.end());
         all.insert(all.end(), c.op.result.begin(), c.op.result.end());
         for (int k = 0; k < 4; k++)
            if (r.chance(60))
               for (auto& n : all)
                  if (r.chance(40))
                     c.op.exclude[k].insert(n);
         return c;
      }
   }
   inline std::map<Name, Name> rename_map(const std::map<std::string, std::string>& m) {
      std::map<Name, Name> r;
      for (auto& [a, b] : m)
         r[Name(a)] = Name(b);
      return r;
   }
   inline std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>>
   split_map(const std::map<std::string, std::vector<std::pair<std::string, REdge>>>& m) {
      std::map<Name, std::vector<std::tuple<Name, TAT::BoseEdge<Sym>>>> r;
      for (auto& [n, v] : m) {
         auto& x = r[Name(n)];
         for (auto& [k, e] : v) {
            typename TAT::BoseEdge<Sym>::edge_map d;
            for (auto& [q, i] : e.dims)
               d[sym(q)] = i;
            x.push_back({Name(k), TAT::BoseEdge<Sym>(d)});
         }
      }
      return r;
   }
   inline std::map<Name, std::vector<Name>> merge_map(const std::map<std::string, Names>& m) {
      std::map<Name, std::vector<Name>> r;
      for (auto& [n, v] : m)
         r[Name(n)] = names_of(v);
      return r;
   }
   inline std::map<Name, std::map<Sym, TAT::Size>> cut_map(const std::map<std::string, std::map<Q, long>>& m) {
      std::map<Name, std::map<Sym, TAT::Size>> r;
      for (auto& [n, v] : m)
         for (auto& [q, d] : v)
            r[Name(n)][sym(q)] = d;
      return r;
   }
   inline Tensor run_op(const Tensor& t, const ref::EdgeOp& op) {
      std::array<std::set<Name>, 4> exclude;
      for (int i = 0; i < 4; i++)
         exclude[i] = name_set(op.exclude[i]);
      return t.edge_operator(
            rename_map(op.rename), split_map(op.split), name_set(op.reversed), merge_map(op.merge), names_of(op.result), op.apply_parity, exclude, cut_map(op.cut));
   }
   inline std::string str(const ref::EdgeOp& op) {
      std::ostringstream o;
      o << "rename{";
      for (auto& [a, b] : op.rename)
         o << a << ">" << b << " ";
      o << "} cut{";
      for (auto& [a, b] : op.cut) {
         o << a << ":";
         for (auto& [q, d] : b)
            o << ref::str(q) << "=" << d << " ";
      }
      o << "} split{";
      for (auto& [a, b] : op.split) {
         o << a << ":";
         for (auto& [n, e] : b)
            o << n << ref::str(e) << " ";
      }
      o << "} reverse{";
      for (auto& n : op.reversed)
         o << n << " ";
      o << "} merge{";
      for (auto& [a, b] : op.merge)
         o << a << ":" << ref::str(b) << " ";
      o << "} result" << ref::str(op.result) << (op.apply_parity ? " parity" : " noparity");
      for (int k = 0; k < 4; k++) {
         o << " x" << k << "{";
         for (auto& n : op.exclude[k])
            o << n << " ";
         o << "}";
      }
      return o.str();
   }
} // namespace gen
