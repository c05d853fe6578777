// Independent element-wise model of symmetric tensors with named edges.  It shares no code with the library:
// a tensor is a dense array over edge positions, an edge position being (quantum number, index inside it).
#pragma once
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace ref {
   using cplx = std::complex<double>;
   using Names = std::vector<std::string>;

   struct Q {
      int f = 0, u = 0, z = 0;
      bool odd() const {
         return f & 1;
      }
   };
   inline bool operator<(const Q& a, const Q& b) {
      return std::tie(a.f, a.u, a.z) < std::tie(b.f, b.u, b.z);
   }
   inline bool operator==(const Q& a, const Q& b) {
      return std::tie(a.f, a.u, a.z) == std::tie(b.f, b.u, b.z);
   }
   inline bool operator!=(const Q& a, const Q& b) {
      return !(a == b);
   }
   inline Q operator+(const Q& a, const Q& b) {
      return {a.f + b.f, a.u + b.u, a.z ^ b.z};
   }
   inline Q operator-(const Q& a) {
      return {-a.f, -a.u, a.z};
   }
   inline std::string str(const Q& q) {
      std::ostringstream o;
      o << "(" << q.f << "," << q.u << "," << q.z << ")";
      return o.str();
   }

   struct REdge {
      bool arrow = false;
      std::map<Q, long> dims;
      long total() const {
         long r = 0;
         for (auto& [q, d] : dims)
            r += d;
         return r;
      }
      std::vector<std::pair<Q, long>> positions() const {
         std::vector<std::pair<Q, long>> r;
         for (auto& [q, d] : dims)
            for (long i = 0; i < d; i++)
               r.push_back({q, i});
         return r;
      }
      long pos(const Q& q, long i) const {
         long r = 0;
         for (auto& [p, d] : dims) {
            if (p == q)
               return r + i;
            r += d;
         }
         throw std::logic_error("ref: no such quantum number");
      }
      bool arrow_matters() const {
         for (auto& [q, d] : dims)
            if (q.f != 0)
               return true;
         return false;
      }
   };
   inline std::string str(const REdge& e) {
      std::ostringstream o;
      o << (e.arrow ? "+" : "-") << "{";
      for (auto& [q, d] : e.dims)
         o << str(q) << ":" << d << " ";
      o << "}";
      return o.str();
   }
   inline REdge conj_edge(const REdge& e) {
      REdge r;
      r.arrow = !e.arrow;
      for (auto& [q, d] : e.dims)
         r.dims[-q] = d;
      return r;
   }

   struct RT {
      Names names;
      std::vector<REdge> edges;
      std::vector<cplx> d;
      std::size_t rank() const {
         return names.size();
      }
      std::vector<long> shape() const {
         std::vector<long> r;
         for (auto& e : edges)
            r.push_back(e.total());
         return r;
      }
      long index(const std::string& n) const {
         for (std::size_t i = 0; i < names.size(); i++)
            if (names[i] == n)
               return i;
         throw std::logic_error("ref: no edge " + n);
      }
   };
   inline long product(const std::vector<long>& s) {
      long r = 1;
      for (auto i : s)
         r *= i;
      return r;
   }
   inline long flat(const std::vector<long>& shape, const std::vector<long>& idx) {
      long r = 0;
      for (std::size_t i = 0; i < shape.size(); i++)
         r = r * shape[i] + idx[i];
      return r;
   }
   template<class F>
   void each(const std::vector<long>& shape, F&& f) {
      const long n = product(shape);
      std::vector<long> idx(shape.size(), 0);
      for (long k = 0; k < n; k++) {
         f(idx, k);
         for (std::size_t i = shape.size(); i-- > 0;) {
            if (++idx[i] < shape[i])
               break;
            idx[i] = 0;
         }
      }
   }
   using Pos = std::vector<std::vector<std::pair<Q, long>>>;
   inline Pos positions(const RT& t) {
      Pos r;
      for (auto& e : t.edges)
         r.push_back(e.positions());
      return r;
   }
   inline RT empty(const Names& n, const std::vector<REdge>& e) {
      RT r{n, e, {}};
      r.d.assign(product(r.shape()), 0);
      return r;
   }
   // all combinations of quantum numbers with zero total
   inline std::vector<std::vector<Q>> zero_blocks(const std::vector<REdge>& edges) {
      std::vector<std::vector<Q>> r;
      std::vector<Q> cur(edges.size());
      std::function<void(std::size_t, Q)> go = [&](std::size_t i, Q sum) {
         if (i == edges.size()) {
            if (sum == Q())
               r.push_back(cur);
            return;
         }
         for (auto& [q, d] : edges[i].dims) {
            cur[i] = q;
            go(i + 1, sum + q);
         }
      };
      go(0, Q());
      return r;
   }
   // drop the quantum numbers no zero-charge block uses
   inline RT prune(const RT& t) {
      std::vector<std::set<Q>> used(t.rank());
      for (auto& b : zero_blocks(t.edges))
         for (std::size_t i = 0; i < b.size(); i++)
            used[i].insert(b[i]);
      RT r;
      r.names = t.names;
      for (std::size_t i = 0; i < t.rank(); i++) {
         REdge e;
         e.arrow = t.edges[i].arrow;
         for (auto& [q, d] : t.edges[i].dims)
            if (used[i].count(q))
               e.dims[q] = d;
         r.edges.push_back(e);
      }
      auto rs = r.shape(), ts = t.shape();
      r.d.assign(product(rs), 0);
      auto rp = positions(r);
      each(rs, [&](const std::vector<long>& idx, long k) {
         std::vector<long> j(idx.size());
         for (std::size_t i = 0; i < idx.size(); i++)
            j[i] = t.edges[i].pos(rp[i][idx[i]].first, rp[i][idx[i]].second);
         r.d[k] = t.d[flat(ts, j)];
      });
      return r;
   }
   // sign of reordering: perm[i] = position in the source of the i-th factor of the result
   inline int reorder_sign(const std::vector<bool>& odd, const std::vector<long>& perm) {
      int s = 1;
      for (std::size_t i = 0; i < perm.size(); i++)
         for (std::size_t j = i + 1; j < perm.size(); j++)
            if (perm[i] > perm[j] && odd[perm[i]] && odd[perm[j]])
               s = -s;
      return s;
   }
   inline std::vector<bool> odds(const Pos& p, const std::vector<long>& idx) {
      std::vector<bool> r;
      for (std::size_t i = 0; i < idx.size(); i++)
         r.push_back(p[i][idx[i]].first.odd());
      return r;
   }
   inline RT transpose(const RT& t, const Names& order) {
      std::vector<long> perm;
      RT r;
      r.names = order;
      for (auto& n : order) {
         perm.push_back(t.index(n));
         r.edges.push_back(t.edges[perm.back()]);
      }
      auto rs = r.shape(), ts = t.shape();
      r.d.assign(product(rs), 0);
      auto tp = positions(t);
      each(ts, [&](const std::vector<long>& idx, long k) {
         std::vector<long> j;
         for (auto p : perm)
            j.push_back(idx[p]);
         r.d[flat(rs, j)] = t.d[k] * double(reorder_sign(odds(tp, idx), perm));
      });
      return r;
   }
   inline RT rename(RT t, const std::map<std::string, std::string>& m) {
      for (auto& n : t.names)
         if (auto f = m.find(n); f != m.end())
            n = f->second;
      return t;
   }
   inline RT cut(const RT& t, const std::map<std::string, std::map<Q, long>>& c) {
      RT r;
      r.names = t.names;
      for (std::size_t i = 0; i < t.rank(); i++) {
         REdge e;
         e.arrow = t.edges[i].arrow;
         auto f = c.find(t.names[i]);
         for (auto& [q, d] : t.edges[i].dims) {
            long n = d;
            if (f != c.end())
               if (auto g = f->second.find(q); g != f->second.end())
                  n = std::min(d, g->second);
            if (n != 0 || d == 0)
               e.dims[q] = n;
         }
         r.edges.push_back(e);
      }
      auto rs = r.shape(), ts = t.shape();
      r.d.assign(product(rs), 0);
      auto rp = positions(r);
      each(rs, [&](const std::vector<long>& idx, long k) {
         std::vector<long> j(idx.size());
         for (std::size_t i = 0; i < idx.size(); i++)
            j[i] = t.edges[i].pos(rp[i][idx[i]].first, rp[i][idx[i]].second);
         r.d[k] = t.d[flat(ts, j)];
      });
      return r;
   }
   // layout of a merged edge: positions of the parts -> position of the whole
   struct Fusion {
      REdge whole;
      std::map<std::vector<long>, std::pair<Q, long>> at; // positions of parts -> (charge, index)
   };
   inline Fusion fuse(const std::vector<REdge>& parts, bool arrow) {
      Fusion r;
      r.whole.arrow = arrow;
      std::vector<Q> cur(parts.size());
      std::function<void(std::size_t, Q)> go = [&](std::size_t i, Q sum) {
         if (i == parts.size()) {
            std::vector<long> dims;
            for (std::size_t k = 0; k < parts.size(); k++)
               dims.push_back(parts[k].dims.at(cur[k]));
            long& offset = r.whole.dims[sum];
            each(dims, [&](const std::vector<long>& idx, long k) {
               std::vector<long> p;
               for (std::size_t a = 0; a < idx.size(); a++)
                  p.push_back(parts[a].pos(cur[a], idx[a]));
               r.at[p] = {sum, offset + k};
            });
            offset += product(dims);
            return;
         }
         for (auto& [q, d] : parts[i].dims) {
            cur[i] = q;
            go(i + 1, sum + q);
         }
      };
      go(0, Q());
      return r;
   }
   inline int pair_sign(const std::vector<bool>& odd) {
      int n = 0;
      for (bool o : odd)
         n += o;
      return (n * (n - 1) / 2) % 2 ? -1 : 1;
   }
   inline RT reverse(const RT& t, const std::set<std::string>& names, const std::set<std::string>& signed_names) {
      RT r = t;
      auto tp = positions(t);
      for (std::size_t i = 0; i < t.rank(); i++)
         if (names.count(t.names[i]))
            r.edges[i].arrow ^= true;
      each(t.shape(), [&](const std::vector<long>& idx, long k) {
         for (std::size_t i = 0; i < idx.size(); i++)
            if (names.count(t.names[i]) && signed_names.count(t.names[i]) && tp[i][idx[i]].first.odd())
               r.d[k] = -r.d[k];
      });
      return r;
   }
   // split one edge into parts; positions of the whole that no combination of parts reaches are lost
   inline RT split(const RT& t, const std::string& name, const std::vector<std::pair<std::string, REdge>>& parts, bool with_sign) {
      const long at = t.index(name);
      RT r;
      std::vector<REdge> pe;
      for (auto& [n, e] : parts) {
         pe.push_back(e);
         pe.back().arrow = t.edges[at].arrow;
      }
      Fusion f = fuse(pe, t.edges[at].arrow);
      for (long i = 0; i < (long)t.rank(); i++) {
         if (i == at) {
            for (std::size_t k = 0; k < parts.size(); k++) {
               r.names.push_back(parts[k].first);
               r.edges.push_back(pe[k]);
            }
         } else {
            r.names.push_back(t.names[i]);
            r.edges.push_back(t.edges[i]);
         }
      }
      auto rs = r.shape(), ts = t.shape();
      r.d.assign(product(rs), 0);
      auto rp = positions(r);
      each(rs, [&](const std::vector<long>& idx, long k) {
         std::vector<long> part(idx.begin() + at, idx.begin() + at + parts.size());
         auto [q, i] = f.at.at(part);
         auto dim = t.edges[at].dims.find(q);
         if (dim == t.edges[at].dims.end() || i >= dim->second)
            return;
         std::vector<long> j(idx.begin(), idx.begin() + at);
         j.push_back(t.edges[at].pos(q, i));
         j.insert(j.end(), idx.begin() + at + parts.size(), idx.end());
         int s = 1;
         if (with_sign) {
            std::vector<bool> o;
            for (std::size_t a = 0; a < parts.size(); a++)
               o.push_back(rp[at + a][idx[at + a]].first.odd());
            s = pair_sign(o);
         }
         r.d[k] = t.d[flat(ts, j)] * double(s);
      });
      return r;
   }
   // merge the adjacent edges [at, at+n) into one
   inline RT merge_adjacent(const RT& t, long at, long n, const std::string& name, bool arrow, bool with_sign) {
      RT r;
      Fusion f = fuse({t.edges.begin() + at, t.edges.begin() + at + n}, arrow);
      for (long i = 0; i < at; i++) {
         r.names.push_back(t.names[i]);
         r.edges.push_back(t.edges[i]);
      }
      r.names.push_back(name);
      r.edges.push_back(f.whole);
      for (long i = at + n; i < (long)t.rank(); i++) {
         r.names.push_back(t.names[i]);
         r.edges.push_back(t.edges[i]);
      }
      auto rs = r.shape(), ts = t.shape();
      r.d.assign(product(rs), 0);
      auto tp = positions(t);
      each(ts, [&](const std::vector<long>& idx, long k) {
         auto [q, i] = f.at.at({idx.begin() + at, idx.begin() + at + n});
         std::vector<long> j(idx.begin(), idx.begin() + at);
         j.push_back(f.whole.pos(q, i));
         j.insert(j.end(), idx.begin() + at + n, idx.end());
         int s = 1;
         if (with_sign) {
            std::vector<bool> o;
            for (long a = at; a < at + n; a++)
               o.push_back(tp[a][idx[a]].first.odd());
            s = pair_sign(o);
         }
         r.d[flat(rs, j)] = t.d[k] * double(s);
      });
      return r;
   }

   struct EdgeOp {
      std::map<std::string, std::string> rename;
      std::map<std::string, std::vector<std::pair<std::string, REdge>>> split; // by renamed name
      std::set<std::string> reversed;                                          // by name after split
      std::map<std::string, Names> merge;                                      // merged name -> parts
      Names result;
      bool apply_parity = false;
      std::set<std::string> exclude[4]; // split (before), reverse, reverse before merge, merge (after)
      std::map<std::string, std::map<Q, long>> cut;
   };
   inline RT edge_operator(const RT& t0, const EdgeOp& op, bool is_fermi) {
      auto marked = [&](int k, const std::string& n) { return op.apply_parity != bool(op.exclude[k].count(n)); };
      // the quantum numbers of the uncut tensor that a cut leaves unused are dropped only at the end
      RT t = rename(cut(t0, op.cut), op.rename);
      for (auto& [n, parts] : op.split)
         if (std::find(t.names.begin(), t.names.end(), n) != t.names.end())
            t = split(t, n, parts, is_fermi && marked(0, n));
      if (is_fermi) {
         std::set<std::string> s;
         for (auto& n : op.reversed)
            if (marked(1, n))
               s.insert(n);
         t = reverse(t, op.reversed, s);
      }
      Names before;
      for (auto& n : op.result) {
         if (auto f = op.merge.find(n); f != op.merge.end())
            before.insert(before.end(), f->second.begin(), f->second.end());
         else
            before.push_back(n);
      }
      t = transpose(t, before);
      long at = 0;
      for (auto& n : op.result) {
         auto f = op.merge.find(n);
         if (f == op.merge.end()) {
            at++;
            continue;
         }
         const long k = f->second.size();
         bool arrow = false, fixed = false;
         if (is_fermi) {
            std::set<std::string> flip, flip_signed;
            for (long a = at; a < at + k; a++)
               if (t.edges[a].arrow_matters()) {
                  if (!fixed) {
                     fixed = true;
                     arrow = t.edges[a].arrow;
                  } else if (t.edges[a].arrow != arrow) {
                     flip.insert(t.names[a]);
                     if (marked(2, t.names[a]))
                        flip_signed.insert(t.names[a]);
                  }
               }
            t = reverse(t, flip, flip_signed);
         }
         if (k == 1)
            t.names[at] = n;
         else
            t = merge_adjacent(t, at, k, n, arrow, is_fermi && marked(3, n));
         at++;
      }
      return prune(t);
   }

   using Pairs = std::vector<std::pair<std::string, std::string>>;
   // symmetric tensors: free edges of a, then of b.  Quantum numbers without a partner contribute nothing.
   inline RT contract(const RT& a, const RT& b, const Pairs& pairs, bool is_fermi) {
      Names fa, fb, ca, cb;
      for (auto& [x, y] : pairs) {
         ca.push_back(x);
         cb.push_back(y);
      }
      for (auto& n : a.names)
         if (std::find(ca.begin(), ca.end(), n) == ca.end())
            fa.push_back(n);
      for (auto& n : b.names)
         if (std::find(cb.begin(), cb.end(), n) == cb.end())
            fb.push_back(n);
      Names oa = fa, ob = cb;
      oa.insert(oa.end(), ca.begin(), ca.end());
      ob.insert(ob.end(), fb.begin(), fb.end());
      RT A = transpose(a, oa), B = transpose(b, ob);
      const long k = pairs.size();
      RT r;
      for (std::size_t i = 0; i < fa.size(); i++) {
         r.names.push_back(fa[i]);
         r.edges.push_back(A.edges[i]);
      }
      for (std::size_t i = 0; i < fb.size(); i++) {
         r.names.push_back(fb[i]);
         r.edges.push_back(B.edges[k + i]);
      }
      auto rs = r.shape(), as = A.shape(), bs = B.shape();
      r.d.assign(product(rs), 0);
      std::vector<long> cs(as.begin() + fa.size(), as.end());
      auto ap = positions(A);
      const long nb = product({bs.begin() + k, bs.end()});
      const long na = product({as.begin(), as.begin() + fa.size()});
      const long nc = product(cs);
      each(cs, [&](const std::vector<long>& idx, long kc) {
         int s = 1;
         std::vector<bool> o;
         long row = 0;
         for (long i = 0; i < k; i++) {
            auto [q, x] = ap[fa.size() + i][idx[i]];
            auto f = B.edges[i].dims.find(-q);
            if (f == B.edges[i].dims.end())
               return;
            row = row * bs[i] + B.edges[i].pos(-q, x);
            o.push_back(q.odd());
            if (is_fermi && q.odd() && !A.edges[fa.size() + i].arrow)
               s = -s;
         }
         if (is_fermi)
            s *= pair_sign(o);
         for (long x = 0; x < na; x++) {
            cplx v = A.d[x * nc + kc] * double(s);
            if (v == 0.)
               continue;
            for (long y = 0; y < nb; y++)
               r.d[x * nb + y] += v * B.d[row * nb + y];
         }
      });
      return prune(r);
   }
   // What the library is known to compute for several fermionic pairs: the common edges are merged in ascending order of quantum numbers on
   // both sides, so the k-th element of one merged edge meets the k-th of the other even when these are not partners.
   inline RT contract_by_rank(const RT& a, const RT& b, const Pairs& pairs, bool is_fermi) {
      std::map<std::string, std::map<Q, long>> cut_a, cut_b;
      for (auto& [x, y] : pairs) {
         auto &ea = a.edges[a.index(x)], &eb = b.edges[b.index(y)];
         for (auto& [q, d] : ea.dims)
            if (!eb.dims.count(-q))
               cut_a[x][q] = 0;
         for (auto& [q, d] : eb.dims)
            if (!ea.dims.count(-q))
               cut_b[y][q] = 0;
      }
      RT A = cut(a, cut_a), B = cut(b, cut_b);
      Names fa, fb, oa, ob;
      std::set<std::string> sa, sb;
      for (auto& [x, y] : pairs) {
         sa.insert(x);
         sb.insert(y);
         ob.push_back(y);
      }
      for (auto& n : a.names)
         if (!sa.count(n))
            fa.push_back(n);
      for (auto& n : b.names)
         if (!sb.count(n))
            fb.push_back(n);
      oa = fa;
      for (auto& [x, y] : pairs)
         oa.push_back(x);
      ob.insert(ob.end(), fb.begin(), fb.end());
      A = transpose(A, oa);
      B = transpose(B, ob);
      const long k = pairs.size();
      RT r;
      for (std::size_t i = 0; i < fa.size(); i++) {
         r.names.push_back(fa[i]);
         r.edges.push_back(A.edges[i]);
      }
      for (std::size_t i = 0; i < fb.size(); i++) {
         r.names.push_back(fb[i]);
         r.edges.push_back(B.edges[k + i]);
      }
      r.d.assign(product(r.shape()), 0);
      Fusion f1 = fuse({A.edges.begin() + fa.size(), A.edges.end()}, false), f2 = fuse({B.edges.begin(), B.edges.begin() + k}, false);
      std::map<std::pair<Q, long>, std::vector<long>> inverse;
      for (auto& [p, x] : f2.at)
         inverse[x] = p;
      auto as = A.shape(), bs = B.shape();
      std::vector<long> cs(as.begin() + fa.size(), as.end());
      const long na = product({as.begin(), as.begin() + fa.size()}), nb = product({bs.begin() + k, bs.end()}), nc = product(cs);
      auto ap = positions(A);
      each(cs, [&](const std::vector<long>& idx, long kc) {
         auto [q, i] = f1.at.at(idx);
         auto g = inverse.find({-q, i});
         if (g == inverse.end())
            return;
         long row = 0;
         int s = 1;
         std::vector<bool> o;
         for (long j = 0; j < k; j++) {
            row = row * bs[j] + g->second[j];
            bool odd = ap[fa.size() + j][idx[j]].first.odd();
            o.push_back(odd);
            if (is_fermi && odd && !A.edges[fa.size() + j].arrow)
               s = -s;
         }
         if (is_fermi)
            s *= pair_sign(o);
         for (long x = 0; x < na; x++)
            for (long y = 0; y < nb; y++)
               r.d[x * nb + y] += A.d[x * nc + kc] * double(s) * B.d[row * nb + y];
      });
      return prune(r);
   }
   // do both sides enumerate the common edges in the same order?
   inline bool same_order(const RT& a, const RT& b, const Pairs& pairs) {
      std::vector<REdge> pa, pb;
      for (auto& [x, y] : pairs) {
         REdge e, f;
         for (auto& [q, d] : a.edges[a.index(x)].dims)
            if (b.edges[b.index(y)].dims.count(-q)) {
               e.dims[q] = d;
               f.dims[-q] = d;
            }
         pa.push_back(e);
         pb.push_back(f);
      }
      Fusion f1 = fuse(pa, false), f2 = fuse(pb, false);
      for (auto& [p, x] : f1.at) {
         std::vector<long> t;
         for (std::size_t i = 0; i < p.size(); i++) {
            auto [q, k] = pa[i].positions()[p[i]];
            t.push_back(pb[i].pos(-q, k));
         }
         if (f2.at.at(t) != std::make_pair(-x.first, x.second))
            return false;
      }
      return true;
   }
   // no symmetry: edges with the same name in both, not contracted, are kept once
   inline RT contract_fuse(const RT& a, const RT& b, const Pairs& pairs, const Names& fused_order) {
      std::set<std::string> ca, cb, fu(fused_order.begin(), fused_order.end());
      for (auto& [x, y] : pairs) {
         ca.insert(x);
         cb.insert(y);
      }
      RT r;
      std::vector<std::pair<long, long>> where; // for every result edge: index in a, index in b (-1: none)
      for (auto& n : fused_order) {
         r.names.push_back(n);
         r.edges.push_back(a.edges[a.index(n)]);
         where.push_back({a.index(n), b.index(n)});
      }
      for (auto& n : a.names)
         if (!ca.count(n) && !fu.count(n)) {
            r.names.push_back(n);
            r.edges.push_back(a.edges[a.index(n)]);
            where.push_back({a.index(n), -1});
         }
      for (auto& n : b.names)
         if (!cb.count(n) && !fu.count(n)) {
            r.names.push_back(n);
            r.edges.push_back(b.edges[b.index(n)]);
            where.push_back({-1, b.index(n)});
         }
      auto rs = r.shape(), as = a.shape(), bs = b.shape();
      r.d.assign(product(rs), 0);
      std::vector<long> cs;
      for (auto& [x, y] : pairs)
         cs.push_back(as[a.index(x)]);
      each(rs, [&](const std::vector<long>& idx, long k) {
         std::vector<long> ia(as.size()), ib(bs.size());
         for (std::size_t i = 0; i < idx.size(); i++) {
            if (where[i].first >= 0)
               ia[where[i].first] = idx[i];
            if (where[i].second >= 0)
               ib[where[i].second] = idx[i];
         }
         cplx sum = 0;
         each(cs, [&](const std::vector<long>& c, long) {
            for (std::size_t i = 0; i < c.size(); i++) {
               ia[a.index(pairs[i].first)] = c[i];
               ib[b.index(pairs[i].second)] = c[i];
            }
            sum += a.d[flat(as, ia)] * b.d[flat(bs, ib)];
         });
         r.d[k] = sum;
      });
      return r;
   }
   // trace over mutually conjugate pairs
   inline RT trace(const RT& t, const Pairs& pairs, bool is_fermi) {
      std::set<std::string> gone;
      Names order;
      for (auto [x, y] : pairs) {
         if (is_fermi && !t.edges[t.index(x)].arrow)
            std::swap(x, y);
         order.push_back(x);
         order.push_back(y);
         gone.insert(x);
         gone.insert(y);
      }
      Names free;
      for (auto& n : t.names)
         if (!gone.count(n))
            free.push_back(n);
      order.insert(order.end(), free.begin(), free.end());
      RT a = transpose(t, order);
      RT r;
      r.names = free;
      for (auto& n : free)
         r.edges.push_back(t.edges[t.index(n)]);
      auto as = a.shape(), rs = r.shape();
      const long n = product(rs);
      r.d.assign(n, 0);
      std::vector<long> cs(as.begin(), as.begin() + 2 * pairs.size());
      auto ap = positions(a);
      each(cs, [&](const std::vector<long>& idx, long k) {
         for (std::size_t i = 0; i < pairs.size(); i++) {
            auto [q1, x1] = ap[2 * i][idx[2 * i]];
            auto [q2, x2] = ap[2 * i + 1][idx[2 * i + 1]];
            if (q1 != -q2 || x1 != x2)
               return;
         }
         for (long j = 0; j < n; j++)
            r.d[j] += a.d[k * n + j];
      });
      return prune(r);
   }
   inline RT conjugate(const RT& t, bool is_fermi) {
      RT r;
      r.names = t.names;
      for (auto& e : t.edges)
         r.edges.push_back(conj_edge(e));
      auto rs = r.shape();
      r.d.assign(product(rs), 0);
      auto tp = positions(t);
      each(t.shape(), [&](const std::vector<long>& idx, long k) {
         std::vector<long> j;
         for (std::size_t i = 0; i < idx.size(); i++)
            j.push_back(r.edges[i].pos(-tp[i][idx[i]].first, tp[i][idx[i]].second));
         int s = is_fermi ? pair_sign(odds(tp, idx)) : 1;
         r.d[flat(rs, j)] = std::conj(t.d[k]) * double(s);
      });
      return r;
   }
   inline std::string str(const Names& n) {
      std::string r = "[";
      for (auto& i : n)
         r += i + " ";
      return r + "]";
   }
   inline std::string describe(const RT& t) {
      std::ostringstream o;
      o << str(t.names);
      for (auto& e : t.edges)
         o << " " << str(e);
      return o.str();
   }
   inline double max_abs(const RT& t) {
      double m = 0;
      for (auto& v : t.d)
         m = std::max(m, std::abs(v));
      return m;
   }
   // "" if equal; tolerance is absolute; arrows are compared where they have a meaning
   inline std::string diff(const RT& want, const RT& got, double tol, bool is_fermi, bool compare_dims = true) {
      std::ostringstream o;
      if (want.names != got.names) {
         o << "names: expected " << str(want.names) << " got " << str(got.names);
         return o.str();
      }
      for (std::size_t i = 0; i < want.rank(); i++) {
         if (want.edges[i].dims != got.edges[i].dims ||
             (is_fermi && want.edges[i].arrow_matters() && want.edges[i].arrow != got.edges[i].arrow)) {
            o << "edge " << want.names[i] << ": expected " << str(want.edges[i]) << " got " << str(got.edges[i]);
            return o.str();
         }
      }
      std::string bad;
      auto p = positions(want);
      each(want.shape(), [&](const std::vector<long>& idx, long k) {
         if (!bad.empty())
            return;
         double e = std::abs(want.d[k] - got.d[k]);
         if (!(e <= tol)) {
            std::ostringstream b;
            b << "element at";
            for (std::size_t i = 0; i < idx.size(); i++)
               b << " " << want.names[i] << "=" << str(p[i][idx[i]].first) << "#" << p[i][idx[i]].second;
            b << ": expected " << want.d[k] << " got " << got.d[k];
            bad = b.str();
         }
      });
      return bad;
   }
   // as diff, but a quantum number missing on one side only means zeros there
   inline RT widen(const RT& t, const std::vector<REdge>& edges) {
      RT r = empty(t.names, edges);
      auto rs = r.shape();
      auto p = positions(t);
      each(t.shape(), [&](const std::vector<long>& idx, long k) {
         std::vector<long> j;
         for (std::size_t i = 0; i < idx.size(); i++)
            j.push_back(edges[i].pos(p[i][idx[i]].first, p[i][idx[i]].second));
         r.d[flat(rs, j)] = t.d[k];
      });
      return r;
   }
   inline std::string diff_values(const RT& want, const RT& got, double tol) {
      if (want.names != got.names)
         return "names: expected " + str(want.names) + " got " + str(got.names);
      std::vector<REdge> e;
      for (std::size_t i = 0; i < want.rank(); i++) {
         e.push_back(want.edges[i]);
         for (auto& [q, d] : got.edges[i].dims) {
            if (auto f = want.edges[i].dims.find(q); f != want.edges[i].dims.end() && f->second != d)
               return "edge " + want.names[i] + ": expected " + str(want.edges[i]) + " got " + str(got.edges[i]);
            e.back().dims[q] = d;
         }
      }
      return diff(widen(want, e), widen(got, e), tol, false);
   }
} // namespace ref
