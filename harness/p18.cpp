// P18: names and their identities.
#include "edgeop.hpp"
using namespace gen;
using TAT::operator<;
using TAT::operator>;

static std::string text(Rng& r) {
   std::string s;
   switch (r.range(0, 5)) {
      case 0: // near one another
         s = std::string(r.range(1, 40), 'a') + char('a' + r.range(0, 2));
         break;
      case 1:
         s = std::to_string(r.range(-50, 5000));
         break;
      case 2:
         for (long i = r.range(0, 6); i > 0; i--)
            s += char(r.range(1, 255));
         break;
      case 3:
         s = std::string(r.range(0, 5), ' ') + "x" + std::string(r.range(0, 2), '\0');
         break;
      default:
         for (long i = r.range(1, 8); i > 0; i--)
            s += char('a' + r.range(0, 25));
   }
   return s;
}
static std::map<std::string, Name> book; // every name made so far

static void consistent(Rng& r, const std::string& t, const Name& n, const std::string& when) {
   mon::require(Name(t) == n && !(Name(t) != n), "a name differs from another made from the same text " + when);
   mon::require(static_cast<const std::string&>(n) == t, "a name does not give back its text " + when);
   mon::require(name_str(n) == t, "a name does not print as its text " + when);
}
static void ordering(Rng& r) {
   std::vector<std::pair<std::string, Name>> v;
   for (int i = 0; i < 3; i++) {
      auto it = book.lower_bound(text(r));
      if (it == book.end())
         it = book.begin();
      v.push_back(*it);
   }
   for (auto& [ta, a] : v)
      for (auto& [tb, b] : v) {
         const bool same = ta == tb;
         mon::require((a == b) == same && (a != b) == !same, "names of different texts are equal, or names of equal texts differ");
         mon::require((a < b) + (b < a) + (a == b) == 1, "the order of names is not total");
         mon::require((a < b) == (b > a) && (a <= b) == !(b < a) && (a >= b) == !(a < b), "comparisons of names contradict one another");
         for (auto& [tc, c] : v)
            mon::require(!(a < b && b < c) || a < c, "the order of names is not transitive");
      }
}

// the same operation under two assignments of identities to names
struct World {
   std::map<std::string, std::string> m;
   std::map<std::string, std::string> back;
   std::string operator()(const std::string& n) const {
      auto f = m.find(n);
      return f == m.end() ? n : f->second;
   }
   RT operator()(RT t) const {
      for (auto& n : t.names)
         n = (*this)(n);
      return t;
   }
   std::set<std::string> operator()(const std::set<std::string>& s) const {
      std::set<std::string> v;
      for (auto& n : s)
         v.insert((*this)(n));
      return v;
   }
   ref::EdgeOp operator()(const ref::EdgeOp& op) const {
      ref::EdgeOp q = op;
      q.rename.clear();
      q.split.clear();
      q.merge.clear();
      q.cut.clear();
      for (auto& [a, b] : op.rename)
         q.rename[(*this)(a)] = (*this)(b);
      for (auto& [a, b] : op.split) {
         auto& v = q.split[(*this)(a)];
         for (auto& [n, e] : b)
            v.push_back({(*this)(n), e});
      }
      for (auto& [a, b] : op.merge) {
         auto& v = q.merge[(*this)(a)];
         for (auto& n : b)
            v.push_back((*this)(n));
      }
      for (auto& [a, b] : op.cut)
         q.cut[(*this)(a)] = b;
      for (auto& n : q.result)
         n = (*this)(n);
      q.reversed = (*this)(op.reversed);
      for (int i = 0; i < 4; i++)
         q.exclude[i] = (*this)(op.exclude[i]);
      return q;
   }
   ref::Pairs operator()(const ref::Pairs& p) const {
      ref::Pairs q;
      for (auto& [a, b] : p)
         q.push_back({(*this)(a), (*this)(b)});
      return q;
   }
   RT restore(RT t) const {
      for (auto& n : t.names)
         if (auto f = back.find(n); f != back.end())
            n = f->second;
      Names order = t.names;
      std::sort(order.begin(), order.end());
      return ref::transpose(t, order);
   }
};
static World world(Rng& r, const std::set<std::string>& all, const std::string& salt) {
   World w;
   std::vector<std::string> v(all.begin(), all.end());
   r.shuffle(v);
   for (auto& n : v) {
      w.m[n] = salt + n;
      w.back[salt + n] = n;
      Name first_use(salt + n);
      book[salt + n] = first_use;
   }
   return w;
}

int main(int argc, char** argv) {
   static const std::string initial = TAT::dump_fast_name_dataset();
   book[""] = Name("");
   book[""] = Name();
   return mon::run(argc, argv, [](Rng& r, long c) {
      mon::describe(config_name() + " names, case " + std::to_string(c));
      if (c % 400 == 399) { // start again with the names the library itself uses
         TAT::load_fast_name_dataset(initial);
         book.clear();
         book[""] = Name("");
         mon::count("dictionary restarted");
      }
      // creation
      for (int i = 0; i < 20; i++) {
         std::string t = text(r);
         Name n = r.chance(50) && t.find('\0') == std::string::npos ? Name(t.c_str()) : Name(t);
         auto [it, fresh] = book.insert({t, n});
         mon::require(it->second == n, "a name made again from the same text has another identity");
         consistent(r, t, n, "when made");
         mon::count(fresh ? "new names" : "names made again");
      }
      for (int i = 0; i < 10; i++) {
         ordering(r);
         auto it = book.lower_bound(text(r));
         if (it != book.end())
            consistent(r, it->first, it->second, "later");
      }
      if (c % 20 == 3) { // saved, more made, restored
         const std::string saved = TAT::dump_fast_name_dataset();
         for (int i = 0; i < 5; i++)
            Name("temporary" + std::to_string(c * 10 + i));
         TAT::load_fast_name_dataset(saved);
         for (int i = 0; i < 5; i++) {
            std::string t = "fresh" + std::to_string(c * 10 + i);
            Name n(t);
            book[t] = n;
         }
         for (auto& [t, n] : book)
            consistent(r, t, n, "after saving and restoring the dictionary");
         std::set<decltype(Name().id)> ids;
         for (auto& [t, n] : book)
            mon::require(ids.insert(n.id).second, "two texts share an identity");
         mon::count("dictionary restored");
      }
      // operations under two assignments
      Opt o;
      o.rank_max = 4;
      o.max_elements = 200;
      o.zero_dim = 1;
      const int kind = r.range(0, 5);
      std::vector<std::pair<RT, RT>> results;
      std::string what = config_name();
      double tol = 0;
      auto both = [&](const std::set<std::string>& names, auto&& f) {
         std::vector<std::vector<RT>> out;
         for (int k = 0; k < 2; k++) {
            World w = world(r, names, (k ? "q" : "p") + std::to_string(c) + "_");
            std::vector<RT> v;
            for (auto& x : f(w))
               v.push_back(w.restore(back_of(x)));
            out.push_back(v);
         }
         for (std::size_t i = 0; i < out[0].size(); i++) {
            std::string bad = ref::diff(out[0][i], out[1][i], tol * (1 + ref::max_abs(out[0][i])), is_fermi);
            mon::require(bad.empty(), "the result depends on the order in which names were first used: " + bad);
            mon::observe(out[0][i].d.size());
         }
      };
      if (kind == 0) {
         OpCase x = op_case(r, o);
         what += " " + ref::describe(x.t) + " " + str(x.op);
         mon::describe(what);
         std::set<std::string> all(x.t.names.begin(), x.t.names.end());
         for (auto& [a, b] : x.op.rename)
            all.insert(b);
         for (auto& [a, b] : x.op.split)
            for (auto& [n, e] : b)
               all.insert(n);
         for (auto& [a, b] : x.op.merge)
            all.insert(a);
         both(all, [&](const World& w) { return std::vector<Tensor>{run_op(make_tensor(w(x.t)), w(x.op))}; });
      } else if (kind == 1) { // contraction, pairs in any order of identity
         RT a = tensor(r, o);
         long k = r.range(0, std::min<long>(is_fermi ? 1 : 3, a.rank()));
         auto chosen = subset(r, a.rank(), k);
         std::vector<REdge> e;
         Names n;
         ref::Pairs pairs;
         for (auto i : chosen) {
            e.push_back(partner(r, a.edges[i], 30));
            n.push_back("k" + std::to_string(i));
            pairs.push_back({a.names[i], n.back()});
         }
         e.push_back(is_no ? edge(r, o) : closing_edge(r, o, e));
         n.push_back("free");
         if (is_no)
            for (std::size_t i = 0; i < a.rank(); i++)
               if (std::find(chosen.begin(), chosen.end(), long(i)) == chosen.end() && r.chance(50)) { // kept edges
                  e.push_back(a.edges[i]);
                  n.push_back(a.names[i]);
               }
         if (!fits(e, 400))
            return;
         RT b = with_edges(r, n, e, o);
         what += " contract " + ref::describe(a) + ref::describe(b);
         mon::describe(what);
         std::set<std::string> all(a.names.begin(), a.names.end());
         all.insert(n.begin(), n.end());
         both(all, [&](const World& w) { return std::vector<Tensor>{make_tensor(w(a)).contract(make_tensor(w(b)), pair_set(w(pairs)))}; });
      } else if (kind == 2) { // trace, identity and exponential
         std::vector<REdge> e;
         Names n;
         ref::Pairs pairs;
         long k = r.range(0, is_fermi ? 1 : 2);
         for (long i = 0; i < k; i++) {
            REdge x = edge(r, o);
            e.push_back(x);
            e.push_back(ref::conj_edge(x));
            n.push_back("l" + std::to_string(i));
            n.push_back("m" + std::to_string(i));
            pairs.push_back({n[n.size() - 2], n.back()});
         }
         if (!fits(e, 200))
            return;
         auto p = subset(r, n.size(), n.size());
         Names n2;
         std::vector<REdge> e2;
         for (auto i : p) {
            n2.push_back(n[i]);
            e2.push_back(e[i]);
         }
         RT t = with_edges(r, n2, e2, o);
         what += " trace and exponential " + ref::describe(t);
         mon::describe(what);
         for (auto& v : t.d)
            v *= 0.0625;
         tol = 200 * eps;
         both({n.begin(), n.end()}, [&](const World& w) {
            Tensor T = make_tensor(w(t));
            auto q = pair_set(w(pairs));
            return std::vector<Tensor>{T.trace(q), T.identity(q), T.exponential(q, 3)};
         });
      } else if (kind == 3) { // decompositions
         RT t = tensor(r, o);
         std::set<std::string> u;
         for (auto& n : t.names)
            if (r.chance(50))
               u.insert(n);
         std::set<std::string> all(t.names.begin(), t.names.end());
         all.insert("cu");
         all.insert("cv");
         tol = 400 * eps;
         what += " decompose " + ref::describe(t);
         mon::describe(what);
         both(all, [&](const World& w) {
            Tensor T = make_tensor(w(t));
            auto s = T.svd(name_set(w(u)), Name(w("cu")), Name(w("cv")));
            auto q = T.qr('Q', name_set(w(u)), Name(w("cu")), Name(w("cv")));
            std::set<std::tuple<Name, Name>> p1{{Name(w("cu")), Name(w("cv"))}};
            auto p2 = p1;
            return std::vector<Tensor>{s.U.multiple(s.S, Name(w("cu")), 'u').contract(s.V, p1), q.Q.contract(q.R, p2)};
         });
      } else if (kind == 4) { // arithmetic
         RT a = tensor(r, o);
         RT b = with_edges(r, a.names, a.edges, o);
         Names order = b.names;
         r.shuffle(order);
         b = ref::transpose(b, order);
         what += " arithmetic " + ref::describe(a);
         mon::describe(what);
         both({a.names.begin(), a.names.end()}, [&](const World& w) {
            Tensor A = make_tensor(w(a)), B = make_tensor(w(b));
            return std::vector<Tensor>{A + B, A * B, A - B, A.conjugate()};
         });
      } else { // merging and splitting through the simple entry points
         RT t = tensor(r, o);
         Names p = t.names;
         r.shuffle(p);
         long k = r.range(0, std::min<long>(3, p.size()));
         Names g(p.begin(), p.begin() + k);
         what += " merge " + ref::describe(t) + ref::str(g);
         mon::describe(what);
         std::set<std::string> all(t.names.begin(), t.names.end());
         all.insert("mm");
         bool parity = r.chance(50);
         both(all, [&](const World& w) {
            Names x;
            for (auto& n : g)
               x.push_back(w(n));
            return std::vector<Tensor>{make_tensor(w(t)).merge_edge(std::map<Name, std::vector<Name>>{{Name(w("mm")), names_of(x)}}, parity)};
         });
      }
      mon::nontrivial(what);
      mon::sample(what);
   });
}
