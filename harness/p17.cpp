// P17: lazy values.
#include <lazy.hpp>
#include <memory>

#include "mon.hpp"
using mon::Rng;

// long values, texts, and paths that return references; everything is a function of the values of the inputs
using Long = std::shared_ptr<lazy::node<long>>;
struct Thrown : std::runtime_error {
   using std::runtime_error::runtime_error;
};
enum Kind { ROOT, NODE, PATH, TEXT, REFPATH, LATE };
struct Entry {
   Kind kind;
   std::vector<int> in; // ROOT and LATE: none
   std::function<long()> get;
   std::function<void(long)> set;
   std::function<void()> drop;
   long coefficient = 0;
   bool throws = false; // throws when the value would be divisible by 7
   bool alive = true, in_main = true;
   long completions = 0; // since the last change of the inputs
};
struct World {
   std::vector<Entry> e;
   std::map<int, long> current; // values of the roots
   std::vector<int> completed;  // by the library, since last drained
};

static long combine(long coefficient, const std::vector<long>& v) {
   unsigned long x = coefficient;
   for (long i : v)
      x = x * 1000003ul + (unsigned long)i * 31 + 7;
   return long(x % 1000000007ul);
}
static long model(const World& w, int i) { // throws Thrown
   auto& e = w.e[i];
   if (e.kind == ROOT || e.kind == LATE)
      return w.current.at(i);
   std::vector<long> v;
   for (int j : e.in)
      v.push_back(model(w, j));
   if (e.kind == REFPATH)
      return v[0];
   long x = combine(e.coefficient, v);
   if (e.throws && x % 7 == 0)
      throw Thrown("7");
   return x;
}
static bool depends(const World& w, int i, int root) {
   if (i == root)
      return true;
   for (int j : w.e[i].in)
      if (depends(w, j, root))
         return true;
   return false;
}

// handles the tests can use as inputs
struct Handle {
   std::shared_ptr<lazy::root<long>> r;
   std::shared_ptr<lazy::node<long>> n;
   std::shared_ptr<lazy::path<long>> p;
   std::shared_ptr<lazy::node<std::string>> t;
   std::shared_ptr<lazy::path<long>> q;
};
static long number(long x) {
   return x;
}
static long number(const std::string& x) {
   return std::stol(x);
}

template<class F>
void with(const Handle& h, F&& f) {
   if (h.r) {
      auto x = h.r;
      f(x);
   } else if (h.n) {
      auto x = h.n;
      f(x);
   } else if (h.p) {
      auto x = h.p;
      f(x);
   } else if (h.t) {
      auto x = h.t;
      f(x);
   } else {
      auto x = h.q;
      f(x);
   }
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      lazy::Graph graph, second;
      lazy::use_graph(graph);
      auto w = std::make_shared<World>();
      std::vector<Handle> h;
      std::string log;
      struct Saved {
         lazy::Snapshot snapshot;
         std::map<int, long> roots;
         std::vector<bool> had; // node had a value
         std::vector<long> completions;
      };
      std::vector<Saved> saved;
      auto add_root = [&] {
         Entry e;
         const int id = w->e.size();
         const long v = r.range(-50, 50);
         Handle x;
         if (r.chance(70)) {
            e.kind = ROOT;
            if (r.chance(50)) {
               long lv = v;
               x.r = lazy::Root(lv);
            } else
               x.r = lazy::Root(long(v));
         } else {
            e.kind = LATE;
            x.r = lazy::Root<long>();
            x.r->set(v);
         }
         w->current[id] = v;
         e.get = [p = x.r] { return p->get(); };
         e.set = [p = x.r](long v) {
            const long copy = v;
            if (v % 2)
               p->set(copy);
            else
               p->set(long(v));
         };
         w->e.push_back(e);
         h.push_back(x);
         log += "r" + std::to_string(id);
      };
      auto add_node = [&] {
         std::vector<int> usable;
         for (std::size_t i = 0; i < w->e.size(); i++)
            if (w->e[i].alive)
               usable.push_back(i);
         Entry e;
         const int id = w->e.size();
         e.kind = std::vector<Kind>{NODE, NODE, NODE, PATH, TEXT, REFPATH}[r.range(0, 5)];
         e.coefficient = r.range(1, 1000);
         e.throws = r.chance(10) && e.kind != REFPATH;
         e.in_main = !r.chance(20) || e.kind == PATH || e.kind == REFPATH;
         // a node of the second graph is not restored, so nothing of the first may depend on it
         long n = e.kind == REFPATH ? 1 : r.range(1, 3);
         for (long i = 0; i < n; i++)
            e.in.push_back(r.pick(usable));
         for (int i : e.in)
            if (!w->e[i].in_main)
               e.in_main = false;
         if (e.kind == REFPATH && !(h[e.in[0]].r || h[e.in[0]].n))
            e.kind = PATH;
         lazy::use_graph(e.in_main ? graph : second);
         Handle x;
         auto finish = [w, id](std::vector<long> v) {
            long y = combine(w->e[id].coefficient, v);
            if (w->e[id].throws && y % 7 == 0)
               throw Thrown("7");
            w->completed.push_back(id);
            return y;
         };
         auto build = [&](auto&&... a) {
            if (e.kind == TEXT)
               x.t = lazy::Node([finish](const auto&... v) { return std::to_string(finish({number(v)...})); }, a...);
            else if (e.kind == PATH)
               x.p = lazy::Path([finish](const auto&... v) -> long { return finish({number(v)...}); }, a...);
            else
               x.n = lazy::Node([finish](const auto&... v) -> long { return finish({number(v)...}); }, a...);
         };
         if (e.kind == REFPATH) {
            if (h[e.in[0]].r) {
               auto a = h[e.in[0]].r;
               x.q = lazy::Path([](const long& v) -> const long& { return v; }, a);
            } else {
               auto a = h[e.in[0]].n;
               x.q = lazy::Path([](const long& v) -> const long& { return v; }, a);
            }
         } else
            with(h[e.in[0]], [&](auto& a) {
               if (e.in.size() == 1)
                  build(a);
               else
                  with(h[e.in[1]], [&](auto& b) {
                     if (e.in.size() == 2)
                        build(a, b);
                     else
                        with(h[e.in[2]], [&](auto& d) { build(a, b, d); });
                  });
            });
         lazy::use_graph(graph);
         h.push_back(x);
         w->e.push_back(e);
         log += std::string(1, "rnptqr"[e.kind]) + std::to_string(id) + "(";
         for (int i : e.in)
            log += std::to_string(i) + " ";
         log += e.in_main ? ")" : ")'";
      };
      auto drain = [&] {
         for (int i : w->completed)
            if (w->e[i].kind == NODE || w->e[i].kind == TEXT) {
               w->e[i].completions++;
               mon::count("nodes computed");
               mon::require(w->e[i].completions <= 1, "node " + std::to_string(i) + " was computed twice although no input changed");
            }
         w->completed.clear();
      };
      auto read = [&](int i) {
         long want = 0, got = 0;
         bool throws = false, thrown = false;
         try {
            want = model(*w, i);
         } catch (const Thrown&) {
            throws = true;
         }
         try {
            with(h[i], [&](auto& x) { got = number(x->get()); });
         } catch (const Thrown&) {
            thrown = true;
         }
         mon::require(throws == thrown, "reading " + std::to_string(i) + (throws ? " should have failed" : " failed"));
         if (!throws)
            mon::require(got == want, "reading " + std::to_string(i) + " gives " + std::to_string(got) + ", its definition " + std::to_string(want));
         drain();
         mon::count(throws ? "failing reads" : "reads");
      };
      long n_roots = r.range(1, 4);
      for (long i = 0; i < n_roots; i++)
         add_root();
      for (long i = r.range(1, 5); i > 0; i--)
         add_node();
      const long steps = r.range(5, 40);
      for (long s = 0; s < steps; s++) {
         mon::describe(log);
         std::vector<int> alive;
         for (std::size_t i = 0; i < w->e.size(); i++)
            if (w->e[i].alive)
               alive.push_back(i);
         const long what = r.range(0, 99);
         if (what < 8 && w->e.size() < 14)
            add_node();
         else if (what < 10 && w->e.size() < 14)
            add_root();
         else if (what < 40) {
            int i = r.pick(alive);
            log += " get" + std::to_string(i);
            mon::describe(log);
            read(i);
         } else if (what < 65) {
            std::vector<int> roots;
            for (int i : alive)
               if (h[i].r)
                  roots.push_back(i);
            int i = r.pick(roots);
            long v = r.chance(20) ? w->current[i] : r.range(-50, 50);
            log += " set" + std::to_string(i) + "=" + std::to_string(v);
            w->e[i].set(v);
            w->current[i] = v;
            for (std::size_t j = 0; j < w->e.size(); j++)
               if (depends(*w, j, i))
                  w->e[j].completions = 0;
            mon::count("updates");
         } else if (what < 75 && saved.size() < 4) {
            log += " dump" + std::to_string(saved.size());
            Saved x{graph.dump(), w->current, {}, {}};
            for (auto& e : w->e)
               x.completions.push_back(e.completions);
            saved.push_back(x);
            mon::count("snapshots");
         } else if (what < 92 && !saved.empty()) {
            int k = r.range(0, saved.size() - 1);
            log += " load" + std::to_string(k);
            auto& x = saved[k];
            graph.load(x.snapshot);
            for (auto& [i, v] : x.roots) {
               w->current[i] = v;
            }
            for (std::size_t i = 0; i < w->e.size(); i++) {
               auto& e = w->e[i];
               if (i < x.completions.size() && e.in_main && e.alive)
                  e.completions = x.completions[i]; // a value that was saved need not be computed again
               else
                  e.completions = 0;
            }
            mon::count("restores");
         } else if (what < 95) {
            std::vector<int> nodes;
            for (int i : alive)
               if (!h[i].r)
                  nodes.push_back(i);
            if (!nodes.empty()) {
               int i = r.pick(nodes);
               log += " drop" + std::to_string(i);
               // the value stays in use through whatever was built on it
               h[i] = Handle();
               w->e[i].alive = false;
               mon::count("nodes dropped");
            }
         }
         drain();
      }
      mon::describe(log);
      for (std::size_t i = 0; i < w->e.size(); i++)
         if (w->e[i].alive)
            read(i);
      for (int i = w->e.size() - 1; i >= 0; i--)
         if (w->e[i].alive)
            read(i);
      mon::nontrivial(log);
      mon::sample(log);
      lazy::use_graph();
   });
}
