// P20: the library's working memory.  Run under AddressSanitizer with the buffers as they are.
#include <TAT/TAT.hpp>

#include "mon.hpp"
using mon::Rng;

namespace {
   struct Block {
      std::byte* p;
      std::size_t n;
   };
   // records what the resource takes from and gives back to its upstream; blocks have exactly the size asked for
   struct Recorder : TAT::pmr::memory_resource {
      std::vector<Block> live;
      long taken = 0, wrong = 0;
      void* do_allocate(std::size_t bytes, std::size_t) override {
         taken++;
         auto p = new std::byte[bytes];
         live.push_back({p, bytes});
         return p;
      }
      void do_deallocate(void* p, std::size_t bytes, std::size_t) override {
         for (auto i = live.begin(); i != live.end(); ++i)
            if (i->p == p) {
               if (i->n != bytes)
                  wrong++;
               live.erase(i);
               delete[](std::byte*) p;
               return;
            }
         wrong++;
      }
      bool do_is_equal(const TAT::pmr::memory_resource& o) const noexcept override {
         return this == &o;
      }
      ~Recorder() override {
         for (auto& b : live)
            delete[] b.p;
      }
   };
   struct Piece {
      std::byte* p;
      std::size_t n;
      unsigned char mark;
   };

   void pieces(Rng& r) {
      const std::size_t size = r.chance(10) ? 0 : r.chance(50) ? r.range(1, 80) : r.range(1, 600);
      std::unique_ptr<std::byte[]> buffer(new std::byte[size]);
      Recorder up;
      std::string trace = "buffer " + std::to_string(size) + ":";
      {
         TAT::pmr::monotonic_buffer_resource m(buffer.get(), size, &up);
         for (int round = r.range(1, 3); round-- > 0;) {
            std::vector<Piece> v;
            for (int k = r.range(1, 40); k-- > 0;) {
               if (!v.empty() && r.chance(20)) {
                  auto& x = r.pick(v);
                  m.deallocate(x.p, x.n, 1); // memory is only returned at the end
                  continue;
               }
               const std::size_t a = std::size_t(1) << r.range(0, 4);
               std::size_t n = r.chance(5) ? r.range(1, 5000) : r.chance(20) ? r.range(1, 200) : r.range(1, 24);
               trace += " " + std::to_string(n) + "/" + std::to_string(a);
               mon::describe(trace);
               auto p = (std::byte*)m.allocate(n, a);
               mon::require(p && std::size_t(p) % a == 0, "[P20] working memory is not aligned");
               bool inside = p >= buffer.get() && p + n <= buffer.get() + size;
               for (auto& b : up.live)
                  inside = inside || (p >= b.p && p + n <= b.p + b.n);
               mon::require(inside, "[P20] working memory lies outside its buffers");
               for (auto& x : v)
                  mon::require(p + n <= x.p || x.p + x.n <= p, "[P20] two pieces of working memory overlap");
               const auto mark = (unsigned char)r.range(0, 255);
               std::memset(p, mark, n);
               v.push_back({p, n, mark});
            }
            for (auto& x : v)
               for (std::size_t i = 0; i < x.n; i++)
                  mon::require((unsigned char)x.p[i] == x.mark, "[P20] working memory changed while in use");
            mon::count("pieces of working memory", v.size());
            if (round > 0) {
               m.release();
               trace += " release";
               mon::require(up.live.empty() && up.wrong == 0, "[P20] memory was not returned on release");
            }
         }
         mon::count("buffers taken from upstream", up.taken);
      }
      mon::require(up.live.empty() && up.wrong == 0, "[P20] memory was not returned at the end");
      mon::nontrivial(trace);
      mon::sample(trace);
   }

   // containers that live in different memory: contents move between them, memory does not
   void owners(Rng& r) {
      using Vector = TAT::pmr::vector<long>;
      using Alloc = TAT::pmr::polymorphic_allocator<long>;
      auto same = [](const Vector& a, const std::vector<long>& b) { return std::equal(a.begin(), a.end(), b.begin(), b.end()); };
      Recorder first, second;
      {
         mon::require(Alloc(&first) == Alloc(&first) && !(Alloc(&first) != Alloc(&first)), "[P20] the same memory is taken for different memory");
         mon::require(Alloc(&first) != Alloc(&second) && !(Alloc(&first) == Alloc(&second)), "[P20] different memory is taken for the same memory");
         Vector outer{Alloc(&first)};
         std::vector<long> want;
         for (int k = r.range(1, 12); k-- > 0;) {
            const long n = r.range(0, 30);
            std::vector<long> content;
            for (long i = 0; i < n; i++)
               content.push_back(r.range(0, 1000));
            switch (r.range(0, 4)) {
               case 0: {
                  Vector inner(content.begin(), content.end(), Alloc(r.chance(50) ? &first : &second));
                  outer = std::move(inner);
                  want = content;
                  break;
               }
               case 1: {
                  TAT::scope_resource<256> guard;
                  Vector inner(content.begin(), content.end());
                  if (r.chance(50))
                     outer = std::move(inner);
                  else
                     outer = inner;
                  want = content;
                  break;
               }
               case 2: {
                  TAT::pmr::monotonic_buffer_resource a(nullptr, 0, &second), b(nullptr, 0, &second);
                  Vector mine{Alloc(&a)};
                  {
                     Vector other(content.begin(), content.end(), Alloc(&b));
                     mine = std::move(other);
                  }
                  b.release();
                  mon::require(same(mine, content), "[P20] a vector moved into other working memory changed");
                  break;
               }
               case 3: {
                  Vector copy(outer);
                  mon::require(same(copy, want), "[P20] a copy of a vector differs from it");
                  for (auto& v : copy)
                     v++;
                  Vector moved(std::move(copy));
                  break;
               }
               default:
                  for (auto v : content) {
                     outer.push_back(v);
                     want.push_back(v);
                  }
            }
            mon::require(same(outer, want), "[P20] a vector changed when another one went away");
            mon::count("containers across resources");
         }
      }
      mon::require(first.live.empty() && first.wrong == 0 && second.live.empty() && second.wrong == 0, "[P20] containers do not return their memory");
   }

   using Key = TAT::pmr::vector<int>;
   // containers in nested scopes against containers on the heap
   template<std::size_t size>
   void scope(Rng& r, int depth, std::vector<std::pair<TAT::pmr::vector<long>*, std::vector<long>*>> outer) {
      auto before = TAT::pmr::get_default_resource();
      {
         TAT::scope_resource<size> guard;
         mon::require(TAT::pmr::get_default_resource() != before, "[P20] a scope does not install its working memory");
         TAT::pmr::vector<long> a;
         std::vector<long> b;
         TAT::pmr::map<Key, long> c;
         std::map<std::vector<int>, long> d;
         TAT::pmr::set<char> e;
         std::set<char> f;
         TAT::pmr::list<char> g;
         std::vector<char> h;
         outer.push_back({&a, &b});
         for (int k = r.range(1, 30); k-- > 0;) {
            switch (r.range(0, 5)) {
               case 0:
               case 1: { // a container of an outer scope may grow in an inner one
                  auto& [x, y] = outer[r.range(0, outer.size() - 1)];
                  long n = r.range(1, 20);
                  for (long i = 0; i < n; i++) {
                     long v = r.range(0, 1000);
                     x->push_back(v);
                     y->push_back(v);
                  }
                  break;
               }
               case 2: {
                  std::vector<int> key;
                  for (int i = r.range(0, 6); i-- > 0;)
                     key.push_back(r.range(0, 3));
                  long v = r.range(0, 1000);
                  c[Key(key.begin(), key.end())] = v;
                  d[key] = v;
                  break;
               }
               case 3: {
                  char v = r.range(0, 50);
                  e.insert(v);
                  f.insert(v);
                  break;
               }
               case 4: {
                  char v = r.range(0, 50);
                  g.push_back(v);
                  h.push_back(v);
                  if (r.chance(30)) {
                     g.pop_front();
                     h.erase(h.begin());
                  }
                  break;
               }
               default:
                  if (depth > 0)
                     r.chance(50) ? scope<16>(r, depth - 1, outer) : scope<256>(r, depth - 1, outer);
                  if (!d.empty() && r.chance(50)) {
                     auto i = std::next(d.begin(), r.range(0, d.size() - 1));
                     c.erase(Key(i->first.begin(), i->first.end()));
                     d.erase(i);
                  }
            }
         }
         for (auto& [x, y] : outer)
            mon::require(std::equal(x->begin(), x->end(), y->begin(), y->end()), "[P20] a vector in working memory changed");
         mon::require(c.size() == d.size() && std::equal(c.begin(), c.end(), d.begin(),
                                                         [](auto& x, auto& y) {
                                                            return x.second == y.second && std::equal(x.first.begin(), x.first.end(), y.first.begin(), y.first.end());
                                                         }),
                      "[P20] a map in working memory changed");
         mon::require(std::equal(e.begin(), e.end(), f.begin(), f.end()), "[P20] a set in working memory changed");
         mon::require(std::equal(g.begin(), g.end(), h.begin(), h.end()), "[P20] a list in working memory changed");
         mon::count("scopes");
      }
      mon::require(TAT::pmr::get_default_resource() == before, "[P20] working memory was not restored at the end of a scope");
   }
} // namespace

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long) {
      pieces(r);
      mon::describe("containers in different memory");
      owners(r);
      mon::describe("nested scopes");
      switch (r.range(0, 2)) {
         case 0:
            scope<8>(r, 2, {});
            break;
         case 1:
            scope<100>(r, 2, {});
            break;
         default:
            scope<4096>(r, 3, {});
      }
   });
}
