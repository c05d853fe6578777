// P19: what a program writes and computes, as lines to be compared between builds.
#include "edgeop.hpp"
using namespace gen;
using TAT::operator<;
using TAT::operator>;

static std::string hex(const std::string& s) {
   std::uint64_t h = 1469598103934665603ull;
   for (unsigned char c : s)
      h = (h ^ c) * 1099511628211ull;
   std::ostringstream o;
   o << std::hex << h << std::dec << " " << s.size();
   return o.str();
}
// elements by name, whatever the order of the edges
static std::string values(RT t) {
   auto n = t.names;
   std::sort(n.begin(), n.end());
   t = ref::transpose(t, n);
   std::ostringstream o;
   o << ref::describe(t);
   for (auto& x : t.d)
      o << " " << x.real() << "," << x.imag();
   return hex(o.str());
}
static std::string line(std::string s) {
   for (auto& c : s)
      if (c == '\n')
         c = ' ';
   return s;
}

int main(int argc, char** argv) {
   const char* path = std::getenv("VERIF_TRACE");
   std::ofstream trace(path ? path : "/dev/null");
   for (char a = 'a'; a <= 'g'; a++) // the same order of names whatever they are made of
      for (int i = 0; i < 8; i++)
         Name(std::string(1, a) + std::to_string(i));
   return mon::run(argc, argv, [&](Rng& r, long c) {
      Opt o;
      o.rank_max = 4;
      o.max_elements = 300;
      o.zero_dim = 4;
      o.unbalanced = 15;
      RT t = tensor(r, o);
      const std::string what = config_name() + " " + ref::describe(t);
      mon::describe(what);
      Tensor T = make_tensor(t);
      auto put = [&](char kind, const std::string& label, const std::string& text) {
         trace << kind << " " << c << " " << label << " " << line(text) << "\n";
         mon::observe();
         mon::count(std::string("lines ") + label);
      };
      auto both = [&](const std::string& label, const Tensor& x) {
         put('T', label, values(back(x)));
         std::ostringstream text;
         text << x;
         put('T', label + " text", text.str().size() > 300 ? hex(text.str()) : text.str());
         if constexpr (is_no || std::is_same_v<Sym, TAT::Z2Symmetry> || std::is_same_v<Sym, TAT::U1Symmetry>) {
            std::ostringstream b;
            b < x;
            put('B', label + " binary", hex(b.str()));
         }
      };
      both("tensor", T);
      auto names = t.names;
      r.shuffle(names);
      both("transpose", T.transpose(names_of(names)));
      both("conjugate", T.conjugate());
      put('T', "norms", std::to_string(T.template norm<1>()) + " " + std::to_string(T.template norm<0>()) + " " + std::to_string(T.template norm<-1>()));
      // with itself, conjugated, over some of the edges
      ref::Pairs p;
      std::map<Name, Name> rename;
      int k = 0;
      for (auto& n : t.names) {
         rename[Name(n)] = Name("f" + std::to_string(k++));
         if (p.empty() || (!is_fermi && r.chance(50)))
            p.push_back({n, "f" + std::to_string(k - 1)});
      }
      Tensor D = T.conjugate().edge_rename(rename);
      both("contract", T.contract(D, pair_set(p)));
      both("sum", T + T.transpose(names_of(names)));
      if (names.size() >= 2) {
         std::map<Name, std::vector<Name>> m{{Name("g0"), {Name(names[0]), Name(names[1])}}};
         both("merge", T.merge_edge(m));
      }
      {
         std::stringstream s;
         s < T;
         Tensor back_again;
         s > back_again;
         both("read", back_again);
         std::stringstream u;
         u << T;
         Tensor again;
         u >> again;
         both("read text", again);
      }
      mon::nontrivial(what);
      mon::sample(what);
   });
}
