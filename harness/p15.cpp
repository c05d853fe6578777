// P15: text output and input.
#include "edgeop.hpp"
using namespace gen;
using Real = TAT::real_base_t<Scalar>;
using Single = typename Tensor::SingularType;

static Real value(Rng& r) {
   switch (r.range(0, 9)) {
      case 0:
         return 0;
      case 1:
         return Real(r.range(-1000, 1000));
      case 2:
         return Real((r.real() - 0.5) * 1e-20);
      case 3:
         return Real((r.real() - 0.5) * 1e20);
      case 4:
         return Real(is_single ? (r.real() - 0.5) * 1e38 : (r.real() - 0.5) * 1e300);
      case 5:
         return Real(is_single ? (r.real() - 0.5) * 1e-36 : (r.real() - 0.5) * 1e-300);
      case 6:
         return -Real(0);
      case 7:
         return Real(r.range(-3, 3)) / Real(r.range(1, 7));
      default:
         return Real(r.real() * 2 - 1);
   }
}
template<class S = Scalar>
static S number(Rng& r) {
   if constexpr (is_cplx)
      return S(value(r), value(r));
   else
      return value(r);
}
static bool close_part(double a, double b, int digits) {
   if (digits > 15 || (is_single && digits > 8))
      return a == b;
   return std::abs(a - b) <= 0.50001 * std::pow(10., 1 - digits) * std::abs(a) + (is_single ? 2e-45 : 0);
}
static bool close(Scalar a, Scalar b, int digits) {
   auto x = to_c(a), y = to_c(b);
   return close_part(x.real(), y.real(), digits) && close_part(x.imag(), y.imag(), digits);
}
static std::string random_name(Rng& r) {
   static const std::string good = [] { // printable, without the characters that separate names
      std::string s;
      for (char c = '!'; c <= '~'; c++)
         if (c != ',' && c != '[' && c != ']')
            s += c;
      return s;
   }();
   std::string s;
   long n = r.chance(5) ? r.range(20, 200) : r.range(1, 10);
   for (long i = 0; i < n; i++)
      s += good[r.range(0, good.size() - 1)];
   return s;
}

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.rank_max = 6;
      o.max_elements = 300;
      o.zero_dim = 6;
      o.unbalanced = 20;
      const long n = r.chance(60) ? 1 : r.range(2, 4);
      const int full = is_single ? 9 : 17;
      const int digits = r.chance(50) ? full : r.chance(50) ? 6 : r.range(1, 6);
      std::vector<Tensor> list;
      std::vector<Single> singles;
      std::string what = config_name() + " text with " + std::to_string(digits) + " digits";
      std::stringstream s;
      s.precision(digits);
      for (long i = 0; i < n; i++) {
         RT t = tensor(r, o);
         std::set<std::string> used;
         for (auto& m : t.names) {
            if (r.chance(50))
               m = random_name(r);
            if (!used.insert(m).second)
               m += "x" + std::to_string(used.size());
            used.insert(m);
         }
         if (std::set<std::string>(t.names.begin(), t.names.end()).size() != t.names.size())
            return;
         Tensor T = make_tensor(t);
         T.transform([&](Scalar) { return number(r); });
         list.push_back(T);
         what += " " + ref::describe(t);
         const auto before = image(T);
         s << T;
         mon::require(image(T) == before, "printing changed the tensor");
         if (r.chance(50))
            s << '?';
         else
            s << "\n";
         Single g;
         long k = is_no ? 1 : r.range(0, 3);
         g.value.clear();
         for (long j = 0; j < k; j++) {
            auto& v = g.value[is_no ? Sym() : sym(charge(r))];
            v.resize(r.range(0, 4));
            for (auto& y : v)
               y = std::abs(value(r));
         }
         singles.push_back(g);
         s << g << "\n";
      }
      mon::describe(what);
      const std::string all = s.str();
      for (long i = 0; i < n; i++) {
         Tensor T;
         if (r.chance(50))
            T = make_tensor(tensor(r, o));
         s >> T;
         mon::require(bool(s), "reading failed");
         std::string bad = ill_formed(T);
         mon::require(bad.empty(), "tensor read back is malformed: " + bad);
         const Tensor& L = list[i];
         mon::require(T.names == L.names && T.core->edges == L.core->edges, "names or edges after reading back");
         mon::require(T.core->blocks.size() == L.core->blocks.size(), "blocks after reading back");
         for (const auto& [key, b] : L.core->blocks) {
            const auto& g = T.core->blocks.at(key);
            mon::require(g.size() == b.size(), "size of a block after reading back");
            for (std::size_t k = 0; k < b.size(); k++)
               mon::require(close(b[k], g[k], digits), "an element after reading back");
         }
         std::ostringstream again, before;
         again.precision(digits);
         before.precision(digits);
         again << T;
         before << L;
         if (digits <= (is_single ? 6 : 15) || digits == full) {
            // "-0" is printed for a real negative zero and read back as such; complex zeros print as 0
            mon::require(again.str() == before.str(), "printing what was read gives another text: " + before.str() + " -> " + again.str());
         }
         char sep = s.get();
         mon::require(sep == '?' || sep == '\n', "did not read exactly the text of the tensor");
         Single g;
         if (r.chance(50))
            g.value[Sym()].resize(2);
         s >> g;
         mon::require(bool(s), "reading singular values failed");
         mon::require(g.value.size() == singles[i].value.size(), "quantum numbers of singular values after reading back");
         for (const auto& [key, b] : singles[i].value) {
            const auto& v = g.value.at(key);
            mon::require(v.size() == b.size(), "number of singular values after reading back");
            for (std::size_t k = 0; k < b.size(); k++)
               mon::require(close_part(b[k], v[k], digits), "a singular value after reading back");
         }
         s.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
         // show() uses the default precision
         Tensor U;
         std::istringstream in(L.show());
         in >> U;
         mon::require(bool(in) && U.show() == L.show(), "reading what show() gives");
         std::istringstream in2(L.show());
         Tensor V;
         std::move(in2) >> V;
         mon::observe(L.template norm<0>());
      }
      // edges and quantum numbers by themselves, over fresh and occupied objects
      {
         using TAT::operator<<;
         using TAT::operator>>;
         std::stringstream s;
         std::vector<TAT::Edge<Sym>> edges;
         std::vector<Sym> numbers;
         for (long i = 0; i < r.range(1, 4); i++) {
            edges.push_back(make_edge(edge(r, o)));
            numbers.push_back(is_no ? Sym() : sym(charge(r)));
            s << edges.back() << '?' << numbers.back() << '?';
         }
         what += " edges " + s.str();
         mon::describe(what);
         for (std::size_t i = 0; i < edges.size(); i++) {
            auto e = r.chance(60) ? make_edge(edge(r, o)) : TAT::Edge<Sym>();
            s >> e;
            mon::require(bool(s) && s.get() == '?', "did not read exactly the text of an edge");
            mon::require(e == edges[i], "an edge after reading back");
            auto q = is_no ? Sym() : sym(charge(r));
            s >> q;
            mon::require(bool(s) && s.get() == '?', "did not read exactly the text of a quantum number");
            mon::require(q == numbers[i], "a quantum number after reading back");
         }
         mon::count("edges read back", edges.size());
      }
      mon::nontrivial(what);
      mon::sample(what);
   });
}
