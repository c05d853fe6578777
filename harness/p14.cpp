// P14: binary output and input.
#include "edgeop.hpp"
using namespace gen;
using TAT::operator<;
using TAT::operator>;

static std::string random_text(Rng& r, bool any) {
   static const std::string good = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-";
   std::string s;
   long n = r.chance(10) ? r.range(20, 300) : r.range(1, 12);
   for (long i = 0; i < n; i++)
      s += any ? char(r.range(1, 255)) : good[r.range(0, good.size() - 1)];
   return s;
}
// any bit pattern at all
static void any_bits(Rng& r, Tensor& t) {
   for (auto& [_, b] : t.core->blocks) {
      auto* p = reinterpret_cast<unsigned char*>(b.data());
      using Real = TAT::real_base_t<Scalar>;
      auto* v = reinterpret_cast<Real*>(b.data());
      for (std::size_t i = 0; i < b.size() * sizeof(Scalar); i++)
         p[i] = r.range(0, 255);
      for (std::size_t i = 0; i < b.size() * sizeof(Scalar) / sizeof(Real); i++)
         switch (r.range(0, 9)) {
            case 0:
               v[i] = std::numeric_limits<Real>::quiet_NaN();
               break;
            case 1:
               v[i] = -std::numeric_limits<Real>::infinity();
               break;
            case 2:
               v[i] = -Real(0);
               break;
            case 3:
               v[i] = std::numeric_limits<Real>::denorm_min();
               break;
            case 4:
               v[i] = r.range(-9, 9);
               break;
            case 5:
               v[i] = std::numeric_limits<Real>::max();
               break;
         }
   }
}
using Single = typename Tensor::SingularType;
static std::string image_s(const Single& s) {
   std::ostringstream o;
   for (const auto& [q, v] : s.value) {
      o << ref::str(from_sym(q)) << v.size() << ":";
      o.write(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(v[0]));
   }
   return o.str();
}
struct Object {
   int kind;
   Tensor t;
   Edge e;
   Name n;
   Sym s;
   Single g;
   std::string text;
};

int main(int argc, char** argv) {
   // texts of all names ever made, to test the dictionary
   static std::vector<std::string> texts;
   return mon::run(argc, argv, [](Rng& r, long c) {
#ifndef TAT_USE_SIMPLE_NAME
      static const std::string initial = TAT::dump_fast_name_dataset();
      if (c % 50 == 0) { // keep the dictionary small
         TAT::load_fast_name_dataset(initial);
         texts.clear();
      }
#endif
      Opt o;
      o.rank_max = 6;
      o.max_elements = 300;
      o.zero_dim = 6;
      o.unbalanced = 20;
      const long n = r.chance(50) ? 1 : r.range(2, 6);
      std::vector<Object> list;
      std::string what = config_name() + " binary";
      for (long i = 0; i < n; i++) {
         Object x;
         x.kind = r.chance(60) ? 0 : r.range(1, 5);
         RT t = tensor(r, o);
         for (auto& m : t.names)
            if (r.chance(30)) {
               m = random_text(r, true) + m;
               texts.push_back(m);
            }
         x.t = make_tensor(t);
         any_bits(r, x.t);
         x.e = make_edge(edge(r, o));
         x.n = Name(random_text(r, true));
         x.s = is_no ? Sym() : sym(charge(r));
         x.text = r.chance(10) ? "" : random_text(r, true);
         long k = is_no ? 1 : r.range(0, 4);
         x.g.value.clear();
         for (long j = 0; j < k; j++) {
            auto& v = x.g.value[is_no ? Sym() : sym(charge(r))];
            v.resize(r.range(0, 6));
            for (auto& y : v)
               y = r.chance(20) ? -0. : r.real() * 1e3;
         }
         what += x.kind == 0 ? " tensor " + ref::describe(t) : x.kind == 1 ? " edge" : x.kind == 2 ? " name" : x.kind == 3 ? " symmetry" : x.kind == 4 ? " singular" : " dump";
         list.push_back(x);
      }
      mon::describe(what);
      std::stringstream b(std::ios::in | std::ios::out | std::ios::binary);
      std::vector<long> at;
      for (auto& x : list) {
         const auto before = image(x.t);
         switch (x.kind) {
            case 0:
               if (r.chance(30))
                  x.t.meta_put(b).data_put(b);
               else
                  b < x.t;
               break;
            case 1:
               b < x.e;
               break;
            case 2:
               TAT::NameTraits<Name>::write(b, x.n);
               break;
            case 3:
               b < x.s;
               break;
            case 4:
               b < x.g;
               break;
            default:
               b < x.t.dump();
         }
         mon::require(bool(b), "writing failed");
         mon::require(image(x.t) == before, "writing changed the object");
         at.push_back(b.tellp());
      }
      b < Scalar(42);
      for (std::size_t i = 0; i < list.size(); i++) {
         auto& x = list[i];
         Tensor T;
         if (r.chance(50)) // over something else
            T = make_tensor(tensor(r, o));
         switch (x.kind) {
            case 0:
               if (r.chance(30))
                  T.meta_get(b).data_get(b);
               else
                  b > T;
               mon::require(image(T) == image(x.t), "tensor after a round trip");
               mon::require(ill_formed(T).empty(), "tensor read back is malformed: " + ill_formed(T));
               mon::observe(T.template norm<0>());
               break;
            case 1: {
               Edge e = r.chance(50) ? make_edge(edge(r, o)) : Edge();
               b > e;
               mon::require(e == x.e, "edge after a round trip");
               break;
            }
            case 2: {
               Name m("other");
               TAT::NameTraits<Name>::read(b, m);
               mon::require(m == x.n && name_str(m) == name_str(x.n), "name after a round trip");
               break;
            }
            case 3: {
               Sym s;
               b > s;
               mon::require(s == x.s, "quantum number after a round trip");
               break;
            }
            case 4: {
               Single g;
               if (r.chance(50))
                  g.value[Sym()].resize(3);
               b > g;
               mon::require(image_s(g) == image_s(x.g), "singular values after a round trip");
               Single h;
               h.load(x.g.dump());
               mon::require(image_s(h) == image_s(x.g), "singular values after dump and load");
               break;
            }
            default: {
               std::string d;
               b > d;
               T.load(d);
               mon::require(image(T) == image(x.t), "tensor after dump and load");
               Tensor U = Tensor().load(d);
               mon::require(image(U) == image(x.t), "tensor after dump and load of a temporary");
            }
         }
         mon::require(bool(b) && b.tellg() == at[i], "did not read exactly the bytes written");
      }
      Scalar end{};
      b > end;
      mon::require(end == Scalar(42), "what follows the objects is not where it was written");
      // the dictionary of names
#ifndef TAT_USE_SIMPLE_NAME
      if (c % 7 == 0) {
         const std::string now = TAT::dump_fast_name_dataset();
         std::vector<std::pair<std::string, Name>> sample;
         for (int k = 0; k < 20 && !texts.empty(); k++) {
            std::string x = r.pick(texts);
            sample.push_back({x, Name(x)});
         }
         const std::string bytes = list[0].t.dump();
         const auto im = image(list[0].t);
         std::vector<Name> later; // names unknown to the saved dictionary
         for (int k = 0; k < 5; k++)
            later.push_back(Name("later" + std::to_string(c) + "_" + std::to_string(k)));
         const std::string full = TAT::dump_fast_name_dataset();
         // a process with other names in its dictionary
         TAT::load_fast_name_dataset(now);
         for (auto& [x, m] : sample)
            mon::require(name_str(m) == x && Name(x) == m, "a name lost its meaning when the dictionary was read back");
         mon::require(TAT::dump_fast_name_dataset() == now, "dictionary after a round trip");
         Tensor T;
         T.load(bytes);
         mon::require(image(T) == im, "tensor read with the dictionary read back");
         Name fresh1("fresh" + std::to_string(c)), fresh2("fresh2" + std::to_string(c));
         mon::require(name_str(fresh1) == "fresh" + std::to_string(c) && fresh1 != fresh2, "names made after reading the dictionary");
         for (auto& [x, m] : sample)
            mon::require(m != fresh1 && m != fresh2 && name_str(m) == x, "a new name collides with one of the dictionary");
         TAT::load_fast_name_dataset(full);
         for (int k = 0; k < 5; k++)
            mon::require(name_str(later[k]) == "later" + std::to_string(c) + "_" + std::to_string(k), "later names after restoring the dictionary");
         TAT::load_fast_name_dataset(now);
         mon::count("dictionary round trips");
      }
#endif
      mon::nontrivial(what);
      mon::sample(what);
   });
}
