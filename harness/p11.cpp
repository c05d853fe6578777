// P11: elementwise arithmetic.
#include "edgeop.hpp"
using namespace gen;
#ifndef OTHER
#define OTHER SCALAR
#endif
using Other = OTHER;
using Real = TAT::real_base_t<Scalar>;

static ref::cplx ev(int op, ref::cplx a, ref::cplx b) {
   return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}
template<class A, class B>
static auto lib(int op, const A& a, const B& b) {
   return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : a / b;
}
template<class A, class B>
static void in_place(int op, A& a, const B& b) {
   if (op == 0)
      a += b;
   else if (op == 1)
      a -= b;
   else if (op == 2)
      a *= b;
   else
      a /= b;
}
static void nonzero(RT& t, Rng& r) {
   auto p = ref::positions(t);
   ref::each(t.shape(), [&](const std::vector<long>& idx, long k) {
      Q s;
      for (std::size_t i = 0; i < idx.size(); i++)
         s = s + p[i][idx[i]].first;
      if (s == Q() && t.d[k] == 0.)
         t.d[k] = r.range(1, 3);
   });
}
static RT combine(int op, const RT& a, const RT& b0) {
   RT b = ref::transpose(b0, a.names);
   std::vector<REdge> e = a.edges;
   for (std::size_t i = 0; i < e.size(); i++)
      for (auto& [q, d] : b.edges[i].dims)
         e[i].dims[q] = d;
   RT x = ref::widen(a, e), y = ref::widen(b, e), z = x;
   auto p = ref::positions(x);
   ref::each(x.shape(), [&](const std::vector<long>& idx, long k) {
      Q s;
      for (std::size_t i = 0; i < idx.size(); i++)
         s = s + p[i][idx[i]].first;
      z.d[k] = s == Q() ? ev(op, x.d[k], y.d[k]) : 0;
   });
   return ref::prune(z);
}
static const char* names[] = {"+", "-", "*", "/"};

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.rank_max = 5;
      o.max_elements = 500;
      o.zero_dim = 3;
      if (r.chance(10)) {
         o.rank_max = 2;
         o.dim_max = 40;
         o.max_elements = 3000;
      }
      const int op = r.range(0, 3);
      const double tol = op == 3 ? 40 * eps : 0;
      RT a = tensor(r, o);
      // same edges, possibly with quantum numbers of its own, in another order
      std::vector<REdge> e = a.edges;
      const bool extra = !is_no && op != 3 && r.chance(40);
      if (extra)
         for (auto& x : e) {
            if (r.chance(40)) {
               Q q = charge(r);
               if (!x.dims.count(q))
                  x.dims[q] = r.range(1, 2);
            }
            if (r.chance(30) && x.dims.size() > 1)
               x.dims.erase(x.dims.begin());
         }
      if (!fits(e, 4000))
         return;
      RT b = with_edges(r, a.names, e, o);
      Names order = b.names;
      if (r.chance(60))
         r.shuffle(order);
      b = ref::transpose(b, order);
      if (op == 3)
         nonzero(b, r);
      std::string what = config_name() + " " + ref::describe(a) + " " + names[op] + " " + ref::describe(b);
      mon::describe(what);
      const Tensor A = make_tensor(a), B = make_tensor(b);
      const auto ia = image(A), ib = image(B);
      RT want = combine(op, a, b);
      expect(want, lib(op, A, B), tol * (1 + ref::max_abs(want)), std::string("tensor ") + names[op] + " tensor");
      mon::observe(want.d.size());
      mon::require(image(A) == ia && image(B) == ib, "an operand was changed");
      bool same_shape = true;
      {
         RT bt = ref::transpose(b, a.names);
         for (std::size_t i = 0; i < a.rank(); i++)
            same_shape = same_shape && a.edges[i].dims == bt.edges[i].dims;
      }
      if (same_shape) {
         Tensor X = A; // shares its data with A
         in_place(op, X, B);
         expect(want, X, tol * (1 + ref::max_abs(want)), std::string("tensor ") + names[op] + "= tensor");
         mon::require(image(A) == ia && image(B) == ib, "an operand was changed by the in-place form");
         Tensor Y = A.copy();
         in_place(op, Y, B);
         mon::require(image(X) == image(Y), "in place on shared and on unshared data differ");
         if (op != 3) {
            Tensor Z = A.copy();
            in_place(op, Z, Z);
            expect(combine(op, a, a), Z, 0, std::string("in place with itself ") + names[op]);
         }
         mon::count("in place");
      } else
         mon::count("different quantum numbers");
      // numbers
      ref::cplx n = is_cplx ? ref::cplx(r.range(1, 4), r.range(-3, 3)) : ref::cplx(r.range(1, 4));
      if (r.chance(30))
         n = -n;
      Scalar num = from_c<Scalar>(n);
      auto elementwise = [&](const RT& t, auto&& f) {
         RT z = t;
         auto p = ref::positions(t);
         ref::each(t.shape(), [&](const std::vector<long>& idx, long k) {
            Q s;
            for (std::size_t i = 0; i < idx.size(); i++)
               s = s + p[i][idx[i]].first;
            if (s == Q())
               z.d[k] = f(t.d[k]);
         });
         return z;
      };
      RT w = elementwise(a, [&](ref::cplx v) { return ev(op, v, n); });
      expect(w, lib(op, A, num), tol * (1 + ref::max_abs(w)), std::string("tensor ") + names[op] + " number");
      {
         Tensor X = A;
         in_place(op, X, num);
         expect(w, X, tol * (1 + ref::max_abs(w)), std::string("tensor ") + names[op] + "= number");
      }
      Real rn = Real(n.real());
      w = elementwise(a, [&](ref::cplx v) { return ev(op, v, ref::cplx(n.real())); });
      {
         Tensor X = A;
         in_place(op, X, rn);
         expect(w, X, tol * (1 + ref::max_abs(w)), std::string("tensor ") + names[op] + "= real number");
      }
      RT nz = a;
      if (op == 3)
         nonzero(nz, r);
      w = elementwise(nz, [&](ref::cplx v) { return ev(op, n, v); });
      expect(w, lib(op, num, make_tensor(nz)), tol * (1 + ref::max_abs(w)), std::string("number ") + names[op] + " tensor");
      mon::require(image(A) == ia, "an operand was changed by arithmetic with a number");
      // conversions
      auto convert = [&](auto tag, const char* n) {
         using V = decltype(tag);
         RT z = a;
         if (!TAT::is_complex_v<V>)
            for (auto& v : z.d)
               v = v.real();
         auto R = A.template to<V>();
         expect(z, R, 0, std::string("conversion to ") + n);
      };
      convert(float(), "float");
      convert(double(), "double");
      if constexpr (!is_single || !is_cplx || true) {
         convert(std::complex<float>(), "complex float");
         convert(std::complex<double>(), "complex double");
      }
      mon::require(image(A) == ia, "a conversion changed its operand");
      if constexpr (!std::is_same_v<Other, Scalar>) {
         RT bo = b;
         if (!TAT::is_complex_v<Other>)
            for (auto& v : bo.d)
               v = v.real();
         if (op == 3)
            nonzero(bo, r);
         auto Bo = make_tensor_of<TAT::Tensor<Other, Sym, Name>>(bo);
         RT ww = combine(op, a, bo);
         expect(ww, lib(op, A, Bo), tol * (1 + ref::max_abs(ww)), std::string("tensor ") + names[op] + " tensor of another scalar type");
         if (op != 3) {
            RT rev = combine(op, bo, a);
            expect(rev, lib(op, Bo, A), tol * (1 + ref::max_abs(rev)), std::string("tensor of another scalar type ") + names[op] + " tensor");
         }
         mon::count("mixed scalar types");
      }
      if (a.d.size() > 1) {
         mon::nontrivial(what);
         mon::sample(what);
      }
   });
}
