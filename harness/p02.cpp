// P02: transposition against the element-wise model.
#include "gen.hpp"
using namespace gen;

int main(int argc, char** argv) {
   return mon::run(argc, argv, [](Rng& r, long c) {
      Opt o;
      o.unique = true;
      bool large = false;
      const int kind = r.range(0, 9);
      if (kind < 5) {
         o.rank_max = 6;
      } else if (kind < 7) { // many short edges
         o.rank_min = 5;
         o.rank_max = 9;
         o.dim_max = 2;
         o.charges_max = is_no ? 1 : 2;
         o.zero_dim = 0;
         o.max_elements = 3000;
      } else if (kind < 8) { // long lines: the inner loops are specialised by line length
         o.rank_min = 2;
         o.rank_max = 4;
         o.dim_max = 20;
         o.charges_max = 2;
         o.zero_dim = 0;
         o.max_elements = 4000;
      } else if (c % 4 == 0) { // blocks beyond the cache threshold
         large = true;
      }
      RT t;
      if (large) {
         // one block of more than 98304 bytes
         const long need = 98304 / sizeof(Scalar) + r.range(0, 6000);
         const long rank = r.range(2, 5);
         std::vector<REdge> e(rank);
         std::vector<long> dims(rank, 1);
         if (rank > 2 && r.chance(6)) { // contiguous lines of more than 65536 elements
            dims[0] = 2;
            dims[1] = r.range(1, 2);
            dims[rank - 1] = 65536 + r.range(0, 3000);
            mon::count("tensors with lines above 65536 elements");
         }
         while (ref::product(dims) < need)
            dims[r.range(0, rank - 1)] += r.range(1, 3);
         Q sum;
         for (long i = 0; i < rank; i++) {
            Q q = i + 1 == rank ? -sum : is_no ? Q() : charge(r);
            sum = sum + q;
            e[i].dims[q] = dims[i];
            e[i].arrow = is_fermi && r.chance(50);
         }
         if (!is_no && r.chance(50) && rank > 2) { // a second, small block
            Q q = charge(r);
            auto a = e[0].dims.begin()->first, b = e[1].dims.begin()->first;
            if (q != Q()) {
               e[0].dims.insert({a + q, 1});
               e[1].dims.insert({b + -q, 1});
            }
         }
         t = with_edges(r, fresh(rank, "e", &r), e, o);
         mon::count("tensors with a block above the cache threshold");
      } else
         t = tensor(r, o);
      Names order = t.names;
      const int p = r.range(0, 5);
      if (p == 0)
         std::reverse(order.begin(), order.end());
      else if (p == 1 && order.size() > 1) // keep a tail
         std::rotate(order.begin(), order.begin() + 1, order.begin() + r.range(1, order.size()));
      else if (p == 2 && order.size() > 1) // matrix-like
         std::rotate(order.begin(), order.begin() + r.range(1, order.size() - 1), order.end());
      else if (p != 3 || r.chance(50))
         r.shuffle(order);
      std::string what = config_name() + " transpose " + ref::describe(t) + " to " + ref::str(order);
      mon::describe(what);
      const Tensor T = make_tensor(t);
      const auto before = image(T);
      Tensor R = T.transpose(names_of(order));
      RT want = ref::transpose(t, order);
      expect(want, R, 0, "transpose");
      mon::observe(want.d.size());
      mon::require(image(T) == before, "transpose changed its operand");
      // there and back
      RT again = back(R.transpose(names_of(t.names)));
      std::string d = ref::diff(t, again, 0, is_fermi);
      mon::require(d.empty(), "transposing back: " + d);
      if (order != t.names && t.d.size() > 1) {
         mon::nontrivial(what);
         mon::count("non-identity permutations");
         mon::sample(what);
      }
      if (is_fermi) {
         long neg = 0;
         RT plain = want;
         for (auto& v : plain.d)
            if (v.real() < 0)
               neg++;
         if (neg)
            mon::count("cases with exchange signs");
      }
   });
}
