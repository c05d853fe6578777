// P16: transfers and collectives between processes.
#include "edgeop.hpp"
#include "ranks.hpp"
using namespace gen;
using TAT::operator<;
using TAT::operator>;
using ranks::own;

static Tensor zero_block_tensor(const RT& t) {
   return make_tensor(t);
}

int main(int argc, char** argv) {
   ranks::begin(argc, argv);
   const int size = own().size, rank = own().rank;
   // Names travel as numbers: every process has met names in an order of its own, then takes over the dictionary of one of them.
   auto dictionary = [&](Rng& r) {
      for (int i = 0; i < 3 + rank * 3; i++)
         Name("private" + std::to_string(rank) + "_" + std::to_string(own().schedule.range(0, 20)));
      const int root = r.range(0, size - 1);
      const auto mine = TAT::dump_fast_name_dataset();
      TAT::load_fast_name_dataset(TAT::mpi.broadcast(mine, root));
      mon::require(rank != root || TAT::dump_fast_name_dataset() == mine, "the dictionary of the root changed");
      mon::count("dictionary taken over");
   };
   int rc = mon::run(argc, argv, [&](Rng& r, long c) {
      ranks::beat();
      mon::require(TAT::mpi.size == size && TAT::mpi.rank == rank, "the library's idea of size or rank is wrong");
      mon::describe("dictionary");
      if (c % 40 == 0)
         dictionary(r);
      for (int i = 0; i < 10; i++) // new names have to appear in the same order everywhere
         Name("e" + std::to_string(i));
      const long n = r.range(1, 6);
      std::string log = config_name() + " np " + std::to_string(size);
      bool in_step = false;
      for (long step = 0; step < n; step++) {
         const int kind = r.range(0, 9);
         const int root = r.range(0, size - 1), other = r.range(0, size - 1);
         Opt o;
         o.rank_max = 4;
         o.max_elements = r.chance(10) ? 4000 : 300;
         if (r.chance(10))
            o.dim_max = 12;
         o.zero_dim = 5;
         o.unbalanced = 20;
         o.unique = true;
         const bool as_method = r.chance(50);
         // what every process contributes is known to every process
         const RT shape = tensor(r, o);
         std::vector<RT> all;
         for (int p = 0; p < size; p++) {
            if (kind == 1 || kind == 2) {
               RT t = shape;
               Opt q;
               q.magnitude = 50;
               fill(r, t, q);
               all.push_back(t);
            } else
               all.push_back(tensor(r, o));
         }
         Tensor mine = make_tensor(all[rank]);
         const auto before = image(mine);
         ranks::pause();
         switch (kind) {
            case 0:
            case 3: { // broadcast
               log += " broadcast(" + std::to_string(root) + ")";
               mon::describe(log + " " + ref::describe(all[root]));
               Tensor got = as_method ? mine.broadcast(root) : TAT::mpi.broadcast(mine, root);
               mon::require(image(got) == image(make_tensor(all[root])), "broadcast: process " + std::to_string(rank) + " does not have the root's tensor");
               mon::count("broadcast");
               // a value of its own
               for (auto& [_, b] : got.core->blocks)
                  if (got.core.use_count() == 1)
                     for (auto& x : b)
                        x += 1;
               break;
            }
            case 1:
            case 2: { // reduce by addition
               log += " reduce(" + std::to_string(root) + ")";
               mon::describe(log + " " + ref::describe(shape));
               RT sum = all[0];
               for (int p = 1; p < size; p++)
                  for (std::size_t i = 0; i < sum.d.size(); i++)
                     sum.d[i] += all[p].d[i];
               auto add = [](const Tensor& a, const Tensor& b) { return Tensor(a + b); };
               Tensor got = as_method ? mine.reduce(root, add) : TAT::mpi.reduce(mine, root, add);
               if (rank == root)
                  expect(sum, got, 0, "reduce");
               mon::count("reduce");
               break;
            }
            case 4:
            case 5: { // point to point
               log += " send_receive(" + std::to_string(root) + "," + std::to_string(other) + ")";
               mon::describe(log + " " + ref::describe(all[root]));
               Tensor got = as_method ? mine.send_receive(root, other) : TAT::mpi.send_receive(mine, root, other);
               if (rank == other)
                  mon::require(image(got) == image(make_tensor(all[root])), "send_receive: the destination does not have the source's tensor");
               else
                  mon::require(image(got) == image(Tensor()), "send_receive: a process that is not the destination got something");
               mon::count(root == other ? "transfer to itself" : "transfer");
               break;
            }
            case 6: { // texts: every contribution once
               log += " reduce text(" + std::to_string(root) + ")";
               mon::describe(log);
               const std::string text = "<" + std::to_string(rank) + ":" + std::string(r.range(0, 3), 'x') + ">";
               std::vector<std::string> want;
               std::string got = TAT::mpi.reduce(text, root, [](const std::string& a, const std::string& b) { return a + b; });
               if (rank == root) {
                  for (int p = 0; p < size; p++) {
                     const std::string mark = "<" + std::to_string(p) + ":";
                     const auto first = got.find(mark);
                     mon::require(first != std::string::npos, "reduce: the contribution of process " + std::to_string(p) + " is missing");
                     mon::require(got.find(mark, first + 1) == std::string::npos, "reduce: the contribution of process " + std::to_string(p) + " was used twice");
                  }
                  mon::require((long)std::count(got.begin(), got.end(), '<') == size, "reduce: there are contributions nobody made");
               }
               mon::count("reduce text");
               break;
            }
            case 7: { // numbers and texts
               log += " broadcast text(" + std::to_string(root) + ")";
               mon::describe(log);
               const long length = r.chance(20) ? r.range(5000, 200000) : r.range(0, 30);
               auto text = [&](int p) { return std::string(length + p, char('a' + p)); };
               mon::require(TAT::mpi.broadcast(text(rank), root) == text(root), "broadcast: wrong text");
               mon::require(TAT::mpi.broadcast(rank * 1.5, root) == root * 1.5, "broadcast: wrong number");
               std::vector<double> v(rank + 1, rank);
               mon::require(TAT::mpi.broadcast(v, root) == std::vector<double>(root + 1, root), "broadcast: wrong list");
               mon::require(TAT::mpi.send_receive(rank + 100, root, other) == (rank == other ? root + 100 : 0), "send_receive: wrong number");
               mon::count("broadcast of texts, numbers and lists");
               break;
            }
            case 8: { // explicit ring of sends, even processes first
               log += " ring";
               mon::describe(log);
               if (size > 1) {
                  const int next = (rank + 1) % size, last = (rank + size - 1) % size;
                  Tensor got;
                  if (rank % 2 == 0) {
                     mine.send(next);
                     if (size % 2 == 1 && rank == 0) {
                        got = Tensor::receive(last);
                     } else
                        got = Tensor::receive(last);
                  } else {
                     got = Tensor::receive(last);
                     mine.send(next);
                  }
                  mon::require(image(got) == image(make_tensor(all[last])), "ring: not the tensor the neighbour sent");
                  mon::count("ring");
               }
               break;
            }
            case 9: { // barrier
               log += " barrier";
               mon::describe(log);
               if (r.range(0, size) == rank)
                  std::this_thread::sleep_for(std::chrono::microseconds(500));
               double enter = ranks::now();
               if (as_method)
                  Tensor::barrier();
               else
                  TAT::mpi.barrier();
               double leave = ranks::now();
               double last_enter, first_leave;
               PMPI_Allreduce(&enter, &last_enter, 1, MPI_DOUBLE, MPI_MAX, own().comm);
               PMPI_Allreduce(&leave, &first_leave, 1, MPI_DOUBLE, MPI_MIN, own().comm);
               mon::require(last_enter <= first_leave, "barrier: a process left it before another one entered");
               mon::count("barrier");
               break;
            }
         }
         mon::require(image(mine) == before, "the operand changed");
      }
      mon::describe(log);
      ranks::barrier();
      mon::require(!ranks::leftover(), "a message was left that nobody received");
      ranks::barrier();
      if (size > 1) {
         for (int bad : {-1, size, size + 3}) {
            bool refused = false;
            try {
               if (r.chance(50))
                  (void)TAT::mpi.broadcast(1.0, bad);
               else
                  (void)TAT::mpi.reduce(1.0, bad, [](double a, double b) { return a + b; });
            } catch (const std::exception&) {
               refused = true;
            }
            mon::require(refused, "an impossible root is not refused");
         }
      }
      if (rank == 0)
         mon::nontrivial(log);
      if (c < 3)
         mon::sample(log);
   });
   mon::count("messages sent", own().sends);
   mon::count("messages received", own().receives);
   mon::count("messages sent synchronously", own().synchronous);
   mon::count("bytes sent", own().bytes);
   if (rc == 0)
      mon::write_out();
   ranks::end();
   return rc;
}
