// Several processes running the same cases: schedule perturbation through the MPI profiling interface, a watchdog, and agreement on when to stop.
#pragma once
#include <mpi.h>

#include <atomic>
#include <chrono>
#include <thread>

#include "mon.hpp"

namespace ranks {
   struct Own {
      int size = 1, rank = 0;
      MPI_Comm comm = MPI_COMM_NULL; // of the monitor, never seen by the library
      mon::Rng schedule{1};
      std::atomic<long> beat{0};
      long sends = 0, receives = 0, bytes = 0, synchronous = 0;
      std::vector<std::string> arguments;
      std::vector<char*> pointers;
   };
   inline Own& own() {
      static Own* o = new Own();
      return *o;
   }
   inline void pause() {
      auto& o = own();
      if (o.comm == MPI_COMM_NULL || o.size == 1)
         return;
      long what = o.schedule.range(0, 99);
      if (what < 10)
         std::this_thread::sleep_for(std::chrono::microseconds(o.schedule.range(1, 300)));
      else if (what < 30)
         std::this_thread::yield();
   }
   inline void barrier() {
      PMPI_Barrier(own().comm);
   }
   inline void fail_all() {
      mon::write_out();
      PMPI_Abort(MPI_COMM_WORLD, 1);
      _exit(1);
   }
   // a message nobody received
   inline bool leftover() {
      int flag = 0;
      MPI_Status status;
      for (int i = 0; i < 3; i++)
         PMPI_Iprobe(MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD, &flag, &status);
      return flag;
   }
   inline double now() {
      return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
   }
   // the library has already called MPI_Init when this is called
   inline void begin(int& argc, char**& argv, double patience = 100) {
      auto& o = own();
      PMPI_Comm_size(MPI_COMM_WORLD, &o.size);
      PMPI_Comm_rank(MPI_COMM_WORLD, &o.rank);
      PMPI_Comm_dup(MPI_COMM_WORLD, &o.comm);
      std::uint64_t seed = 1;
      for (int i = 0; i < argc; i++) {
         o.arguments.push_back(argv[i]);
         if (i && std::string(argv[i - 1]) == "--out" && o.size > 1)
            o.arguments.back() += ".rank" + std::to_string(o.rank);
         if (i && std::string(argv[i - 1]) == "--seed")
            seed = std::stoull(argv[i]);
      }
      o.schedule = mon::Rng(mon::mix(seed, 1000 + o.rank));
      for (auto& a : o.arguments)
         o.pointers.push_back(a.data());
      argv = o.pointers.data();
      argc = o.pointers.size();
      auto& s = mon::state();
      s.on_violation = [] {
         if (own().size > 1)
            fail_all();
      };
      s.agree = [](bool late) {
         int x = late, y = 0;
         PMPI_Allreduce(&x, &y, 1, MPI_INT, MPI_MAX, own().comm);
         return y != 0;
      };
      std::thread([patience] {
         long last = -1;
         double since = now();
         for (;;) {
            std::this_thread::sleep_for(std::chrono::milliseconds(200));
            long b = own().beat;
            if (b != last) {
               last = b;
               since = now();
            } else if (b > 0 && now() - since > patience) {
               mon::state().violations.push_back({mon::state().current, "no progress for " + std::to_string(int(patience)) + " s: hang | " + mon::state().note});
               fail_all();
            }
         }
      }).detach();
   }
   inline void beat() {
      own().beat++;
   }
   inline void end() {
      own().beat = -1; // the watchdog stops looking
      barrier();
      mon::State& s = mon::state();
      (void)s;
   }
} // namespace ranks

extern "C" {
int MPI_Send(const void* buffer, int count, MPI_Datatype type, int destination, int tag, MPI_Comm comm) {
   auto& o = ranks::own();
   ranks::pause();
   o.sends++;
   o.bytes += count;
   // MPI_Send may complete before or only after the message is received: both have to work
   if (o.comm != MPI_COMM_NULL && o.schedule.chance(50)) {
      o.synchronous++;
      return PMPI_Ssend(buffer, count, type, destination, tag, comm);
   }
   return PMPI_Send(buffer, count, type, destination, tag, comm);
}
int MPI_Recv(void* buffer, int count, MPI_Datatype type, int source, int tag, MPI_Comm comm, MPI_Status* status) {
   ranks::pause();
   ranks::own().receives++;
   return PMPI_Recv(buffer, count, type, source, tag, comm, status);
}
int MPI_Probe(int source, int tag, MPI_Comm comm, MPI_Status* status) {
   ranks::pause();
   return PMPI_Probe(source, tag, comm, status);
}
int MPI_Barrier(MPI_Comm comm) {
   ranks::pause();
   return PMPI_Barrier(comm);
}
}
