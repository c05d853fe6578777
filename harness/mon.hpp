// Case loop, counters, evidence and replay of the monitors.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mon {
   struct Bad : std::runtime_error { // an observation that contradicts the property
      using std::runtime_error::runtime_error;
   };
   struct Known : std::runtime_error { // an observation listed in the known-findings file, by key
      using std::runtime_error::runtime_error;
   };

   struct Rng {
      std::mt19937_64 g;
      explicit Rng(std::uint64_t s) : g(s) {}
      long range(long a, long b) { // inclusive
         return a + long(g() % std::uint64_t(b - a + 1));
      }
      bool chance(int percent) {
         return long(g() % 100) < percent;
      }
      double real() {
         return double(g() >> 11) / 9007199254740992.0;
      }
      template<class T>
      void shuffle(std::vector<T>& v) {
         for (std::size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[g() % i]);
      }
      template<class T>
      const T& pick(const std::vector<T>& v) {
         return v[g() % v.size()];
      }
   };

   inline std::string json(const std::string& s) {
      std::string r = "\"";
      for (unsigned char c : s) {
         if (c == '"' || c == '\\') {
            r += '\\';
            r += c;
         } else if (c < 32 || c > 126) {
            char b[8];
            std::snprintf(b, 8, "\\u%04x", c);
            r += b;
         } else
            r += c;
      }
      return r + "\"";
   }

   struct State {
      std::uint64_t seed = 1;
      long cases = 1000;
      double limit = 60;
      long only = -1;
      std::string out;
      long evaluations = 0, checks = 0;
      long current = -1;
      std::unordered_set<std::uint64_t> distinct;
      std::map<std::string, long> counters;
      std::map<std::string, std::pair<long, std::string>> known;
      std::vector<std::string> samples;
      std::vector<std::pair<long, std::string>> violations;
      volatile long* progress = nullptr;
      std::string note;
      std::function<bool(bool)> agree;      // several processes: one decision when to stop
      std::function<void()> on_violation;   // several processes: nobody waits for the one that found something
   };
   inline State& state() {
      static State s;
      return s;
   }
   inline void count(const std::string& what, long n = 1) {
      state().counters[what] += n;
   }
   inline void observe(long n = 1) { // number of individual comparisons made by the oracle
      state().checks += n;
   }
   // the case is non-trivial; its shape is what makes it distinct
   inline void nontrivial(const std::string& signature) {
      state().distinct.insert(std::hash<std::string>()(signature));
   }
   inline void describe(const std::string& s) {
      state().note = s;
   }
   inline void sample(const std::string& s) {
      auto& v = state().samples;
      if (v.size() < 4 || (v.size() < 8 && state().evaluations % 97 == 0))
         v.push_back(s);
   }
   inline void require(bool ok, const std::string& what) {
      observe();
      if (!ok)
         throw Bad(what);
   }

   inline void write_out() {
      auto& s = state();
      std::ostringstream o;
      o << "{\"evaluations\":" << s.evaluations << ",\"comparisons\":" << s.checks << ",\"distinct\":" << s.distinct.size();
      o << ",\"counters\":{";
      bool first = true;
      for (auto& [k, v] : s.counters) {
         o << (first ? "" : ",") << json(k) << ":" << v;
         first = false;
      }
      o << "},\"samples\":[";
      first = true;
      for (auto& x : s.samples) {
         o << (first ? "" : ",") << json(x);
         first = false;
      }
      o << "],\"known\":[";
      first = true;
      for (auto& [k, v] : s.known) {
         o << (first ? "" : ",") << "{\"key\":" << json(k) << ",\"count\":" << v.first << ",\"example\":" << json(v.second) << "}";
         first = false;
      }
      o << "],\"violations\":[";
      first = true;
      for (auto& [c, m] : s.violations) {
         o << (first ? "" : ",") << "{\"case\":" << c << ",\"message\":" << json(m) << "}";
         first = false;
      }
      o << "]}\n";
      if (s.out.empty())
         std::cout << o.str();
      else {
         std::ofstream f(s.out);
         f << o.str();
      }
   }
   inline void parse(int argc, char** argv) {
      auto& s = state();
      for (int i = 1; i + 1 < argc; i += 2) {
         std::string k = argv[i], v = argv[i + 1];
         if (k == "--seed")
            s.seed = std::stoull(v);
         else if (k == "--cases")
            s.cases = std::stol(v);
         else if (k == "--limit")
            s.limit = std::stod(v);
         else if (k == "--only")
            s.only = std::stol(v);
         else if (k == "--out")
            s.out = v;
      }
      if (!s.out.empty()) {
         int fd = ::open((s.out + ".progress").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
         if (fd >= 0 && ::ftruncate(fd, 64) == 0) {
            void* p = ::mmap(nullptr, 64, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED)
               s.progress = static_cast<volatile long*>(p);
            ::close(fd);
         }
      }
   }
   inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
      std::uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0xBF58476D1CE4E5B9ull);
      x ^= x >> 30;
      x *= 0xBF58476D1CE4E5B9ull;
      x ^= x >> 27;
      x *= 0x94D049BB133111EBull;
      return x ^ (x >> 31);
   }
   // body(rng, case number): throws Bad or any exception for a violation
   inline int run(int argc, char** argv, const std::function<void(Rng&, long)>& body) {
      parse(argc, argv);
      auto& s = state();
      auto start = std::chrono::steady_clock::now();
      long first = s.only >= 0 ? s.only : 0, last = s.only >= 0 ? s.only + 1 : s.cases;
      for (long c = first; c < last; c++) {
         if (s.progress)
            s.progress[0] = c + 1;
         s.current = c;
         Rng rng(mix(s.seed, c));
         s.note.clear();
         s.evaluations++;
         try {
            body(rng, c);
         } catch (const Known& k) {
            auto& e = s.known[k.what()];
            e.first++;
            if (e.second.empty())
               e.second = s.note;
         } catch (const std::exception& e) {
            // a workload shared by several properties: this run judges only the observations tagged with its own
            if (const char* judge = std::getenv("VERIF_JUDGE"); judge && std::string(e.what()).rfind(judge, 0) != 0) {
               count("cases ended early by an observation that another property judges");
               continue;
            }
            s.violations.push_back({c, std::string(e.what()) + " | " + s.note});
            if (s.on_violation)
               s.on_violation();
            if (s.violations.size() >= 3)
               break;
         }
         if (s.only >= 0)
            std::cerr << "case " << c << ": " << s.note << "\n";
         if ((c & 7) == 7) {
            bool late = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() > s.limit;
            if (s.agree)
               late = s.agree(late);
            if (late) {
               count("stopped by time limit");
               break;
            }
         }
      }
      if (s.progress)
         s.progress[0] = 0;
      write_out();
      return s.violations.empty() ? 0 : 1;
   }
} // namespace mon
