// Between the library's tensors and the model's.
#pragma once
#include <TAT/TAT.hpp>
#include <sstream>
#ifdef TAT_USE_MKL_GEMM_BATCH
#include "mkl_stub.hpp"
#endif

#include "mon.hpp"
#include "ref.hpp"

#ifndef SYM
#define SYM NoSymmetry
#endif
#ifndef SCALAR
#define SCALAR double
#endif

namespace br {
   using ref::Names;
   using ref::Q;
   using ref::REdge;
   using ref::RT;
   using Sym = TAT::SYM;
   using Scalar = SCALAR;
   using Name = TAT::DefaultName;
   using Tensor = TAT::Tensor<Scalar, Sym, Name>;
   using Edge = TAT::Edge<Sym>;
   constexpr bool is_no = std::is_same_v<Sym, TAT::NoSymmetry>;
   constexpr bool is_fermi = TAT::is_fermi_symmetry_v<Sym>;
   constexpr bool is_cplx = TAT::is_complex_v<Scalar>;
   constexpr bool is_single = std::is_same_v<TAT::real_base_t<Scalar>, float>;
   constexpr double eps = is_single ? 1.2e-7 : 2.3e-16;

   template<class S>
   S to_sym(const Q& q) {
      if constexpr (std::is_same_v<S, TAT::NoSymmetry>)
         return S();
      else if constexpr (std::is_same_v<S, TAT::Z2Symmetry>)
         return S(bool(q.z));
      else if constexpr (std::is_same_v<S, TAT::U1Symmetry>)
         return S(q.u);
      else if constexpr (std::is_same_v<S, TAT::FermiSymmetry>)
         return S(q.f);
      else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>)
         return S(q.f, bool(q.z));
      else
         return S(q.f, q.u);
   }
   template<class S>
   Q from_sym([[maybe_unused]] const S& s) {
      Q q;
      if constexpr (std::is_same_v<S, TAT::Z2Symmetry>)
         q.z = s.z2;
      else if constexpr (std::is_same_v<S, TAT::U1Symmetry>)
         q.u = s.u1;
      else if constexpr (std::is_same_v<S, TAT::FermiSymmetry>)
         q.f = s.fermi;
      else if constexpr (std::is_same_v<S, TAT::FermiZ2Symmetry>) {
         q.f = s.fermi;
         q.z = s.z2;
      } else if constexpr (std::is_same_v<S, TAT::FermiU1Symmetry>) {
         q.f = s.fermi;
         q.u = s.u1;
      }
      return q;
   }
   template<class N>
   std::string name_str(const N& n) {
      if constexpr (std::is_same_v<N, std::string>)
         return n;
      else {
         std::ostringstream o;
         o << n;
         return o.str();
      }
   }
   inline Sym sym(const Q& q) {
      return to_sym<Sym>(q);
   }
   template<class S>
   ref::cplx to_c(const S& s) {
      if constexpr (TAT::is_complex_v<S>)
         return {double(s.real()), double(s.imag())};
      else
         return double(s);
   }
   template<class S>
   S from_c(const ref::cplx& c) {
      if constexpr (TAT::is_complex_v<S>)
         return S(c.real(), c.imag());
      else
         return S(c.real());
   }
   template<class S>
   TAT::Edge<S> make_edge_of(const REdge& e) {
      typename TAT::Edge<S>::edge_map m;
      for (auto& [q, d] : e.dims)
         m[to_sym<S>(q)] = d;
      if constexpr (TAT::is_fermi_symmetry_v<S>)
         return TAT::Edge<S>(e.arrow, m);
      else
         return TAT::Edge<S>(m);
   }
   inline Edge make_edge(const REdge& e) {
      return make_edge_of<Sym>(e);
   }
   template<class E>
   REdge back_edge(const E& e) {
      REdge r;
      if constexpr (is_fermi)
         r.arrow = e.arrow;
      for (const auto& [s, d] : e.map)
         r.dims[from_sym(s)] = d;
      return r;
   }
   inline std::vector<Name> names_of(const Names& n) {
      std::vector<Name> r;
      for (auto& i : n)
         r.push_back(Name(i));
      return r;
   }
   inline std::set<Name> name_set(const std::set<std::string>& n) {
      std::set<Name> r;
      for (auto& i : n)
         r.insert(Name(i));
      return r;
   }
   inline std::set<std::tuple<Name, Name>> pair_set(const ref::Pairs& p) {
      std::set<std::tuple<Name, Name>> r;
      for (auto& [a, b] : p)
         r.insert({Name(a), Name(b)});
      return r;
   }
   // offset of an element inside its block and the block's key
   template<class T>
   T make_tensor_of(const RT& t) {
      using S = typename T::symmetry_t;
      using V = typename T::scalar_t;
      std::vector<typename T::name_t> names;
      for (auto& n : t.names)
         names.push_back(typename T::name_t(n));
      std::vector<TAT::Edge<S>> edges;
      for (auto& e : t.edges)
         edges.push_back(make_edge_of<S>(e));
      T r(names, edges);
      auto shape = t.shape();
      for (auto& [key, data] : r.core->blocks) {
         std::vector<Q> q;
         std::vector<long> dims;
         for (std::size_t i = 0; i < t.rank(); i++) {
            q.push_back(is_no ? Q() : from_sym(key[i]));
            dims.push_back(t.edges[i].dims.at(q.back()));
         }
         ref::each(dims, [&, &data = data](const std::vector<long>& idx, long k) {
            std::vector<long> p;
            for (std::size_t i = 0; i < idx.size(); i++)
               p.push_back(t.edges[i].pos(q[i], idx[i]));
            data[k] = from_c<V>(t.d[ref::flat(shape, p)]);
         });
      }
      return r;
   }
   inline Tensor make_tensor(const RT& t) {
      return make_tensor_of<Tensor>(t);
   }
   // structural well-formedness of a tensor; "" if fine
   template<class T>
   std::string ill_formed(const T& t) {
      std::ostringstream o;
      if (!t.core)
         return "no data";
      const auto rank = t.names.size();
      if (t.core->edges.size() != rank)
         return "number of names differs from number of edges";
      if (t.name_to_index.size() != rank)
         return "name lookup has the wrong size";
      for (std::size_t i = 0; i < rank; i++) {
         auto f = t.name_to_index.find(t.names[i]);
         if (f == t.name_to_index.end() || f->second != i)
            return "name lookup of " + name_str(t.names[i]) + " is wrong";
      }
      std::vector<REdge> edges;
      for (const auto& e : t.core->edges) {
         REdge r;
         for (const auto& [s, d] : e.map)
            r.dims[from_sym(s)] = d;
         edges.push_back(r);
      }
      auto want = ref::zero_blocks(edges);
      std::set<std::vector<Q>> have;
      std::vector<std::set<Q>> used(rank);
      for (const auto& [key, data] : t.core->blocks) {
         std::vector<Q> q;
         unsigned long size = 1;
         if (key.size() != rank && !(is_no && TAT::use_simple_nosymmetry))
            return "block key of the wrong length";
         for (std::size_t i = 0; i < rank; i++) {
            q.push_back(is_no && TAT::use_simple_nosymmetry ? Q() : from_sym(key[i]));
            auto f = edges[i].dims.find(q.back());
            if (f == edges[i].dims.end())
               return "block uses a quantum number its edge does not have";
            size *= f->second;
            used[i].insert(q.back());
         }
         if (data.size() != size) {
            o << "block has " << data.size() << " elements, its dimensions imply " << size;
            return o.str();
         }
         have.insert(q);
      }
      if (have.size() != want.size() || have != std::set<std::vector<Q>>(want.begin(), want.end()))
         return "the set of blocks is not the set of zero-charge combinations";
      for (std::size_t i = 0; i < rank; i++)
         if (used[i].size() != edges[i].dims.size())
            return "edge " + name_str(t.names[i]) + " keeps a quantum number no block uses";
      return "";
   }
   template<class T>
   RT back_of(const T& t) {
      RT r;
      for (auto& n : t.names)
         r.names.push_back(name_str(n));
      for (const auto& e : t.core->edges) {
         REdge x;
         if constexpr (TAT::is_fermi_symmetry_v<typename T::symmetry_t>)
            x.arrow = e.arrow;
         for (const auto& [s, d] : e.map)
            x.dims[from_sym(s)] = d;
         r.edges.push_back(x);
      }
      auto shape = r.shape();
      r.d.assign(ref::product(shape), 0);
      for (const auto& [key, data] : t.core->blocks) {
         std::vector<Q> q;
         std::vector<long> dims;
         for (std::size_t i = 0; i < r.rank(); i++) {
            q.push_back(is_no ? Q() : from_sym(key[i]));
            dims.push_back(r.edges[i].dims.at(q.back()));
         }
         if ((long)data.size() != ref::product(dims))
            throw mon::Bad("block size does not match its dimensions");
         ref::each(dims, [&, &data = data](const std::vector<long>& idx, long k) {
            std::vector<long> p;
            for (std::size_t i = 0; i < idx.size(); i++)
               p.push_back(r.edges[i].pos(q[i], idx[i]));
            r.d[ref::flat(shape, p)] = to_c(data[k]);
         });
      }
      return r;
   }
   inline RT back(const Tensor& t) {
      return back_of(t);
   }
   // result of an operation must be well formed and equal to the model's; throws mon::Bad
   template<class T>
   void expect(const RT& want, const T& got, double tol, const std::string& what) {
      std::string bad = ill_formed(got);
      if (!bad.empty())
         throw mon::Bad(what + ": result is malformed: " + bad);
      bad = ref::diff(want, back_of(got), tol, is_fermi);
      if (!bad.empty())
         throw mon::Bad(what + ": " + bad);
   }
   // bit-exact image of a tensor (names, edges, arrows, data)
   template<class T>
   std::string image(const T& t) {
      std::ostringstream o;
      if (!t.core)
         return "null";
      for (auto& n : t.names)
         o << name_str(n) << ";";
      for (const auto& [n, i] : t.name_to_index)
         o << name_str(n) << "=" << i << ";";
      for (const auto& e : t.core->edges) {
         if constexpr (TAT::is_fermi_symmetry_v<typename T::symmetry_t>)
            o << (e.arrow ? "+" : "-");
         for (const auto& [s, d] : e.map)
            o << ref::str(from_sym(s)) << ":" << d << " ";
         o << ";";
      }
      for (const auto& [key, data] : t.core->blocks) {
         for (const auto& s : key)
            o << ref::str(from_sym(s));
         o.write(reinterpret_cast<const char*>(data.data()), data.size() * sizeof(typename T::scalar_t));
      }
      return o.str();
   }
   inline std::string config_name() {
      std::string s = is_no                                             ? "No" :
                      std::is_same_v<Sym, TAT::Z2Symmetry>              ? "Z2" :
                      std::is_same_v<Sym, TAT::U1Symmetry>              ? "U1" :
                      std::is_same_v<Sym, TAT::FermiSymmetry>           ? "Fermi" :
                      std::is_same_v<Sym, TAT::FermiZ2Symmetry>         ? "FermiZ2" :
                                                                          "FermiU1";
      return s + "/" + (is_cplx ? (is_single ? "C" : "Z") : (is_single ? "S" : "D"));
   }
} // namespace br
