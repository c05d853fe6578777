// Stand-ins for the two MKL routine families the library can be configured to call, with MKL's documented semantics and
// argument checks.  They let the code that prepares their arguments run where MKL is not installed.
#pragma once
#include <algorithm>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cctype>

namespace mkl_stub {
   [[noreturn]] inline void illegal(const char* routine, int argument) {
      std::fprintf(stderr, "MKL stand-in: parameter %d of %s had an illegal value\n", argument, routine);
      std::abort();
   }
   template<class T, class Gemm>
   void batch(const char* routine, Gemm gemm, const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* alpha, const T** a, const int* lda, const T** b, const int* ldb,
              const T* beta, T** c, const int* ldc, const int* groups, const int* sizes) {
      if (*groups < 0)
         illegal(routine, 14);
      long at = 0;
      for (int g = 0; g < *groups; g++) {
         const char x = std::toupper(ta[g]), y = std::toupper(tb[g]);
         if (x != 'N' && x != 'T' && x != 'C')
            illegal(routine, 1);
         if (y != 'N' && y != 'T' && y != 'C')
            illegal(routine, 2);
         if (m[g] < 0)
            illegal(routine, 3);
         if (n[g] < 0)
            illegal(routine, 4);
         if (k[g] < 0)
            illegal(routine, 5);
         if (lda[g] < std::max(1, x == 'N' ? m[g] : k[g]))
            illegal(routine, 8);
         if (ldb[g] < std::max(1, y == 'N' ? k[g] : n[g]))
            illegal(routine, 10);
         if (ldc[g] < std::max(1, m[g]))
            illegal(routine, 13);
         if (sizes[g] < 0)
            illegal(routine, 15);
         for (int i = 0; i < sizes[g]; i++, at++)
            gemm(ta + g, tb + g, m + g, n + g, k + g, alpha + g, a[at], lda + g, b[at], ldb + g, beta + g, c[at], ldc + g);
      }
   }
   template<class T>
   void omatcopy(const char* order, const char* trans, const int* rows, const int* cols, const T* alpha, const T* a, const int* lda, T* b, const int* ldb) {
      if (*order != 'R' || *trans != 'T')
         illegal("omatcopy", 1);
      for (int i = 0; i < *rows; i++)
         for (int j = 0; j < *cols; j++)
            b[long(j) * *ldb + i] = *alpha * a[long(i) * *lda + j];
   }
} // namespace mkl_stub

extern "C" {
#define VERIF_BATCH(P, T)                                                                                                                                                          \
   void P##gemm_batch_(                                                                                                                                                            \
         const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* alpha, const T** a, const int* lda, const T** b, const int* ldb, const T* beta, T** c, \
         const int* ldc, const int* groups, const int* sizes) {                                                                                                                    \
      mkl_stub::batch<T>(#P "gemm_batch", P##gemm_, ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc, groups, sizes);                                                          \
   }
VERIF_BATCH(s, float)
VERIF_BATCH(d, double)
VERIF_BATCH(c, std::complex<float>)
VERIF_BATCH(z, std::complex<double>)
#undef VERIF_BATCH
void mkl_somatcopy_(const char* o, const char* t, const int* r, const int* c, const float* x, const float* a, const int* la, float* b, const int* lb) {
   mkl_stub::omatcopy(o, t, r, c, x, a, la, b, lb);
}
void mkl_domatcopy_(const char* o, const char* t, const int* r, const int* c, const double* x, const double* a, const int* la, double* b, const int* lb) {
   mkl_stub::omatcopy(o, t, r, c, x, a, la, b, lb);
}
void mkl_comatcopy_(const char* o, const char* t, const int* r, const int* c, const std::complex<float>* x, const std::complex<float>* a, const int* la, std::complex<float>* b, const int* lb) {
   mkl_stub::omatcopy(o, t, r, c, x, a, la, b, lb);
}
// the library declares the destination const
void mkl_zomatcopy_(const char* o, const char* t, const int* r, const int* c, const std::complex<double>* x, const std::complex<double>* a, const int* la, const std::complex<double>* b, const int* lb) {
   mkl_stub::omatcopy(o, t, r, c, x, a, la, const_cast<std::complex<double>*>(b), lb);
}
}
