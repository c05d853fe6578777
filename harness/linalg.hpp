// Small dense linear algebra in extended precision, independent of BLAS and LAPACK.
#pragma once
#include <cmath>
#include <complex>
#include <vector>

namespace la {
   using real = long double;
   using cx = std::complex<long double>;
   struct Mat {
      long m = 0, n = 0;
      std::vector<cx> a;
      Mat() = default;
      Mat(long m, long n) : m(m), n(n), a(m * n) {}
      cx& operator()(long i, long j) {
         return a[i * n + j];
      }
      const cx& operator()(long i, long j) const {
         return a[i * n + j];
      }
   };
   inline Mat eye(long n) {
      Mat r(n, n);
      for (long i = 0; i < n; i++)
         r(i, i) = 1;
      return r;
   }
   inline Mat mul(const Mat& x, const Mat& y) {
      Mat r(x.m, y.n);
      for (long i = 0; i < x.m; i++)
         for (long k = 0; k < x.n; k++) {
            cx v = x(i, k);
            if (v == cx(0))
               continue;
            for (long j = 0; j < y.n; j++)
               r(i, j) += v * y(k, j);
         }
      return r;
   }
   inline Mat scale(Mat x, cx s) {
      for (auto& v : x.a)
         v *= s;
      return x;
   }
   inline Mat add(Mat x, const Mat& y) {
      for (std::size_t i = 0; i < x.a.size(); i++)
         x.a[i] += y.a[i];
      return x;
   }
   inline Mat dagger(const Mat& x) {
      Mat r(x.n, x.m);
      for (long i = 0; i < x.m; i++)
         for (long j = 0; j < x.n; j++)
            r(j, i) = std::conj(x(i, j));
      return r;
   }
   inline real norm1(const Mat& x) {
      real best = 0;
      for (long j = 0; j < x.n; j++) {
         real s = 0;
         for (long i = 0; i < x.m; i++)
            s += std::abs(x(i, j));
         best = std::max(best, s);
      }
      return best;
   }
   inline real frob(const Mat& x) {
      real s = 0;
      for (auto& v : x.a)
         s += std::norm(v);
      return std::sqrt(s);
   }
   inline Mat expm(const Mat& a) {
      int j = 0;
      real n = norm1(a);
      while (n > 0.25L) {
         n /= 2;
         j++;
      }
      Mat s = scale(a, std::ldexp(real(1), -j)), term = eye(a.m), r = eye(a.m);
      for (int k = 1; k < 30; k++) {
         term = scale(mul(term, s), real(1) / k);
         r = add(r, term);
      }
      for (int k = 0; k < j; k++)
         r = mul(r, r);
      return r;
   }
   // singular values, descending, by one-sided Jacobi rotations
   inline std::vector<real> singular(Mat a) {
      if (a.m < a.n)
         a = dagger(a);
      const long m = a.m, n = a.n;
      for (int sweep = 0; sweep < 60; sweep++) {
         bool done = true;
         for (long p = 0; p < n; p++)
            for (long q = p + 1; q < n; q++) {
               real alpha = 0, beta = 0;
               cx gamma = 0;
               for (long i = 0; i < m; i++) {
                  alpha += std::norm(a(i, p));
                  beta += std::norm(a(i, q));
                  gamma += std::conj(a(i, p)) * a(i, q);
               }
               real g = std::abs(gamma);
               if (g == 0 || g <= 1e-18L * std::sqrt(alpha * beta))
                  continue;
               done = false;
               cx phase = gamma / g;
               real zeta = (beta - alpha) / (2 * g);
               real t = (zeta >= 0 ? 1 : -1) / (std::abs(zeta) + std::sqrt(1 + zeta * zeta));
               real c = 1 / std::sqrt(1 + t * t), s = c * t;
               for (long i = 0; i < m; i++) {
                  cx x = a(i, p), y = a(i, q) * std::conj(phase);
                  a(i, p) = c * x - s * y;
                  a(i, q) = s * x + c * y;
               }
            }
         if (done)
            break;
      }
      std::vector<real> r;
      for (long j = 0; j < n; j++) {
         real s = 0;
         for (long i = 0; i < m; i++)
            s += std::norm(a(i, j));
         r.push_back(std::sqrt(s));
      }
      std::sort(r.rbegin(), r.rend());
      return r;
   }
} // namespace la
