// stand-in for Intel's MKL (not installed here): the three BLAS routines used by odeint's mkl_operations, with operands that may not overlap unless identical
#ifndef VERIF_MKL_CBLAS_H
#define VERIF_MKL_CBLAS_H
inline long &mkl_calls() { static thread_local long n = 0; return n; }
inline void cblas_dcopy(const int n, const double *x, const int ix, double *y, const int iy) { ++mkl_calls(); for (int i = 0; i < n; ++i) y[i * iy] = x[i * ix]; }
inline void cblas_dscal(const int n, const double a, double *x, const int ix) { ++mkl_calls(); for (int i = 0; i < n; ++i) x[i * ix] *= a; }
inline void cblas_daxpy(const int n, const double a, const double *x, const int ix, double *y, const int iy) { ++mkl_calls(); for (int i = 0; i < n; ++i) y[i * iy] += a * x[i * ix]; }
#endif
