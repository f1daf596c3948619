// A small instrumented CBLAS, linked ahead of OpenBLAS in the sanitizer builds, so that a wrong size,
// offset or leading dimension handed to BLAS becomes a visible memory error and a shared scratch
// buffer handed to BLAS becomes a visible race (OpenBLAS itself is not instrumented).
#include <cblas.h>
#include <cmath>
#include <cstddef>

template <class T> static inline T at(const T* a, CBLAS_ORDER o, CBLAS_TRANSPOSE t, long ld, long i, long j)
{   // element (i,j) of op(A)
    const bool tr = (t != CblasNoTrans);
    const long r = tr ? j : i, c = tr ? i : j;
    return (o == CblasRowMajor) ? a[r*ld + c] : a[c*ld + r];
}
template <class T> static void gemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, long m, long n, long k,
                                    T alpha, const T* a, long lda, const T* b, long ldb, T beta, T* c, long ldc)
{
    for (long i=0;i<m;++i) for (long j=0;j<n;++j) {
        T s = 0;
        if (alpha != T(0)) for (long p=0;p<k;++p) s += at(a,o,ta,lda,i,p)*at(b,o,tb,ldb,p,j);
        T& d = (o==CblasRowMajor) ? c[i*ldc+j] : c[j*ldc+i];
        d = (beta == T(0)) ? alpha*s : beta*d + alpha*s;
    }
}
static inline long start(long n, long inc) { return inc >= 0 ? 0 : (1-n)*inc; }
template <class T> static void gemv(CBLAS_ORDER o, CBLAS_TRANSPOSE t, long m, long n, T alpha, const T* a, long lda,
                                    const T* x, long incx, T beta, T* y, long incy)
{
    const long r = (t==CblasNoTrans)?m:n, q = (t==CblasNoTrans)?n:m;
    for (long i=0;i<r;++i) {
        T s = 0;
        if (alpha != T(0)) for (long j=0;j<q;++j) s += at(a,o,t,lda,i,j)*x[start(q,incx)+j*incx];
        T& d = y[start(r,incy)+i*incy];
        d = (beta == T(0)) ? alpha*s : beta*d + alpha*s;
    }
}
template <class T> static T dot(long n, const T* x, long ix, const T* y, long iy)
{ T s=0; for (long i=0;i<n;++i) s += x[start(n,ix)+i*ix]*y[start(n,iy)+i*iy]; return s; }
template <class T> static void axpy(long n, T a, const T* x, long ix, T* y, long iy)
{ if (a==T(0)) return; for (long i=0;i<n;++i) y[start(n,iy)+i*iy] += a*x[start(n,ix)+i*ix]; }
template <class T> static void copy(long n, const T* x, long ix, T* y, long iy)
{ for (long i=0;i<n;++i) y[start(n,iy)+i*iy] = x[start(n,ix)+i*ix]; }
template <class T> static void scal(long n, T a, T* x, long ix)
{ for (long i=0;i<n;++i) x[i*ix] *= a; }
template <class T> static void ger(CBLAS_ORDER o, long m, long n, T al, const T* x, long ix, const T* y, long iy, T* a, long lda)
{ for (long i=0;i<m;++i) for (long j=0;j<n;++j)
    ((o==CblasRowMajor)?a[i*lda+j]:a[j*lda+i]) += al*x[start(m,ix)+i*ix]*y[start(n,iy)+j*iy]; }

extern "C" {
#define GEN(P,T) \
void cblas_##P##gemm(CBLAS_ORDER o, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, blasint m, blasint n, blasint k, T al, \
    const T* a, blasint lda, const T* b, blasint ldb, T be, T* c, blasint ldc) { gemm<T>(o,ta,tb,m,n,k,al,a,lda,b,ldb,be,c,ldc); } \
void cblas_##P##gemv(CBLAS_ORDER o, CBLAS_TRANSPOSE t, blasint m, blasint n, T al, const T* a, blasint lda, \
    const T* x, blasint ix, T be, T* y, blasint iy) { gemv<T>(o,t,m,n,al,a,lda,x,ix,be,y,iy); } \
T cblas_##P##dot(blasint n, const T* x, blasint ix, const T* y, blasint iy) { return dot<T>(n,x,ix,y,iy); } \
void cblas_##P##axpy(blasint n, T a, const T* x, blasint ix, T* y, blasint iy) { axpy<T>(n,a,x,ix,y,iy); } \
void cblas_##P##copy(blasint n, const T* x, blasint ix, T* y, blasint iy) { copy<T>(n,x,ix,y,iy); } \
void cblas_##P##scal(blasint n, T a, T* x, blasint ix) { scal<T>(n,a,x,ix); } \
T cblas_##P##asum(blasint n, const T* x, blasint ix) { T s=0; for (long i=0;i<n;++i) s+=std::fabs(x[i*ix]); return s; } \
T cblas_##P##nrm2(blasint n, const T* x, blasint ix) { T s=0; for (long i=0;i<n;++i) s+=x[i*ix]*x[i*ix]; return std::sqrt(s); } \
void cblas_##P##ger(CBLAS_ORDER o, blasint m, blasint n, T al, const T* x, blasint ix, const T* y, blasint iy, T* a, blasint lda) \
    { ger<T>(o,m,n,al,x,ix,y,iy,a,lda); }
GEN(d,double)
GEN(s,float)
}
