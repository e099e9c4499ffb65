/* Included before the incremental estimator's sources, which name the
   factorization of SuiteSparse 5: a template with one parameter. The one of
   SuiteSparse 7 has a second with a default, which a declaration with one
   parameter contradicts. They get a class of that name derived from the real one. */
#ifdef __cplusplus
#include <cholmod.h>
#include <SuiteSparseQR.hpp>

template <typename Entry> struct SuiteSparse5_factorization : SuiteSparseQR_factorization<Entry, int64_t> {};

template <typename Entry>
inline SuiteSparse5_factorization<Entry>* SuiteSparse5_symbolic(int ordering, int allow_tol, cholmod_sparse* A, cholmod_common* cc) {
  return static_cast<SuiteSparse5_factorization<Entry>*>(SuiteSparseQR_symbolic<Entry, int64_t>(ordering, allow_tol, A, cc));
}
template <typename Entry>
inline SuiteSparse5_factorization<Entry>* SuiteSparse5_factorize(int ordering, double tol, cholmod_sparse* A, cholmod_common* cc) {
  return static_cast<SuiteSparse5_factorization<Entry>*>(SuiteSparseQR_factorize<Entry, int64_t>(ordering, tol, A, cc));
}
template <typename Entry>
inline int SuiteSparse5_numeric(double tol, cholmod_sparse* A, SuiteSparse5_factorization<Entry>* QR, cholmod_common* cc) {
  return SuiteSparseQR_numeric<Entry, int64_t>(tol, A, QR, cc);
}
template <typename Entry, typename X>
inline X* SuiteSparse5_qmult(int method, SuiteSparse5_factorization<Entry>* QR, X* x, cholmod_common* cc) {
  return SuiteSparseQR_qmult<Entry, int64_t>(method, QR, x, cc);
}
template <typename Entry, typename X>
inline X* SuiteSparse5_solve(int system, SuiteSparse5_factorization<Entry>* QR, X* b, cholmod_common* cc) {
  return SuiteSparseQR_solve<Entry, int64_t>(system, QR, b, cc);
}
template <typename Entry>
inline int SuiteSparse5_free(SuiteSparse5_factorization<Entry>** QR, cholmod_common* cc) {
  SuiteSparseQR_factorization<Entry, int64_t>* base = *QR;
  const int ok = SuiteSparseQR_free<Entry, int64_t>(&base, cc);
  *QR = static_cast<SuiteSparse5_factorization<Entry>*>(base);
  return ok;
}
/* from the private spqr.hpp */
template <typename Entry, typename Int> double spqr_maxcolnorm(cholmod_sparse* A, cholmod_common* cc);
template <typename Entry> inline double spqr_maxcolnorm(cholmod_sparse* A, cholmod_common* cc) {
  return spqr_maxcolnorm<Entry, int64_t>(A, cc);
}

#define SuiteSparseQR_factorization SuiteSparse5_factorization
#define SuiteSparseQR_symbolic SuiteSparse5_symbolic
#define SuiteSparseQR_factorize SuiteSparse5_factorize
#define SuiteSparseQR_numeric SuiteSparse5_numeric
#define SuiteSparseQR_qmult SuiteSparse5_qmult
#define SuiteSparseQR_solve SuiteSparse5_solve
#define SuiteSparseQR_free SuiteSparse5_free
#endif
