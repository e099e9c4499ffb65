/* Included before every C++ file (-include). The project is written for
   SuiteSparse 5; the one in apt is 7.6.1. What changed in its interface and
   the project needs: */
#ifdef __cplusplus
#include <cholmod.h>
#include <SuiteSparseQR.hpp>

/* Not defined by SuiteSparse 7. The value is from memory: the headers of
   SuiteSparse 5 are not here to compare. sparse_helper.h is its one user. */
#ifndef CHOLMOD_INTLONG
#define CHOLMOD_INTLONG 1
#endif

/* Int became a template parameter, which a call with NULL for Int** can't
   deduce. This is the SuiteSparse 5 signature, passed on to the real one. */
template <typename Entry>
inline int64_t SuiteSparseQR(
    int ordering, double tol, int64_t econ, int getCTX, cholmod_sparse* A,
    cholmod_sparse* Bsparse, cholmod_dense* Bdense, cholmod_sparse** Zsparse,
    cholmod_dense** Zdense, cholmod_sparse** R, int64_t** E, cholmod_sparse** H,
    int64_t** HPinv, cholmod_dense** HTau, cholmod_common* cc) {
  return SuiteSparseQR<Entry, int64_t>(ordering, tol, econ, getCTX, A, Bsparse,
      Bdense, Zsparse, Zdense, R, E, H, HPinv, HTau, cc);
}
#endif
