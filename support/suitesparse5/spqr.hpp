/* private to SuiteSparse and not installed; see suitesparse5.h */
