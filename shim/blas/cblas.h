/* Reference implementation of the two BLAS functions that generated code calls. */
#ifndef VERIF_CBLAS
#define VERIF_CBLAS
typedef enum { CblasRowMajor = 101, CblasColMajor = 102 } CBLAS_LAYOUT;
typedef enum { CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 } CBLAS_TRANSPOSE;
#define VERIF_BLAS(P, T)                                                                                                        \
    static T cblas_##P##dot(int n, const T* x, int ix, const T* y, int iy) {                                                    \
        T r = 0;                                                                                                                \
        for (int i = 0; i < n; i++) r += x[(ix < 0 ? (i - n + 1) : i) * ix] * y[(iy < 0 ? (i - n + 1) : i) * iy];                \
        return r;                                                                                                               \
    }                                                                                                                           \
    static void cblas_##P##gemm(CBLAS_LAYOUT l, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int m, int n, int k, T al, const T* a,  \
                                int lda, const T* b, int ldb, T be, T* c, int ldc) {                                            \
        int row = l == CblasRowMajor, at = ta != CblasNoTrans, bt = tb != CblasNoTrans;                                         \
        for (int i = 0; i < m; i++)                                                                                             \
            for (int j = 0; j < n; j++) {                                                                                       \
                T r = 0;                                                                                                        \
                for (int p = 0; p < k; p++)                                                                                     \
                    r += a[(at != row) ? i * lda + p : p * lda + i] * b[(bt != row) ? p * ldb + j : j * ldb + p];               \
                T* q = c + (row ? i * ldc + j : j * ldc + i);                                                                   \
                *q = al * r + (be == 0 ? 0 : be * *q);                                                                          \
            }                                                                                                                   \
    }
VERIF_BLAS(d, double)
VERIF_BLAS(s, float)
#endif
