#include <stdint.h>
void k_exp2(const float *x, float *y, int n);
void k_log2(const float *x, float *y, int n);
void k_log10(const float *x, float *y, int n);
void k_db(const float *x, int32_t *y, int n);
void k_ldexp(const float *x, float *y, int e, int n);
void k_frexp(const float *x, float *y, int *e, int n);
