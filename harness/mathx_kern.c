/* Evaluation of the approximations, compiled with each set of options */
#include "fastmath.h"
#include "mathx.h"

void k_exp2(const float *x, float *y, int n)
{
    for (int i = 0; i < n; i++) y[i] = lc3_exp2f(x[i]);
}

void k_log2(const float *x, float *y, int n)
{
    for (int i = 0; i < n; i++) y[i] = lc3_log2f(x[i]);
}

void k_log10(const float *x, float *y, int n)
{
    for (int i = 0; i < n; i++) y[i] = lc3_log10f(x[i]);
}

void k_db(const float *x, int32_t *y, int n)
{
    for (int i = 0; i < n; i++) y[i] = lc3_db_q16(x[i]);
}

void k_ldexp(const float *x, float *y, int e, int n)
{
    for (int i = 0; i < n; i++) y[i] = lc3_ldexpf(x[i], e);
}

void k_frexp(const float *x, float *y, int *e, int n)
{
    for (int i = 0; i < n; i++) y[i] = lc3_frexpf(x[i], e + i);
}
