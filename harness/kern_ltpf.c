/* The kernels of src/ltpf.c as one target selects them */
#include <ltpf.c>
#include "kern.h"

static void k_resample(int sr, void *hp50, const int16_t *x, int16_t *y, int n)
{ resample_12k8[sr](hp50, x, y, n); }

static void k_resample_6k4(const int16_t *x, int16_t *y, int n)
{ resample_6k4(x, y, n); }

static float k_dot(const int16_t *a, const int16_t *b, int n)
{ return dot(a, b, n); }

static void k_correlate(const int16_t *a, const int16_t *b, int n, float *y, int nc)
{ correlate(a, b, n, y, nc); }

const struct kern_ltpf KNAME = { sizeof(struct lc3_ltpf_hp50_state),
    k_resample, k_resample_6k4, k_dot, k_correlate };
