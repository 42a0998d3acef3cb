/* The transforms of src/mdct.c as one target selects them */
#include <mdct.c>
#include "kern.h"

static int k_ns(int dt, int sr) { return lc3_ns(dt, sr); }
static int k_nd(int dt, int sr) { return lc3_nd(dt, sr); }

static void k_forward(int dt, int sr, const float *x, float *d, float *y)
{ lc3_mdct_forward(dt, sr, sr, x, d, y); }

static void k_inverse(int dt, int sr, const float *x, float *d, float *y)
{ lc3_mdct_inverse(dt, sr, sr, x, d, y); }

const struct kern_mdct KNAME = { k_ns, k_nd, k_forward, k_inverse };
