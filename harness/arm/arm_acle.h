/*
 * Emulation of the ARM instructions used by the kernels (ACLE), so that the
 * code selected on ARM targets is compiled and run as it is.
 */
#ifndef EMUL_ARM_ACLE_H
#define EMUL_ARM_ACLE_H

#include <stdint.h>

typedef int32_t int16x2_t;

/* The kernels define __pkhbt() by inline assembly: "pkhbt r, a, b" */
#undef __asm
#define __asm(...) \
    (r = (int16x2_t)(((uint32_t)a & 0xffffu) | ((uint32_t)b & 0xffff0000u)))

static inline int32_t emul_lo(int32_t v) { return (int16_t)v; }
static inline int32_t emul_hi(int32_t v) { return (int16_t)(v >> 16); }

static inline int32_t __smlad(int16x2_t a, int16x2_t b, int32_t u)
{
    return (int32_t)((uint32_t)u + (uint32_t)(emul_lo(a) * emul_lo(b))
                                 + (uint32_t)(emul_hi(a) * emul_hi(b)));
}

static inline int32_t __smladx(int16x2_t a, int16x2_t b, int32_t u)
{
    return (int32_t)((uint32_t)u + (uint32_t)(emul_lo(a) * emul_hi(b))
                                 + (uint32_t)(emul_hi(a) * emul_lo(b)));
}

static inline int32_t __smuad(int16x2_t a, int16x2_t b)
{ return __smlad(a, b, 0); }

static inline int32_t __smuadx(int16x2_t a, int16x2_t b)
{ return __smladx(a, b, 0); }

static inline int64_t __smlald(int16x2_t a, int16x2_t b, int64_t u)
{
    return u + (int64_t)emul_lo(a) * emul_lo(b)
             + (int64_t)emul_hi(a) * emul_hi(b);
}

static inline int64_t __smlaldx(int16x2_t a, int16x2_t b, int64_t u)
{
    return u + (int64_t)emul_lo(a) * emul_hi(b)
             + (int64_t)emul_hi(a) * emul_lo(b);
}

#define __ssat(v, n) __extension__ ({ \
    int32_t __v = (v); \
    int32_t __m = (int32_t)((1u << ((n) - 1)) - 1); \
    __v > __m ? __m : __v < -__m - 1 ? -__m - 1 : __v; })

#endif
