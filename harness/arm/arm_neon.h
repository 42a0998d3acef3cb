/*
 * Emulation of the NEON intrinsics used by the kernels, and of the close ones.
 * Fused operations are fused, integers wrap, as on the processor.
 */
#ifndef EMUL_ARM_NEON_H
#define EMUL_ARM_NEON_H

#include <stdint.h>
#include <math.h>
#include <string.h>

#define NI static inline __attribute__((unused))

typedef struct { int16_t e[4]; } int16x4_t;
typedef struct { int16_t e[8]; } int16x8_t;
typedef struct { int32_t e[2]; } int32x2_t;
typedef struct { int32_t e[4]; } int32x4_t;
typedef struct { int64_t e[1]; } int64x1_t;
typedef struct { int64_t e[2]; } int64x2_t;
typedef struct { float e[2]; } float32x2_t;
typedef struct { float e[4]; } float32x4_t;
typedef struct { uint32_t e[2]; } uint32x2_t;
typedef struct { uint32_t e[4]; } uint32x4_t;
typedef struct { int16x4_t val[2]; } int16x4x2_t;
typedef struct { int16x8_t val[2]; } int16x8x2_t;
typedef struct { int32x2_t val[2]; } int32x2x2_t;
typedef struct { int32x4_t val[2]; } int32x4x2_t;
typedef struct { float32x2_t val[2]; } float32x2x2_t;
typedef struct { float32x4_t val[2]; } float32x4x2_t;

NI int16x4_t vld1_s16(const int16_t *p)
{ int16x4_t r; memcpy(&r, p, sizeof(r)); return r; }
NI int16x4_t vld1_dup_s16(const int16_t *p)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = *p; return r; }
NI void vst1_s16(int16_t *p, int16x4_t v)
{ memcpy(p, &v, sizeof(v)); }
NI int16x4_t vdup_n_s16(int16_t v)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = v; return r; }
NI int16x4_t vmov_n_s16(int16_t v)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = v; return r; }
NI int16x4_t vadd_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int16_t)((uint16_t)a.e[i] + (uint16_t)b.e[i]); return r; }
NI int16x4_t vsub_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int16_t)((uint16_t)a.e[i] - (uint16_t)b.e[i]); return r; }
NI int16x4_t vmul_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int16_t)((int32_t)a.e[i] * b.e[i]); return r; }
NI int16x4_t vext_s16(int16x4_t a, int16x4_t b, const int n)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = i + n < 4 ? a.e[i+n] : b.e[i+n-4]; return r; }
NI int16x4_t vneg_s16(int16x4_t a)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int16_t)(0 - (uint16_t)a.e[i]); return r; }
NI int16x4_t vmax_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }
NI int16x4_t vmin_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] < b.e[i] ? a.e[i] : b.e[i]; return r; }
NI int16x4_t vrev64_s16(int16x4_t a)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i ^ 3]; return r; }
NI int16x4_t vtrn1_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 0]; return r; }
NI int16x4_t vzip1_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 0]; return r; }
NI int16x4_t vuzp1_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i < 2 ? a : b).e[2*(i % 2) + 0]; return r; }
NI int16x4_t vtrn2_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 1]; return r; }
NI int16x4_t vzip2_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 2]; return r; }
NI int16x4_t vuzp2_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i < 2 ? a : b).e[2*(i % 2) + 1]; return r; }
NI int16x4_t vpadd_s16(int16x4_t a, int16x4_t b)
{ int16x4_t r; for (int i = 0; i < 4; i++) { const int16x4_t *s = i < 2 ? &a : &b; int j = 2 * (i % 2); r.e[i] = (int16_t)((uint16_t)s->e[j] + (uint16_t)s->e[j+1]); } return r; }
NI int16_t vget_lane_s16(int16x4_t a, int k)
{ return a.e[k]; }
NI int16x4_t vset_lane_s16(int16_t v, int16x4_t a, int k)
{ a.e[k] = v; return a; }
NI int16x4_t vmla_s16(int16x4_t a, int16x4_t b, int16x4_t c)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int16_t)((uint32_t)a.e[i] + (uint32_t)b.e[i] * (uint32_t)c.e[i]); return r; }
NI int16x4_t vmls_s16(int16x4_t a, int16x4_t b, int16x4_t c)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int16_t)((uint32_t)a.e[i] - (uint32_t)b.e[i] * (uint32_t)c.e[i]); return r; }
NI int16_t vaddv_s16(int16x4_t a)
{ uint16_t s = 0; for (int i = 0; i < 4; i++) s += a.e[i]; return s; }
NI int16x4_t vcreate_s16(uint64_t u)
{ int16x4_t r; memset(&r, 0, sizeof(r)); memcpy(&r, &u, 8); return r; }
NI int16x4x2_t vld2_s16(const int16_t *p)
{ int16x4x2_t r; for (int i = 0; i < 4; i++) r.val[0].e[i] = p[2*i], r.val[1].e[i] = p[2*i+1]; return r; }
NI void vst2_s16(int16_t *p, int16x4x2_t v)
{ for (int i = 0; i < 4; i++) p[2*i] = v.val[0].e[i], p[2*i+1] = v.val[1].e[i]; }
NI int16x4x2_t vtrn_s16(int16x4_t a, int16x4_t b)
{ return (int16x4x2_t){ { vtrn1_s16(a, b), vtrn2_s16(a, b) } }; }
NI int16x4x2_t vzip_s16(int16x4_t a, int16x4_t b)
{ return (int16x4x2_t){ { vzip1_s16(a, b), vzip2_s16(a, b) } }; }
NI int16x4x2_t vuzp_s16(int16x4_t a, int16x4_t b)
{ return (int16x4x2_t){ { vuzp1_s16(a, b), vuzp2_s16(a, b) } }; }
NI int16x8_t vld1q_s16(const int16_t *p)
{ int16x8_t r; memcpy(&r, p, sizeof(r)); return r; }
NI int16x8_t vld1q_dup_s16(const int16_t *p)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = *p; return r; }
NI void vst1q_s16(int16_t *p, int16x8_t v)
{ memcpy(p, &v, sizeof(v)); }
NI int16x8_t vdupq_n_s16(int16_t v)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = v; return r; }
NI int16x8_t vmovq_n_s16(int16_t v)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = v; return r; }
NI int16x8_t vaddq_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (int16_t)((uint16_t)a.e[i] + (uint16_t)b.e[i]); return r; }
NI int16x8_t vsubq_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (int16_t)((uint16_t)a.e[i] - (uint16_t)b.e[i]); return r; }
NI int16x8_t vmulq_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (int16_t)((int32_t)a.e[i] * b.e[i]); return r; }
NI int16x8_t vextq_s16(int16x8_t a, int16x8_t b, const int n)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = i + n < 8 ? a.e[i+n] : b.e[i+n-8]; return r; }
NI int16x8_t vnegq_s16(int16x8_t a)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (int16_t)(0 - (uint16_t)a.e[i]); return r; }
NI int16x8_t vmaxq_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }
NI int16x8_t vminq_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = a.e[i] < b.e[i] ? a.e[i] : b.e[i]; return r; }
NI int16x8_t vrev64q_s16(int16x8_t a)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = a.e[i ^ 3]; return r; }
NI int16x8_t vtrn1q_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 0]; return r; }
NI int16x8_t vzip1q_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 0]; return r; }
NI int16x8_t vuzp1q_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (i < 4 ? a : b).e[2*(i % 4) + 0]; return r; }
NI int16x8_t vtrn2q_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 1]; return r; }
NI int16x8_t vzip2q_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 4]; return r; }
NI int16x8_t vuzp2q_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (i < 4 ? a : b).e[2*(i % 4) + 1]; return r; }
NI int16x8_t vpaddq_s16(int16x8_t a, int16x8_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) { const int16x8_t *s = i < 4 ? &a : &b; int j = 2 * (i % 4); r.e[i] = (int16_t)((uint16_t)s->e[j] + (uint16_t)s->e[j+1]); } return r; }
NI int16_t vgetq_lane_s16(int16x8_t a, int k)
{ return a.e[k]; }
NI int16x8_t vsetq_lane_s16(int16_t v, int16x8_t a, int k)
{ a.e[k] = v; return a; }
NI int16x8_t vmlaq_s16(int16x8_t a, int16x8_t b, int16x8_t c)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (int16_t)((uint32_t)a.e[i] + (uint32_t)b.e[i] * (uint32_t)c.e[i]); return r; }
NI int16x8_t vmlsq_s16(int16x8_t a, int16x8_t b, int16x8_t c)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = (int16_t)((uint32_t)a.e[i] - (uint32_t)b.e[i] * (uint32_t)c.e[i]); return r; }
NI int16_t vaddvq_s16(int16x8_t a)
{ uint16_t s = 0; for (int i = 0; i < 8; i++) s += a.e[i]; return s; }
NI int16x4_t vget_low_s16(int16x8_t a)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i]; return r; }
NI int16x4_t vget_high_s16(int16x8_t a)
{ int16x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i+4]; return r; }
NI int16x8_t vcombine_s16(int16x4_t a, int16x4_t b)
{ int16x8_t r; for (int i = 0; i < 8; i++) r.e[i] = i < 4 ? a.e[i] : b.e[i-4]; return r; }
NI int16x8_t emul_unused_s16(uint64_t u)
{ int16x8_t r; memset(&r, 0, sizeof(r)); memcpy(&r, &u, 8); return r; }
NI int16x8x2_t vld2q_s16(const int16_t *p)
{ int16x8x2_t r; for (int i = 0; i < 8; i++) r.val[0].e[i] = p[2*i], r.val[1].e[i] = p[2*i+1]; return r; }
NI void vst2q_s16(int16_t *p, int16x8x2_t v)
{ for (int i = 0; i < 8; i++) p[2*i] = v.val[0].e[i], p[2*i+1] = v.val[1].e[i]; }
NI int16x8x2_t vtrnq_s16(int16x8_t a, int16x8_t b)
{ return (int16x8x2_t){ { vtrn1q_s16(a, b), vtrn2q_s16(a, b) } }; }
NI int16x8x2_t vzipq_s16(int16x8_t a, int16x8_t b)
{ return (int16x8x2_t){ { vzip1q_s16(a, b), vzip2q_s16(a, b) } }; }
NI int16x8x2_t vuzpq_s16(int16x8_t a, int16x8_t b)
{ return (int16x8x2_t){ { vuzp1q_s16(a, b), vuzp2q_s16(a, b) } }; }
NI int32x2_t vld1_s32(const int32_t *p)
{ int32x2_t r; memcpy(&r, p, sizeof(r)); return r; }
NI int32x2_t vld1_dup_s32(const int32_t *p)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = *p; return r; }
NI void vst1_s32(int32_t *p, int32x2_t v)
{ memcpy(p, &v, sizeof(v)); }
NI int32x2_t vdup_n_s32(int32_t v)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = v; return r; }
NI int32x2_t vmov_n_s32(int32_t v)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = v; return r; }
NI int32x2_t vadd_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] + (uint32_t)b.e[i]); return r; }
NI int32x2_t vsub_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] - (uint32_t)b.e[i]); return r; }
NI int32x2_t vmul_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] * (uint32_t)b.e[i]); return r; }
NI int32x2_t vext_s32(int32x2_t a, int32x2_t b, const int n)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = i + n < 2 ? a.e[i+n] : b.e[i+n-2]; return r; }
NI int32x2_t vneg_s32(int32x2_t a)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int32_t)(0 - (uint32_t)a.e[i]); return r; }
NI int32x2_t vmax_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }
NI int32x2_t vmin_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] < b.e[i] ? a.e[i] : b.e[i]; return r; }
NI int32x2_t vrev64_s32(int32x2_t a)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i ^ 1]; return r; }
NI int32x2_t vtrn1_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 0]; return r; }
NI int32x2_t vzip1_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 0]; return r; }
NI int32x2_t vuzp1_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i < 1 ? a : b).e[2*(i % 1) + 0]; return r; }
NI int32x2_t vtrn2_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 1]; return r; }
NI int32x2_t vzip2_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 1]; return r; }
NI int32x2_t vuzp2_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i < 1 ? a : b).e[2*(i % 1) + 1]; return r; }
NI int32x2_t vpadd_s32(int32x2_t a, int32x2_t b)
{ int32x2_t r; for (int i = 0; i < 2; i++) { const int32x2_t *s = i < 1 ? &a : &b; int j = 2 * (i % 1); r.e[i] = (int32_t)((uint32_t)s->e[j] + (uint32_t)s->e[j+1]); } return r; }
NI int32_t vget_lane_s32(int32x2_t a, int k)
{ return a.e[k]; }
NI int32x2_t vset_lane_s32(int32_t v, int32x2_t a, int k)
{ a.e[k] = v; return a; }
NI int32x2_t vmla_s32(int32x2_t a, int32x2_t b, int32x2_t c)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] + (uint32_t)b.e[i] * (uint32_t)c.e[i]); return r; }
NI int32x2_t vmls_s32(int32x2_t a, int32x2_t b, int32x2_t c)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] - (uint32_t)b.e[i] * (uint32_t)c.e[i]); return r; }
NI int32_t vaddv_s32(int32x2_t a)
{ uint32_t s = 0; for (int i = 0; i < 2; i++) s += a.e[i]; return s; }
NI int32x2_t vcreate_s32(uint64_t u)
{ int32x2_t r; memset(&r, 0, sizeof(r)); memcpy(&r, &u, 8); return r; }
NI int32x2x2_t vld2_s32(const int32_t *p)
{ int32x2x2_t r; for (int i = 0; i < 2; i++) r.val[0].e[i] = p[2*i], r.val[1].e[i] = p[2*i+1]; return r; }
NI void vst2_s32(int32_t *p, int32x2x2_t v)
{ for (int i = 0; i < 2; i++) p[2*i] = v.val[0].e[i], p[2*i+1] = v.val[1].e[i]; }
NI int32x2x2_t vtrn_s32(int32x2_t a, int32x2_t b)
{ return (int32x2x2_t){ { vtrn1_s32(a, b), vtrn2_s32(a, b) } }; }
NI int32x2x2_t vzip_s32(int32x2_t a, int32x2_t b)
{ return (int32x2x2_t){ { vzip1_s32(a, b), vzip2_s32(a, b) } }; }
NI int32x2x2_t vuzp_s32(int32x2_t a, int32x2_t b)
{ return (int32x2x2_t){ { vuzp1_s32(a, b), vuzp2_s32(a, b) } }; }
NI int32x4_t vld1q_s32(const int32_t *p)
{ int32x4_t r; memcpy(&r, p, sizeof(r)); return r; }
NI int32x4_t vld1q_dup_s32(const int32_t *p)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = *p; return r; }
NI void vst1q_s32(int32_t *p, int32x4_t v)
{ memcpy(p, &v, sizeof(v)); }
NI int32x4_t vdupq_n_s32(int32_t v)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = v; return r; }
NI int32x4_t vmovq_n_s32(int32_t v)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = v; return r; }
NI int32x4_t vaddq_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] + (uint32_t)b.e[i]); return r; }
NI int32x4_t vsubq_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] - (uint32_t)b.e[i]); return r; }
NI int32x4_t vmulq_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] * (uint32_t)b.e[i]); return r; }
NI int32x4_t vextq_s32(int32x4_t a, int32x4_t b, const int n)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = i + n < 4 ? a.e[i+n] : b.e[i+n-4]; return r; }
NI int32x4_t vnegq_s32(int32x4_t a)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int32_t)(0 - (uint32_t)a.e[i]); return r; }
NI int32x4_t vmaxq_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }
NI int32x4_t vminq_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] < b.e[i] ? a.e[i] : b.e[i]; return r; }
NI int32x4_t vrev64q_s32(int32x4_t a)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i ^ 1]; return r; }
NI int32x4_t vtrn1q_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 0]; return r; }
NI int32x4_t vzip1q_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 0]; return r; }
NI int32x4_t vuzp1q_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i < 2 ? a : b).e[2*(i % 2) + 0]; return r; }
NI int32x4_t vtrn2q_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 1]; return r; }
NI int32x4_t vzip2q_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 2]; return r; }
NI int32x4_t vuzp2q_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i < 2 ? a : b).e[2*(i % 2) + 1]; return r; }
NI int32x4_t vpaddq_s32(int32x4_t a, int32x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) { const int32x4_t *s = i < 2 ? &a : &b; int j = 2 * (i % 2); r.e[i] = (int32_t)((uint32_t)s->e[j] + (uint32_t)s->e[j+1]); } return r; }
NI int32_t vgetq_lane_s32(int32x4_t a, int k)
{ return a.e[k]; }
NI int32x4_t vsetq_lane_s32(int32_t v, int32x4_t a, int k)
{ a.e[k] = v; return a; }
NI int32x4_t vmlaq_s32(int32x4_t a, int32x4_t b, int32x4_t c)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] + (uint32_t)b.e[i] * (uint32_t)c.e[i]); return r; }
NI int32x4_t vmlsq_s32(int32x4_t a, int32x4_t b, int32x4_t c)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (int32_t)((uint32_t)a.e[i] - (uint32_t)b.e[i] * (uint32_t)c.e[i]); return r; }
NI int32_t vaddvq_s32(int32x4_t a)
{ uint32_t s = 0; for (int i = 0; i < 4; i++) s += a.e[i]; return s; }
NI int32x2_t vget_low_s32(int32x4_t a)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i]; return r; }
NI int32x2_t vget_high_s32(int32x4_t a)
{ int32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i+2]; return r; }
NI int32x4_t vcombine_s32(int32x2_t a, int32x2_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = i < 2 ? a.e[i] : b.e[i-2]; return r; }
NI int32x4_t emul_unused_s32(uint64_t u)
{ int32x4_t r; memset(&r, 0, sizeof(r)); memcpy(&r, &u, 8); return r; }
NI int32x4x2_t vld2q_s32(const int32_t *p)
{ int32x4x2_t r; for (int i = 0; i < 4; i++) r.val[0].e[i] = p[2*i], r.val[1].e[i] = p[2*i+1]; return r; }
NI void vst2q_s32(int32_t *p, int32x4x2_t v)
{ for (int i = 0; i < 4; i++) p[2*i] = v.val[0].e[i], p[2*i+1] = v.val[1].e[i]; }
NI int32x4x2_t vtrnq_s32(int32x4_t a, int32x4_t b)
{ return (int32x4x2_t){ { vtrn1q_s32(a, b), vtrn2q_s32(a, b) } }; }
NI int32x4x2_t vzipq_s32(int32x4_t a, int32x4_t b)
{ return (int32x4x2_t){ { vzip1q_s32(a, b), vzip2q_s32(a, b) } }; }
NI int32x4x2_t vuzpq_s32(int32x4_t a, int32x4_t b)
{ return (int32x4x2_t){ { vuzp1q_s32(a, b), vuzp2q_s32(a, b) } }; }
NI int64x1_t vld1_s64(const int64_t *p)
{ int64x1_t r; memcpy(&r, p, sizeof(r)); return r; }
NI int64x1_t vld1_dup_s64(const int64_t *p)
{ int64x1_t r; for (int i = 0; i < 1; i++) r.e[i] = *p; return r; }
NI void vst1_s64(int64_t *p, int64x1_t v)
{ memcpy(p, &v, sizeof(v)); }
NI int64x1_t vdup_n_s64(int64_t v)
{ int64x1_t r; for (int i = 0; i < 1; i++) r.e[i] = v; return r; }
NI int64x1_t vmov_n_s64(int64_t v)
{ int64x1_t r; for (int i = 0; i < 1; i++) r.e[i] = v; return r; }
NI int64x1_t vadd_s64(int64x1_t a, int64x1_t b)
{ int64x1_t r; for (int i = 0; i < 1; i++) r.e[i] = (int64_t)((uint64_t)a.e[i] + (uint64_t)b.e[i]); return r; }
NI int64x1_t vsub_s64(int64x1_t a, int64x1_t b)
{ int64x1_t r; for (int i = 0; i < 1; i++) r.e[i] = (int64_t)((uint64_t)a.e[i] - (uint64_t)b.e[i]); return r; }
NI int64_t vget_lane_s64(int64x1_t a, int k)
{ return a.e[k]; }
NI int64x1_t vset_lane_s64(int64_t v, int64x1_t a, int k)
{ a.e[k] = v; return a; }
NI int64x2_t vld1q_s64(const int64_t *p)
{ int64x2_t r; memcpy(&r, p, sizeof(r)); return r; }
NI int64x2_t vld1q_dup_s64(const int64_t *p)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = *p; return r; }
NI void vst1q_s64(int64_t *p, int64x2_t v)
{ memcpy(p, &v, sizeof(v)); }
NI int64x2_t vdupq_n_s64(int64_t v)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = v; return r; }
NI int64x2_t vmovq_n_s64(int64_t v)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = v; return r; }
NI int64x2_t vaddq_s64(int64x2_t a, int64x2_t b)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int64_t)((uint64_t)a.e[i] + (uint64_t)b.e[i]); return r; }
NI int64x2_t vsubq_s64(int64x2_t a, int64x2_t b)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int64_t)((uint64_t)a.e[i] - (uint64_t)b.e[i]); return r; }
NI int64_t vgetq_lane_s64(int64x2_t a, int k)
{ return a.e[k]; }
NI int64x2_t vsetq_lane_s64(int64_t v, int64x2_t a, int k)
{ a.e[k] = v; return a; }
NI int64_t vaddvq_s64(int64x2_t a)
{ uint64_t s = 0; for (int i = 0; i < 2; i++) s += a.e[i]; return s; }
NI int64x1_t vget_low_s64(int64x2_t a)
{ int64x1_t r; for (int i = 0; i < 1; i++) r.e[i] = a.e[i]; return r; }
NI int64x1_t vget_high_s64(int64x2_t a)
{ int64x1_t r; for (int i = 0; i < 1; i++) r.e[i] = a.e[i+1]; return r; }
NI int64x2_t vcombine_s64(int64x1_t a, int64x1_t b)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = i < 1 ? a.e[i] : b.e[i-1]; return r; }
NI float32x2_t vld1_f32(const float *p)
{ float32x2_t r; memcpy(&r, p, sizeof(r)); return r; }
NI float32x2_t vld1_dup_f32(const float *p)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = *p; return r; }
NI void vst1_f32(float *p, float32x2_t v)
{ memcpy(p, &v, sizeof(v)); }
NI float32x2_t vdup_n_f32(float v)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = v; return r; }
NI float32x2_t vmov_n_f32(float v)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = v; return r; }
NI float32x2_t vadd_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] + b.e[i]; return r; }
NI float32x2_t vsub_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] - b.e[i]; return r; }
NI float32x2_t vmul_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] * b.e[i]; return r; }
NI float32x2_t vext_f32(float32x2_t a, float32x2_t b, const int n)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = i + n < 2 ? a.e[i+n] : b.e[i+n-2]; return r; }
NI float32x2_t vneg_f32(float32x2_t a)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = -a.e[i]; return r; }
NI float32x2_t vmax_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }
NI float32x2_t vmin_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] < b.e[i] ? a.e[i] : b.e[i]; return r; }
NI float32x2_t vrev64_f32(float32x2_t a)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i ^ 1]; return r; }
NI float32x2_t vtrn1_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 0]; return r; }
NI float32x2_t vzip1_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 0]; return r; }
NI float32x2_t vuzp1_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i < 1 ? a : b).e[2*(i % 1) + 0]; return r; }
NI float32x2_t vtrn2_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 1]; return r; }
NI float32x2_t vzip2_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 1]; return r; }
NI float32x2_t vuzp2_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i < 1 ? a : b).e[2*(i % 1) + 1]; return r; }
NI float32x2_t vpadd_f32(float32x2_t a, float32x2_t b)
{ float32x2_t r; for (int i = 0; i < 2; i++) { const float32x2_t *s = i < 1 ? &a : &b; int j = 2 * (i % 1); r.e[i] = s->e[j] + s->e[j+1]; } return r; }
NI float vget_lane_f32(float32x2_t a, int k)
{ return a.e[k]; }
NI float32x2_t vset_lane_f32(float v, float32x2_t a, int k)
{ a.e[k] = v; return a; }
NI float32x2_t vfma_f32(float32x2_t a, float32x2_t b, float32x2_t c)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = fmaf(b.e[i], c.e[i], a.e[i]); return r; }
NI float32x2_t vfma_n_f32(float32x2_t a, float32x2_t b, float c)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = fmaf(b.e[i], c, a.e[i]); return r; }
NI float32x2_t vmla_f32(float32x2_t a, float32x2_t b, float32x2_t c)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] + b.e[i] * c.e[i]; return r; }
NI float32x2_t vfms_f32(float32x2_t a, float32x2_t b, float32x2_t c)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = fmaf(-b.e[i], c.e[i], a.e[i]); return r; }
NI float32x2_t vfms_n_f32(float32x2_t a, float32x2_t b, float c)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = fmaf(-b.e[i], c, a.e[i]); return r; }
NI float32x2_t vmls_f32(float32x2_t a, float32x2_t b, float32x2_t c)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] - b.e[i] * c.e[i]; return r; }
NI float32x2_t vmul_n_f32(float32x2_t a, float c)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] * c; return r; }
NI float vaddv_f32(float32x2_t a)
{ float s = 0; for (int i = 0; i < 2; i++) s += a.e[i]; return s; }
NI float32x2_t vcreate_f32(uint64_t u)
{ float32x2_t r; memset(&r, 0, sizeof(r)); memcpy(&r, &u, 8); return r; }
NI float32x2x2_t vld2_f32(const float *p)
{ float32x2x2_t r; for (int i = 0; i < 2; i++) r.val[0].e[i] = p[2*i], r.val[1].e[i] = p[2*i+1]; return r; }
NI void vst2_f32(float *p, float32x2x2_t v)
{ for (int i = 0; i < 2; i++) p[2*i] = v.val[0].e[i], p[2*i+1] = v.val[1].e[i]; }
NI float32x2x2_t vtrn_f32(float32x2_t a, float32x2_t b)
{ return (float32x2x2_t){ { vtrn1_f32(a, b), vtrn2_f32(a, b) } }; }
NI float32x2x2_t vzip_f32(float32x2_t a, float32x2_t b)
{ return (float32x2x2_t){ { vzip1_f32(a, b), vzip2_f32(a, b) } }; }
NI float32x2x2_t vuzp_f32(float32x2_t a, float32x2_t b)
{ return (float32x2x2_t){ { vuzp1_f32(a, b), vuzp2_f32(a, b) } }; }
NI float32x4_t vld1q_f32(const float *p)
{ float32x4_t r; memcpy(&r, p, sizeof(r)); return r; }
NI float32x4_t vld1q_dup_f32(const float *p)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = *p; return r; }
NI void vst1q_f32(float *p, float32x4_t v)
{ memcpy(p, &v, sizeof(v)); }
NI float32x4_t vdupq_n_f32(float v)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = v; return r; }
NI float32x4_t vmovq_n_f32(float v)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = v; return r; }
NI float32x4_t vaddq_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] + b.e[i]; return r; }
NI float32x4_t vsubq_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] - b.e[i]; return r; }
NI float32x4_t vmulq_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] * b.e[i]; return r; }
NI float32x4_t vextq_f32(float32x4_t a, float32x4_t b, const int n)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = i + n < 4 ? a.e[i+n] : b.e[i+n-4]; return r; }
NI float32x4_t vnegq_f32(float32x4_t a)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = -a.e[i]; return r; }
NI float32x4_t vmaxq_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }
NI float32x4_t vminq_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] < b.e[i] ? a.e[i] : b.e[i]; return r; }
NI float32x4_t vrev64q_f32(float32x4_t a)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i ^ 1]; return r; }
NI float32x4_t vtrn1q_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 0]; return r; }
NI float32x4_t vzip1q_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 0]; return r; }
NI float32x4_t vuzp1q_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i < 2 ? a : b).e[2*(i % 2) + 0]; return r; }
NI float32x4_t vtrn2q_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 1]; return r; }
NI float32x4_t vzip2q_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 2]; return r; }
NI float32x4_t vuzp2q_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i < 2 ? a : b).e[2*(i % 2) + 1]; return r; }
NI float32x4_t vpaddq_f32(float32x4_t a, float32x4_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) { const float32x4_t *s = i < 2 ? &a : &b; int j = 2 * (i % 2); r.e[i] = s->e[j] + s->e[j+1]; } return r; }
NI float vgetq_lane_f32(float32x4_t a, int k)
{ return a.e[k]; }
NI float32x4_t vsetq_lane_f32(float v, float32x4_t a, int k)
{ a.e[k] = v; return a; }
NI float32x4_t vfmaq_f32(float32x4_t a, float32x4_t b, float32x4_t c)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = fmaf(b.e[i], c.e[i], a.e[i]); return r; }
NI float32x4_t vfmaq_n_f32(float32x4_t a, float32x4_t b, float c)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = fmaf(b.e[i], c, a.e[i]); return r; }
NI float32x4_t vmlaq_f32(float32x4_t a, float32x4_t b, float32x4_t c)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] + b.e[i] * c.e[i]; return r; }
NI float32x4_t vfmsq_f32(float32x4_t a, float32x4_t b, float32x4_t c)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = fmaf(-b.e[i], c.e[i], a.e[i]); return r; }
NI float32x4_t vfmsq_n_f32(float32x4_t a, float32x4_t b, float c)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = fmaf(-b.e[i], c, a.e[i]); return r; }
NI float32x4_t vmlsq_f32(float32x4_t a, float32x4_t b, float32x4_t c)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] - b.e[i] * c.e[i]; return r; }
NI float32x4_t vmulq_n_f32(float32x4_t a, float c)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] * c; return r; }
NI float vaddvq_f32(float32x4_t a)
{ float s = 0; for (int i = 0; i < 4; i++) s += a.e[i]; return s; }
NI float32x2_t vget_low_f32(float32x4_t a)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i]; return r; }
NI float32x2_t vget_high_f32(float32x4_t a)
{ float32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i+2]; return r; }
NI float32x4_t vcombine_f32(float32x2_t a, float32x2_t b)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = i < 2 ? a.e[i] : b.e[i-2]; return r; }
NI float32x4_t emul_unused_f32(uint64_t u)
{ float32x4_t r; memset(&r, 0, sizeof(r)); memcpy(&r, &u, 8); return r; }
NI float32x4x2_t vld2q_f32(const float *p)
{ float32x4x2_t r; for (int i = 0; i < 4; i++) r.val[0].e[i] = p[2*i], r.val[1].e[i] = p[2*i+1]; return r; }
NI void vst2q_f32(float *p, float32x4x2_t v)
{ for (int i = 0; i < 4; i++) p[2*i] = v.val[0].e[i], p[2*i+1] = v.val[1].e[i]; }
NI float32x4x2_t vtrnq_f32(float32x4_t a, float32x4_t b)
{ return (float32x4x2_t){ { vtrn1q_f32(a, b), vtrn2q_f32(a, b) } }; }
NI float32x4x2_t vzipq_f32(float32x4_t a, float32x4_t b)
{ return (float32x4x2_t){ { vzip1q_f32(a, b), vzip2q_f32(a, b) } }; }
NI float32x4x2_t vuzpq_f32(float32x4_t a, float32x4_t b)
{ return (float32x4x2_t){ { vuzp1q_f32(a, b), vuzp2q_f32(a, b) } }; }
NI uint32x2_t vld1_u32(const uint32_t *p)
{ uint32x2_t r; memcpy(&r, p, sizeof(r)); return r; }
NI uint32x2_t vld1_dup_u32(const uint32_t *p)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = *p; return r; }
NI void vst1_u32(uint32_t *p, uint32x2_t v)
{ memcpy(p, &v, sizeof(v)); }
NI uint32x2_t vdup_n_u32(uint32_t v)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = v; return r; }
NI uint32x2_t vmov_n_u32(uint32_t v)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = v; return r; }
NI uint32x2_t vadd_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (uint32_t)((uint32_t)a.e[i] + (uint32_t)b.e[i]); return r; }
NI uint32x2_t vsub_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (uint32_t)((uint32_t)a.e[i] - (uint32_t)b.e[i]); return r; }
NI uint32x2_t vmul_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (uint32_t)((uint32_t)a.e[i] * (uint32_t)b.e[i]); return r; }
NI uint32x2_t vext_u32(uint32x2_t a, uint32x2_t b, const int n)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = i + n < 2 ? a.e[i+n] : b.e[i+n-2]; return r; }
NI uint32x2_t vneg_u32(uint32x2_t a)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (uint32_t)(0 - (uint32_t)a.e[i]); return r; }
NI uint32x2_t vmax_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }
NI uint32x2_t vmin_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i] < b.e[i] ? a.e[i] : b.e[i]; return r; }
NI uint32x2_t vrev64_u32(uint32x2_t a)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i ^ 1]; return r; }
NI uint32x2_t vtrn1_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 0]; return r; }
NI uint32x2_t vzip1_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 0]; return r; }
NI uint32x2_t vuzp1_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i < 1 ? a : b).e[2*(i % 1) + 0]; return r; }
NI uint32x2_t vtrn2_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 1]; return r; }
NI uint32x2_t vzip2_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 1]; return r; }
NI uint32x2_t vuzp2_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (i < 1 ? a : b).e[2*(i % 1) + 1]; return r; }
NI uint32x2_t vpadd_u32(uint32x2_t a, uint32x2_t b)
{ uint32x2_t r; for (int i = 0; i < 2; i++) { const uint32x2_t *s = i < 1 ? &a : &b; int j = 2 * (i % 1); r.e[i] = (uint32_t)((uint32_t)s->e[j] + (uint32_t)s->e[j+1]); } return r; }
NI uint32_t vget_lane_u32(uint32x2_t a, int k)
{ return a.e[k]; }
NI uint32x2_t vset_lane_u32(uint32_t v, uint32x2_t a, int k)
{ a.e[k] = v; return a; }
NI uint32_t vaddv_u32(uint32x2_t a)
{ uint32_t s = 0; for (int i = 0; i < 2; i++) s += a.e[i]; return s; }
NI uint32x2_t vcreate_u32(uint64_t u)
{ uint32x2_t r; memset(&r, 0, sizeof(r)); memcpy(&r, &u, 8); return r; }
NI uint32x4_t vld1q_u32(const uint32_t *p)
{ uint32x4_t r; memcpy(&r, p, sizeof(r)); return r; }
NI uint32x4_t vld1q_dup_u32(const uint32_t *p)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = *p; return r; }
NI void vst1q_u32(uint32_t *p, uint32x4_t v)
{ memcpy(p, &v, sizeof(v)); }
NI uint32x4_t vdupq_n_u32(uint32_t v)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = v; return r; }
NI uint32x4_t vmovq_n_u32(uint32_t v)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = v; return r; }
NI uint32x4_t vaddq_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (uint32_t)((uint32_t)a.e[i] + (uint32_t)b.e[i]); return r; }
NI uint32x4_t vsubq_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (uint32_t)((uint32_t)a.e[i] - (uint32_t)b.e[i]); return r; }
NI uint32x4_t vmulq_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (uint32_t)((uint32_t)a.e[i] * (uint32_t)b.e[i]); return r; }
NI uint32x4_t vextq_u32(uint32x4_t a, uint32x4_t b, const int n)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = i + n < 4 ? a.e[i+n] : b.e[i+n-4]; return r; }
NI uint32x4_t vnegq_u32(uint32x4_t a)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (uint32_t)(0 - (uint32_t)a.e[i]); return r; }
NI uint32x4_t vmaxq_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] > b.e[i] ? a.e[i] : b.e[i]; return r; }
NI uint32x4_t vminq_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] < b.e[i] ? a.e[i] : b.e[i]; return r; }
NI uint32x4_t vrev64q_u32(uint32x4_t a)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i ^ 1]; return r; }
NI uint32x4_t vtrn1q_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 0]; return r; }
NI uint32x4_t vzip1q_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 0]; return r; }
NI uint32x4_t vuzp1q_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i < 2 ? a : b).e[2*(i % 2) + 0]; return r; }
NI uint32x4_t vtrn2q_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[(i & ~1) + 1]; return r; }
NI uint32x4_t vzip2q_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i & 1 ? b : a).e[i/2 + 2]; return r; }
NI uint32x4_t vuzp2q_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = (i < 2 ? a : b).e[2*(i % 2) + 1]; return r; }
NI uint32x4_t vpaddq_u32(uint32x4_t a, uint32x4_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) { const uint32x4_t *s = i < 2 ? &a : &b; int j = 2 * (i % 2); r.e[i] = (uint32_t)((uint32_t)s->e[j] + (uint32_t)s->e[j+1]); } return r; }
NI uint32_t vgetq_lane_u32(uint32x4_t a, int k)
{ return a.e[k]; }
NI uint32x4_t vsetq_lane_u32(uint32_t v, uint32x4_t a, int k)
{ a.e[k] = v; return a; }
NI uint32_t vaddvq_u32(uint32x4_t a)
{ uint32_t s = 0; for (int i = 0; i < 4; i++) s += a.e[i]; return s; }
NI uint32x2_t vget_low_u32(uint32x4_t a)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i]; return r; }
NI uint32x2_t vget_high_u32(uint32x4_t a)
{ uint32x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i+2]; return r; }
NI uint32x4_t vcombine_u32(uint32x2_t a, uint32x2_t b)
{ uint32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = i < 2 ? a.e[i] : b.e[i-2]; return r; }
NI uint32x4_t emul_unused_u32(uint64_t u)
{ uint32x4_t r; memset(&r, 0, sizeof(r)); memcpy(&r, &u, 8); return r; }

/* Widening */
NI int32x4_t vmull_s16(int16x4_t a, int16x4_t b)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i] * b.e[i]; return r; }
NI int32x4_t vmlal_s16(int32x4_t u, int16x4_t a, int16x4_t b)
{ for (int i = 0; i < 4; i++) u.e[i] = (int32_t)((uint32_t)u.e[i] + (uint32_t)(a.e[i] * b.e[i])); return u; }
NI int32x4_t vmlsl_s16(int32x4_t u, int16x4_t a, int16x4_t b)
{ for (int i = 0; i < 4; i++) u.e[i] = (int32_t)((uint32_t)u.e[i] - (uint32_t)(a.e[i] * b.e[i])); return u; }
NI int32x4_t vmull_high_s16(int16x8_t a, int16x8_t b)
{ return vmull_s16(vget_high_s16(a), vget_high_s16(b)); }
NI int32x4_t vmlal_high_s16(int32x4_t u, int16x8_t a, int16x8_t b)
{ return vmlal_s16(u, vget_high_s16(a), vget_high_s16(b)); }
NI int64x2_t vmull_s32(int32x2_t a, int32x2_t b)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int64_t)a.e[i] * b.e[i]; return r; }
NI int64x2_t vmlal_s32(int64x2_t u, int32x2_t a, int32x2_t b)
{ for (int i = 0; i < 2; i++) u.e[i] += (int64_t)a.e[i] * b.e[i]; return u; }
NI int64x2_t vpaddlq_s32(int32x4_t a)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = (int64_t)a.e[2*i] + a.e[2*i+1]; return r; }
NI int64x2_t vpadalq_s32(int64x2_t u, int32x4_t a)
{ for (int i = 0; i < 2; i++) u.e[i] += (int64_t)a.e[2*i] + a.e[2*i+1]; return u; }
NI int64x2_t vmovl_s32(int32x2_t a)
{ int64x2_t r; for (int i = 0; i < 2; i++) r.e[i] = a.e[i]; return r; }
NI int32x4_t vmovl_s16(int16x4_t a)
{ int32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i]; return r; }
NI int64x2_t vaddw_s32(int64x2_t u, int32x2_t a)
{ for (int i = 0; i < 2; i++) u.e[i] += a.e[i]; return u; }
NI int64_t vaddlvq_s32(int32x4_t a)
{ int64_t s = 0; for (int i = 0; i < 4; i++) s += a.e[i]; return s; }
NI float32x4_t vcvtq_f32_s32(int32x4_t a)
{ float32x4_t r; for (int i = 0; i < 4; i++) r.e[i] = a.e[i]; return r; }

#endif
