/*
 * Reference model of the codec, see README.md
 */
#ifndef REF_H
#define REF_H

#include <stdint.h>
#include <stdbool.h>

#ifdef __cplusplus
extern "C" {
#endif

#define REF_MAX_NE 960

/* Syntax elements of a frame */

struct ref_frame {
    int stage;                      /* where refused, 0 when accepted */
    int bw, nq, lsb_mode, g_idx;
    int nfilters, lpc_weighting, rc_order[2], rc[2][8];
    int pitch_present, ltpf_active, pitch_index;
    int lfcb, hfcb, shape, gain, idx_a, idx_b, ls_a, ls_b;
    int nf, nleft;
    float x[REF_MAX_NE];            /* quantized, with residual on parsing */
    float lo[REF_MAX_NE], hi[REF_MAX_NE];   /* quantization cell */
};

int ref_ne(int hr, int dt_us, int sr_hz);
int ref_parse(int hr, int dt_us, int sr_hz,
    const void *data, int nbytes, struct ref_frame *f);
int ref_write(int hr, int dt_us, int sr_hz,
    const struct ref_frame *f, int tail, void *out, int nbytes);

extern float ref_tol[REF_MAX_NE];      /* rounding error of the quantizer input */
extern float ref_level;                 /* of the last decoded frame, not saturated */
void ref_set_pert(unsigned seed, float scale);
void ref_set_guide(const struct ref_frame *f, float tol);
int ref_guide_state(void);      /* of the last encoding, coefficients out of the
                                   cells of the guide, -1: other gain */

/* The model has the interface of the codec */

int ref_lc3_hr_frame_samples(bool, int, int);
int ref_lc3_hr_frame_bytes(bool, int, int, int);
int ref_lc3_hr_frame_block_bytes(bool, int, int, int, int);
int ref_lc3_hr_resolve_bitrate(bool, int, int, int);
int ref_lc3_hr_delay_samples(bool, int, int);
unsigned ref_lc3_hr_encoder_size(bool, int, int);
unsigned ref_lc3_hr_decoder_size(bool, int, int);
void *ref_lc3_hr_setup_encoder(bool, int, int, int, void *);
void *ref_lc3_hr_setup_decoder(bool, int, int, int, void *);
void ref_lc3_encoder_disable_ltpf(void *);
int ref_lc3_encode(void *, int, const void *, int, int, void *);
int ref_lc3_decode(void *, const void *, int, int, void *, int);

#ifdef __cplusplus
}
#endif
#endif
