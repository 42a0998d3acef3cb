/*
 * Reference model - access points used by the checks:
 * parsing a frame to its syntax elements, and writing arbitrary ones.
 *
 * Included after spec.c, to reach its internals.
 */

#include "src/spec.c"
#include "ref.h"

#include <lc3.h>
#include "src/sns.h"
#include "src/plc.h"

int ref_pert;
static uint32_t pert_s = 1;
float ref_noise_scale = 1;
float ref_err[960];

void ref_set_pert(unsigned seed, float scale)
{
    ref_pert = seed != 0;
    pert_s = seed * 2654435761u + 12345;
    ref_noise_scale = scale;
}

float ref_noise(void)
{
    pert_s ^= pert_s << 13, pert_s ^= pert_s >> 17, pert_s ^= pert_s << 5;
    return ref_noise_scale * ((int32_t)pert_s / 2147483648.f);
}

void ref_set_guide(const struct ref_frame *f, float tol)
{
    ref_guide_lo = f ? f->lo : NULL;
    ref_guide_hi = f ? f->hi : NULL;
    ref_guide_n = REF_MAX_NE;
    ref_guide_g_idx = f ? f->g_idx : 0;
    ref_guide_tol = tol;
}

static enum lc3_dt ref_dt(int us)
{
    return us == 2500 ? LC3_DT_2M5 : us == 5000 ? LC3_DT_5M :
           us == 7500 ? LC3_DT_7M5 : LC3_DT_10M;
}

static enum lc3_srate ref_sr(int hr, int hz)
{
    return hr ? (hz == 48000 ? LC3_SRATE_48K_HR : LC3_SRATE_96K_HR) :
        hz ==  8000 ? LC3_SRATE_8K  : hz == 16000 ? LC3_SRATE_16K :
        hz == 24000 ? LC3_SRATE_24K : hz == 32000 ? LC3_SRATE_32K :
                      LC3_SRATE_48K;
}

int ref_guide_state(void)
{
    return ref_guide_nout;
}

int ref_ne(int hr, int dt_us, int sr_hz)
{
    return lc3_ne(ref_dt(dt_us), ref_sr(hr, sr_hz));
}

/* Parse a frame, 0: Accepted  -1: Refused (`stage` tells where) */

int ref_parse(int hr, int dt_us, int sr_hz,
    const void *data, int nbytes, struct ref_frame *f)
{
    enum lc3_dt dt = ref_dt(dt_us);
    enum lc3_srate sr = ref_sr(hr, sr_hz);

    enum lc3_bandwidth bw;
    lc3_spec_side_t spec;
    lc3_tns_data_t tns = { 0 };
    lc3_sns_data_t sns = { 0 };
    lc3_ltpf_data_t ltpf = { 0 };
    lc3_bits_t bits;

    memset(f, 0, sizeof(*f));
    lc3_setup_bits(&bits, LC3_BITS_MODE_READ, (void *)data, nbytes);

    f->stage = 1;
    if (lc3_bwdet_get_bw(&bits, sr, &bw) < 0)
        return -1;
    f->bw = bw;

    f->stage = 2;
    if (lc3_spec_get_side(&bits, dt, sr, &spec) < 0)
        return -1;
    f->nq = spec.nq, f->lsb_mode = spec.lsb_mode, f->g_idx = spec.g_idx;

    f->stage = 3;
    if (lc3_tns_get_data(&bits, dt, bw, nbytes, &tns) < 0)
        return -1;
    f->nfilters = tns.nfilters, f->lpc_weighting = tns.lpc_weighting;
    memcpy(f->rc_order, tns.rc_order, sizeof(f->rc_order));
    for (int i = 0; i < tns.nfilters; i++)
        for (int k = 0; k < tns.rc_order[i]; k++)
            f->rc[i][k] = tns.rc[i][k];

    f->pitch_present = lc3_get_bit(&bits);

    f->stage = 4;
    if (lc3_sns_get_data(&bits, &sns) < 0)
        return -1;
    f->lfcb = sns.lfcb, f->hfcb = sns.hfcb;
    f->shape = sns.shape, f->gain = sns.gain;
    f->idx_a = sns.idx_a, f->ls_a = sns.ls_a;
    if (sns.shape == 0)
        f->idx_b = sns.idx_b, f->ls_b = sns.ls_b;

    if (f->pitch_present) {
        lc3_ltpf_get_data(&bits, &ltpf);
        f->ltpf_active = ltpf.active, f->pitch_index = ltpf.pitch_index;
    }

    f->stage = 5;
    f->nf = get_noise_factor(&bits);

    uint16_t seed;
    if (get_quantized(&bits, dt, sr, nbytes,
            spec.nq, spec.lsb_mode, f->x, &seed) < 0)
        return -1;

    int nleft = lc3_get_bits_left(&bits);
    int ne = lc3_ne(dt, sr);
    float q0 = lc3_hr(sr) ? 0.5f : 6.f/16, q1 = lc3_hr(sr) ? 0.5f : 10.f/16;

    f->nleft = nleft;

    if (spec.lsb_mode) {
        get_lsb(&bits, nleft, f->x, spec.nq, &seed);
        for (int i = 0; i < spec.nq; i++) {
            float a = fabsf(f->x[i]), l = a ? a - q0 : -q1, h = a + q1;
            f->lo[i] = f->x[i] < 0 ? -h : l;
            f->hi[i] = f->x[i] < 0 ? -l : h;
        }

    } else {
        float q[LC3_MAX_NE];
        memcpy(q, f->x, spec.nq * sizeof(float));
        get_residual(&bits, nleft, lc3_hr(sr), f->x, spec.nq);

        int nz = 0;
        for (int i = 0; i < spec.nq; i++)
            nz += q[i] != 0;

        for (int i = 0, iz = 0; i < spec.nq; i++) {
            float a = fabsf(q[i]);
            if (a == 0) {
                f->lo[i] = -q1, f->hi[i] = q1;
                continue;
            }

            int n = nz ? nleft / nz + (iz < nleft % nz) : 0;
            if (n > (lc3_hr(sr) ? 20 : 1))
                n = lc3_hr(sr) ? 20 : 1;
            iz++;

            double l = a - q0, h = a + q1, v = fabsf(f->x[i]);
            if (n > 0 && !lc3_hr(sr)) {
                if (v < a) h = a; else l = a;
            } else if (n > 0) {
                double w = ldexp(1, -n-1);
                l = v - w, h = v + w;
            }

            f->lo[i] = q[i] < 0 ? -h : l;
            f->hi[i] = q[i] < 0 ? -l : h;
        }
    }

    for (int i = spec.nq; i < ne; i++)
        f->x[i] = 0, f->lo[i] = -q1, f->hi[i] = q1;

    f->stage = 6;
    if (lc3_check_bits(&bits) < 0)
        return -1;

    f->stage = 0;
    return 0;
}

/* Write a frame from arbitrary syntax elements.
 * The bits left are filled with the `tail` pattern (0: 0s, 1: 1s, 2: mixed)
 * return   0: The frame holds everything  -1: Overflow */

int ref_write(int hr, int dt_us, int sr_hz,
    const struct ref_frame *f, int tail, void *out, int nbytes)
{
    enum lc3_dt dt = ref_dt(dt_us);
    enum lc3_srate sr = ref_sr(hr, sr_hz);
    lc3_bits_t bits;

    memset(out, 0, nbytes);
    lc3_setup_bits(&bits, LC3_BITS_MODE_WRITE, out, nbytes);

    lc3_bwdet_put_bw(&bits, sr, (enum lc3_bandwidth)f->bw);

    lc3_put_bits(&bits, (f->nq >> 1) - 1, get_nbits_nq(dt, sr));
    lc3_put_bit(&bits, f->lsb_mode);
    lc3_put_bits(&bits, f->g_idx, 8);

    lc3_tns_data_t tns = {
        .nfilters = 1 + (dt >= LC3_DT_5M && f->bw >= LC3_BANDWIDTH_SWB),
        .lpc_weighting = nbytes * 8 < 120 * (int)(1 + dt),
        .rc_order = { f->rc_order[0], f->rc_order[1] } };
    memcpy(tns.rc, f->rc, sizeof(tns.rc));
    lc3_tns_put_data(&bits, &tns);

    lc3_put_bit(&bits, f->pitch_present);

    lc3_sns_data_t sns = { .lfcb = f->lfcb, .hfcb = f->hfcb,
        .shape = f->shape, .gain = f->gain,
        .idx_a = f->idx_a, .ls_a = f->ls_a,
        .idx_b = f->idx_b, .ls_b = f->ls_b };
    lc3_sns_put_data(&bits, &sns);

    if (f->pitch_present) {
        lc3_put_bit(&bits, f->ltpf_active);
        lc3_put_bits(&bits, f->pitch_index, 9);
    }

    put_noise_factor(&bits, f->nf);

    float x[LC3_MAX_NE];
    memcpy(x, f->x, sizeof(x));
    put_quantized(&bits, dt, sr, nbytes, x, f->nq, f->lsb_mode);

    int nleft = lc3_get_bits_left(&bits);
    uint32_t s = 0xace1u;
    for (int i = 0; i < nleft; i++) {
        s ^= s << 13, s ^= s >> 17, s ^= s << 5;
        lc3_put_bit(&bits, tail == 2 ? s & 1 : tail);
    }

    int ret = lc3_check_bits(&bits);
    lc3_flush_bits(&bits);
    return ret;
}
