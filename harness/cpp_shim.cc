/* The C++ interface, for the harness in C */
#include <lc3_cpp.h>

using namespace lc3;

template <class T> static int query(T *h, int q, int v)
{
    switch (q) {
    case 0: return h->GetFrameSamples();
    case 1: return h->GetDelaySamples();
    case 2: return h->GetFrameBytes(v);
    }
    return h->ResolveBitrate(v);
}

extern "C" {

void *ce_new(int dt, int sr, int pcm, int nch, int hr)
{
    return !hr && nch == 1 && !pcm ? new Encoder(dt, sr) :
           !hr && nch == 1         ? new Encoder(dt, sr, pcm) :
           !hr                     ? new Encoder(dt, sr, pcm, nch) :
                                     new Encoder(dt, sr, pcm, nch, true);
}

void *cd_new(int dt, int sr, int pcm, int nch, int hr)
{
    return !hr && nch == 1 && !pcm ? new Decoder(dt, sr) :
           !hr && nch == 1         ? new Decoder(dt, sr, pcm) :
           !hr                     ? new Decoder(dt, sr, pcm, nch) :
                                     new Decoder(dt, sr, pcm, nch, true);
}

void ce_del(void *h) { delete (Encoder *)h; }
void cd_del(void *h) { delete (Decoder *)h; }
void ce_reset(void *h) { ((Encoder *)h)->Reset(); }
void cd_reset(void *h) { ((Decoder *)h)->Reset(); }
void ce_noltpf(void *h) { ((Encoder *)h)->DisableLTPF(); }

/* Formats 0..3: selected, 4..6: by the type of the samples, 7: invalid */
int ce_encode(void *h, int fmt, const void *x, int n, uint8_t *out)
{
    Encoder *e = (Encoder *)h;
    switch (fmt) {
    case 0: return e->Encode(PcmFormat::kS16, x, n, out);
    case 1: return e->Encode(PcmFormat::kS24, x, n, out);
    case 2: return e->Encode(PcmFormat::kS24In3Le, x, n, out);
    case 3: return e->Encode(PcmFormat::kF32, x, n, out);
    case 4: return e->Encode((const int16_t *)x, n, out);
    case 5: return e->Encode((const int32_t *)x, n, out);
    case 6: return e->Encode((const float *)x, n, out);
    }
    return e->Encode(static_cast<PcmFormat>(fmt), x, n, out);
}

int cd_decode(void *h, const uint8_t *in, int n, int fmt, void *x)
{
    Decoder *d = (Decoder *)h;
    switch (fmt) {
    case 0: return d->Decode(in, n, PcmFormat::kS16, x);
    case 1: return d->Decode(in, n, PcmFormat::kS24, x);
    case 2: return d->Decode(in, n, PcmFormat::kS24In3Le, x);
    case 3: return d->Decode(in, n, PcmFormat::kF32, x);
    case 4: return d->Decode(in, n, (int16_t *)x);
    case 5: return d->Decode(in, n, (int32_t *)x);
    case 6: return d->Decode(in, n, (float *)x);
    }
    return d->Decode(in, n, static_cast<PcmFormat>(fmt), x);
}

int ce_query(void *h, int q, int v) { return query((Encoder *)h, q, v); }
int cd_query(void *h, int q, int v) { return query((Decoder *)h, q, v); }

}
