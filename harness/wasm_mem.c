/* Sizes of the types for static allocations, on this target */
#include <lc3.h>

#define T(dt, sr) case dt * 7 + sr: \
    return dec ? sizeof(LC3_DECODER_MEM_T(dt, sr)) : \
                 sizeof(LC3_ENCODER_MEM_T(dt, sr));
#define TS(sr) T(2500, sr) T(5000, sr) T(7500, sr) T(10000, sr)

int mem_size(int dec, int dt, int sr)
{
    switch (dt * 7 + sr) {
        TS(8000) TS(16000) TS(24000) TS(32000) TS(48000) TS(96000)
    }
    return -1;
}

int mem_size_td(int k)
{
    return k == 0 ? sizeof(lc3_encoder_mem_16k_t) :
           k == 1 ? sizeof(lc3_encoder_mem_48k_t) :
           k == 2 ? sizeof(lc3_decoder_mem_16k_t) :
                    sizeof(lc3_decoder_mem_48k_t);
}
