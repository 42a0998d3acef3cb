struct kern_ltpf {
    unsigned hp50_size;
    void (*resample)(int sr, void *hp50, const int16_t *x, int16_t *y, int n);
    void (*resample_6k4)(const int16_t *x, int16_t *y, int n);
    float (*dot)(const int16_t *a, const int16_t *b, int n);
    void (*correlate)(const int16_t *a, const int16_t *b, int n, float *y, int nc);
};

struct kern_mdct {
    int (*ns)(int dt, int sr);
    int (*nd)(int dt, int sr);
    void (*forward)(int dt, int sr, const float *x, float *d, float *y);
    void (*inverse)(int dt, int sr, const float *x, float *d, float *y);
};
