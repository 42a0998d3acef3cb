#!/usr/bin/env python3
"""C13 - The Python interface in lock-step with one C context per channel,
driven by ctypes: all the words of calls up to a depth, for each configuration
and number of channels."""

import array
import ctypes
import itertools
import math
import os
import struct
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B, pyshard                            # noqa: E402

sys.path.insert(0, B.REPO + '/python')
import lc3                                                      # noqa: E402

NOHR = os.environ.get('PYIF_NOHR') == '1'
LIB = B.shared('sharedstrict')
if NOHR:
    PYLIB = B.shared_nohr('sharedstrict')
else:
    PYLIB = LIB

C = ctypes.CDLL(LIB)
vp, ci = ctypes.c_void_p, ctypes.c_int
for k in ('encoder', 'decoder'):
    f = getattr(C, 'lc3_hr_%s_size' % k)
    f.argtypes, f.restype = [ctypes.c_bool, ci, ci], ctypes.c_uint
    f = getattr(C, 'lc3_hr_setup_%s' % k)
    f.argtypes, f.restype = [ctypes.c_bool, ci, ci, ci, vp], vp
C.lc3_encode.argtypes = [vp, ci, vp, ci, ci, vp]
C.lc3_decode.argtypes = [vp, vp, ci, ci, vp, ci]
C.lc3_hr_frame_samples.argtypes = [ctypes.c_bool, ci, ci]
C.lc3_hr_delay_samples.argtypes = [ctypes.c_bool, ci, ci]
C.lc3_hr_frame_block_bytes.argtypes = [ctypes.c_bool, ci, ci, ci, ci]
C.lc3_hr_resolve_bitrate.argtypes = [ctypes.c_bool, ci, ci, ci]

BPS = {16: 2, 24: 3, None: 4}
FMT = {16: 0, 24: 2, None: 3}


def configs():
    out = []
    for dt in (10000, 7500, 5000, 2500):
        for pcm in (48000, 32000, 24000, 16000, 8000):
            for sr in (48000, 32000, 24000, 16000, 8000):
                if pcm >= sr:
                    out.append((False, dt, sr, pcm))
    for dt in (10000, 5000, 2500):
        out += [(True, dt, 48000, 48000), (True, dt, 96000, 96000),
                (True, dt, 48000, 96000)]
    return [c for c in out if not (NOHR and c[0])]


class Model:
    """One C context per channel"""

    def __init__(self, cfg, nch, dec):
        hr, dt, sr, pcm = cfg
        size = (C.lc3_hr_decoder_size if dec else C.lc3_hr_encoder_size)(
            hr, dt, pcm)
        self.mem = [ctypes.create_string_buffer(size + 16) for _ in range(nch)]
        self.ctx = []
        for m in self.mem:
            p = (ctypes.addressof(m) + 15) & ~15
            f = C.lc3_hr_setup_decoder if dec else C.lc3_hr_setup_encoder
            self.ctx.append(f(hr, dt, sr, pcm, p))
        self.nch, self.ns = nch, C.lc3_hr_frame_samples(hr, dt, pcm)

    def share(self, n, i):
        return n // self.nch + (1 if i < n % self.nch else 0)

    def encode(self, raw, depth, nbytes):
        """`raw` the bytes of the interleaved samples, padded"""
        need = self.nch * self.ns * BPS[depth]
        raw = raw[:need] + bytes(max(0, need - len(raw)))
        buf = ctypes.create_string_buffer(raw, len(raw) + 4)
        out = b''
        for i in range(self.nch):
            n = self.share(nbytes, i)
            o = ctypes.create_string_buffer(max(n, 1))
            r = C.lc3_encode(self.ctx[i], FMT[depth],
                             ctypes.addressof(buf) + i * BPS[depth],
                             self.nch, n, o)
            if r:
                return None
            out += o.raw[:n]
        return out

    def decode(self, data, depth):
        buf = ctypes.create_string_buffer(self.nch * self.ns * BPS[depth] + 4)
        off = 0
        for i in range(self.nch):
            n = self.share(len(data), i)
            r = C.lc3_decode(self.ctx[i], data[off:off+n], n, FMT[depth],
                             ctypes.addressof(buf) + i * BPS[depth], self.nch)
            if r < 0:
                return None
            off += n
        return buf.raw[:self.nch * self.ns * BPS[depth]]


def make(cls, cfg, nch):
    hr, dt, sr, pcm = cfg
    k = 'input_sample_rate_hz' if cls is lc3.Encoder else \
        'output_sample_rate_hz'
    kw = {k: pcm} if pcm != sr or dt == 5000 else {}
    return cls(dt, sr, nch, hr, libpath=PYLIB, **kw)


def sig(n, nch, t, kind):
    """Interleaved samples from -1 to 1"""
    x = []
    for i in range(n):
        for c in range(nch):
            p = t * n + i
            if kind == 0:
                v = 0.5 * math.sin(p * (0.031 + 0.017 * c)) + \
                    0.2 * math.sin(p * 0.43 + c)
            elif kind == 1:         # full scale
                v = 1.0
            elif kind == 2:
                v = -1.0
            else:
                v = 1.0 if (p // 7 + c) & 1 else -1.0
            x.append(v)
    return x


def to_raw(x, depth):
    if depth is None:
        return array.array('f', x).tobytes()
    q = [max(-(1 << depth-1), min((1 << depth-1) - 1,
                                  round(v * (1 << depth-1)))) for v in x]
    if depth == 16:
        return array.array('h', q).tobytes()
    return b''.join(struct.pack('<i', v)[:3] for v in q)


def sizes(cfg):
    hr, dt, sr, pcm = cfg
    return (C.lc3_hr_frame_block_bytes(hr, dt, sr, 1, 0),
            C.lc3_hr_frame_block_bytes(hr, dt, sr, 1, 0x7fffffff))


def raises(f):
    try:
        r = f()
    except (lc3.BaseError, ValueError):
        return None
    return r if r is not None else 'nothing'


# --- Encoder ---

# depth, length of the input, kind of signal, container, size
EOPS = [
    (16, 'full', 0, bytes, 'mid'),
    (24, 'full', 0, bytes, 'mid'),
    (None, 'full', 0, list, 'mid'),
    (16, 'short1', 3, bytearray, 'max'),
    (24, 'half', 2, memoryview, 'min'),
    (None, 'short1', 0, bytes, 'max'),
    (None, 'half', 3, list, 'mid'),
    (None, 'empty', 0, list, 'mid'),
    (16, 'empty', 0, bytes, 'mid'),
    (None, 'full', 1, 'array', 'min'),
    (None, 'full', 2, list, 'mid'),
    (None, 'long', 1, 'view', 'mid'),
    (None, 'long', 3, bytearray, 'mid'),
    (24, 'long', 0, bytes, 'mid'),
    (16, 'odd', 0, bytes, 'mid'),
    (24, 'odd', 0, bytearray, 'mid'),
    (None, 'full', 0, 'iter', 'mid'),
    ('refused', 'big', 0, None, None),
    ('refused', 'small', 0, None, None),
    ('refused', 'depth', 0, None, None),
    ('refused', 'range', 0, None, None),
]


class Enc:
    def __init__(self, cfg, nch):
        self.cfg, self.nch = cfg, nch
        self.lo, self.hi = sizes(cfg)
        self.ns = C.lc3_hr_frame_samples(*(cfg[:2] + cfg[3:]))
        self.inputs = {}
        n = self.ns * nch
        for t in range(3):
            for i, (depth, length, kind, cont, size) in enumerate(EOPS):
                if depth == 'refused':
                    continue
                x = sig(self.ns, nch, t, kind)
                if length == 'short1':
                    x = x[:n-1]
                elif length == 'half':
                    x = x[:n//2]
                elif length == 'empty':
                    x = []
                elif length == 'long':
                    x = x + sig(self.ns, nch, t+1, kind) + x[:5]
                raw = to_raw(x, depth)
                if length == 'odd':
                    raw = raw[:-1]
                if depth is None:
                    x = list(array.array('f', x))
                    given = {list: x, 'array': array.array('f', x),
                             'view': memoryview(array.array('f', x)),
                             'iter': x}.get(cont)
                    if given is None:
                        given = cont(raw)
                else:
                    given = cont(raw)
                self.inputs[t, i] = given, raw
        r = sig(self.ns, nch, 0, 0)
        bad = []
        for v in (float('nan'), float('inf'), float('-inf'), 4., -1e9):
            bad.append([v] + r[1:])
            bad.append(r[:n-1] + [v])
            bad.append([v] * n)
        bad.append([1000., -1000.] + r[2:])
        self.bad = bad

    def size(self, s):
        lo, hi, nch = self.lo, self.hi, self.nch
        return {'mid': nch * ((lo + hi) // 3) + nch - 1, 'min': nch * lo,
                'max': nch * hi}[s]

    def run(self, S, word):
        e, m = make(lc3.Encoder, self.cfg, self.nch), \
            Model(self.cfg, self.nch, False)
        for t, i in enumerate(word):
            depth, length, kind, cont, size = EOPS[i]
            S.transitions += 1
            if depth == 'refused':
                given, raw = self.inputs[t, 0]
                n = self.size('mid')
                if length == 'big':
                    calls = [lambda: e.encode(given, self.nch*(self.hi+1), 16)]
                elif length == 'small':
                    calls = [lambda: e.encode(given, self.nch*(min(self.lo, 20)
                                                               - 1), 16),
                             lambda: e.encode(given, 0, 16),
                             lambda: e.encode(given, -1, 16)]
                elif length == 'depth':
                    calls = [lambda d=d: e.encode(given, n, d)
                             for d in (0, 8, 32, 128, -16)]
                else:
                    calls = [lambda b=b: e.encode(b, n) for b in self.bad[sum(word) % 5::5]]
                for k, f in enumerate(calls):
                    r = raises(f)
                    if r is not None:
                        return S.report('encode: %s parameter %d is accepted' %
                                        (length, k))
                continue
            given, raw = self.inputs[t, i]
            if cont == 'iter':
                given = iter(given)
            n = self.size(size)
            try:
                a = e.encode(given, n, depth) if depth else \
                    e.encode(given, n)
            except Exception as x:
                return S.report('encode %s: raises %r' % (EOPS[i], x))
            b = m.encode(raw, depth, n)
            S.state(b)
            if a != b or not isinstance(a, bytes):
                return S.report('encode %s: other bytes than the C contexts' %
                                (EOPS[i],))
        S.validated += 1


# --- Decoder ---

DOPS = [(d, b) for d in (16, 24, None) for b in ('good', 'bad', 'max')] + \
    [(24, 'view'), (None, 'array'), ('refused', 'big'), ('refused', 'small'),
     ('refused', 'depth')]


class Dec:
    def __init__(self, cfg, nch):
        self.cfg, self.nch = cfg, nch
        self.lo, self.hi = sizes(cfg)
        ns = C.lc3_hr_frame_samples(*(cfg[:2] + cfg[3:]))
        self.blk = {}
        n = nch * ((self.lo + self.hi) // 3) + nch - 1
        m, mx = Model(cfg, nch, False), Model(cfg, nch, False)
        for t in range(3):
            raw = to_raw(sig(ns, nch, t, 0 if t != 1 else 3), 24)
            g = m.encode(raw, 24, n)
            k = n // nch + (1 if n % nch else 0)
            self.blk[t, 'good'] = g
            # Last bytes of the first channel
            self.blk[t, 'bad'] = g[:k-6] + b'\xff' * 6 + g[k:]
            self.blk[t, 'view'] = memoryview(g)
            self.blk[t, 'array'] = bytearray(g)
            self.blk[t, 'max'] = mx.encode(raw, 24, nch * self.hi)

    def run(self, S, word):
        d, m = make(lc3.Decoder, self.cfg, self.nch), \
            Model(self.cfg, self.nch, True)
        for t, i in enumerate(word):
            depth, b = DOPS[i]
            S.transitions += 1
            if depth == 'refused':
                g = self.blk[t, 'good']
                calls = {
                    'big': [lambda: d.decode(bytes(self.nch*(self.hi+1)), 16)],
                    'small': [lambda: d.decode(bytes(self.nch*19), 24),
                              lambda: d.decode(bytes(self.nch)),
                              lambda: d.decode(b'')],
                    'depth': [lambda x=x: d.decode(g, x)
                              for x in (0, 8, 32, 128)]}[b]
                for k, f in enumerate(calls):
                    if raises(f) is not None:
                        return S.report('decode: %s parameter %d is accepted' %
                                        (b, k))
                continue
            g = self.blk[t, b]
            try:
                x = d.decode(g, depth) if depth else d.decode(g)
            except Exception as e:
                return S.report('decode %s: raises %r' % (DOPS[i], e))
            y = m.decode(bytes(g), depth)
            S.state(y)
            ok = isinstance(x, bytes) and x == y if depth else \
                isinstance(x, array.array) and x.typecode == 'f' and \
                x.tobytes() == y
            if not ok:
                return S.report('decode %s: other samples than the C contexts'
                                % (DOPS[i],))
        S.validated += 1


# --- Parameters and queries ---

def parameters(S):
    dts = (2500, 5000, 7500, 10000, 0, -1, 1000, 20000, 10)
    srs = (8000, 16000, 24000, 32000, 48000, 96000, 44100, 0, -8000)
    pcms = (None,) + srs
    vals = (0, 1, 16000, 31999, 64000, 96001, 128000, 248000, 500000,
            672000, 1000000, 0x7fffffff, -1)
    for cls in (lc3.Encoder, lc3.Decoder):
        for hr, dt, sr, pcm, nch in itertools.product(
                (False, True), dts, srs, pcms, (1, 2)):
            if NOHR and hr:
                continue
            S.trace('C13 %s hr=%s dt=%d sr=%d pcm=%s nch=%d' % (
                cls.__name__, hr, dt, sr, pcm, nch))
            S.keep_trace()
            S.transitions += 1
            rp = pcm or sr
            mem = ctypes.create_string_buffer(65536)
            ok = bool(C.lc3_hr_setup_encoder(hr, dt, sr, rp, mem)) and rp > 0
            kw = {'input_sample_rate_hz' if cls is lc3.Encoder else
                  'output_sample_rate_hz': pcm}
            try:
                h = cls(dt, sr, nch, hr, libpath=PYLIB, **kw)
            except lc3.InvalidArgumentError:
                if ok:
                    return S.report('valid parameters are refused')
                continue
            if not ok:
                # At the latest, at the first use
                f = (lambda: h.encode(bytes(65536), 200 * nch, 16)) if \
                    cls is lc3.Encoder else \
                    (lambda: h.decode(bytes(200 * nch), 16))
                if raises(f) is not None:
                    return S.report('invalid parameters give an output')
                continue
            got = (h.get_frame_samples(), h.get_delay_samples(), h.hrmode,
                   h.frame_duration_us, h.sample_rate_hz,
                   h.pcm_sample_rate_hz, h.num_channels)
            want = (C.lc3_hr_frame_samples(hr, dt, rp),
                    C.lc3_hr_delay_samples(hr, dt, rp), hr, dt, sr, rp, nch)
            if got != want:
                return S.report('properties %r instead of %r' % (got, want))
            for v in vals:
                for name, q, w in (
                    ('get_frame_bytes', h.get_frame_bytes,
                     C.lc3_hr_frame_block_bytes(hr, dt, sr, nch, v)),
                    ('resolve_bitrate', h.resolve_bitrate,
                     C.lc3_hr_resolve_bitrate(hr, dt, sr, v))):
                    r = raises(lambda: q(v))
                    if NOHR and nch > 1:    # whole bytes for each channel
                        r = None if r is None else r
                        if name == 'get_frame_bytes' and r is not None and \
                                w >= 0 and abs(r - w) < nch:
                            r = w
                    if r != (w if w >= 0 else None):
                        return S.report('%s(%d) is %r instead of %r' % (
                            name, v, r, w))
            S.validated += 1


def channels(S):
    """A count of channels which is not one gives no output"""
    for cls, dec, nch, dt, sr in itertools.product(
            (lc3.Encoder, lc3.Decoder), (False, True), (0, -1, -2),
            (2500, 7500, 10000), (8000, 48000)):
        if dec != (cls is lc3.Decoder):
            continue
        S.trace('C13 %s dt=%d sr=%d nch=%d' % (cls.__name__, dt, sr, nch))
        S.keep_trace()
        for depth in (16, 24, None):
            S.transitions += 1
            def use():
                h = cls(dt, sr, nch, libpath=PYLIB)
                if dec:
                    return h.decode(bytes(100), depth)
                return h.encode(bytes(8000) if depth else [0.] * 2000, 100,
                                depth)
            if raises(use) is not None:
                return S.report('%d channels give an output' % nch)
        S.validated += 1


def release(S):
    """Contexts are given back"""
    def rss():
        return int(open('/proc/self/statm').read().split()[1]) * 4096
    for cls in (lc3.Encoder, lc3.Decoder):
        n = 4000
        def new():
            return cls(10000, 96000, 2, True, libpath=PYLIB)
        if NOHR:
            def new():
                return cls(10000, 48000, 2, libpath=PYLIB)
        for i in range(200):
            new()
        a = rss()
        for i in range(n):
            new()
        used = rss() - a
        size = (C.lc3_hr_encoder_size if cls is lc3.Encoder else
                C.lc3_hr_decoder_size)(not NOHR, 10000, 48000 if NOHR else 96000)
        S.transitions += n
        S.validated += 1
        if used > n * size:
            return S.report('%s: %d objects deleted, %d bytes still used' %
                            (cls.__name__, n, used))


def main():
    S = pyshard.Shard(sys.argv)
    cfgs = configs()
    chs = (1, 2, 3, 5) if S.thorough else (1, 2, 3)
    while S.next(3 + 2 * len(chs) * len(cfgs)):
        S.trace('C13')
        if S.item < 3:
            S.keep_trace()
            try:
                (parameters, release, channels)[S.item](S)
            except Exception as e:
                S.report('raises %r' % e)
            continue
        i = S.item - 3
        dec, nch, cfg = i & 1, chs[i // 2 % len(chs)], cfgs[i // 2 // len(chs)]
        S.keep_trace()
        try:
            D = (Dec if dec else Enc)(cfg, nch)
        except Exception as e:
            S.report('raises %r' % e)
            continue
        ops = range(len(DOPS if dec else EOPS))
        depth = 3 if S.thorough else 2
        for w in itertools.product(ops, repeat=depth):
            # The float path walks each sample, keep the words short
            S.trace('C13 %s %s nch=%d ops %r' % (
                'decoder' if dec else 'encoder', cfg, nch, w))
            if not S.thorough and (cfg[2] < cfg[3] < 48000) and \
                    w[0] % 3 != 0:
                continue
            if NOHR and not S.thorough and sum(w) % 4:
                continue
            n = S.nviol
            S.keep_trace()
            try:
                D.run(S, w)
            except Exception as e:
                S.report('raises %r' % e)
            if S.nviol > n:
                break
    S.sample(S.where)
    S.end()


main()
