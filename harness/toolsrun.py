#!/usr/bin/env python3
"""C14 - The command line tools on bounded families of streams: what they
write is compared with a model of the files, whose frames and samples are given
by one context of the library per channel.
   toolsrun.py OUTDIR SHARD TIER SEED DEADLINE [ITEM]
environment TOOLS: strict (plain), san (sanitizers), py (Python tools)"""

import ctypes
import itertools
import math
import os
import shutil
import struct
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build as B, pyshard, checks                    # noqa: E402

MODE = os.environ.get('TOOLS', 'strict')
LIB = B.shared('sharedstrict')
C = ctypes.CDLL(LIB)
vp, ci, cb = ctypes.c_void_p, ctypes.c_int, ctypes.c_bool
for k in ('encoder', 'decoder'):
    f = getattr(C, 'lc3_hr_%s_size' % k)
    f.argtypes, f.restype = [cb, ci, ci], ctypes.c_uint
    f = getattr(C, 'lc3_hr_setup_%s' % k)
    f.argtypes, f.restype = [cb, ci, ci, ci, vp], vp
C.lc3_encode.argtypes = [vp, ci, vp, ci, ci, vp]
C.lc3_decode.argtypes = [vp, vp, ci, ci, vp, ci]
C.lc3_hr_frame_samples.argtypes = [cb, ci, ci]
C.lc3_hr_delay_samples.argtypes = [cb, ci, ci]
C.lc3_hr_frame_block_bytes.argtypes = [cb, ci, ci, ci, ci]
C.lc3_hr_resolve_bitrate.argtypes = [cb, ci, ci, ci]

if MODE == 'san':
    F = list(checks.SANF)
    ELC3 = [B.tool('elc3', 'san', F, ['-fsanitize=address,undefined'])]
    DLC3 = [B.tool('dlc3', 'san', F, ['-fsanitize=address,undefined'])]
elif MODE == 'strict':
    ELC3, DLC3 = [B.tool('elc3', 'strict')], [B.tool('dlc3', 'strict')]
else:
    ELC3 = [sys.executable, '-B', B.REPO + '/python/tools/encoder.py']
    DLC3 = [sys.executable, '-B', B.REPO + '/python/tools/decoder.py']
ENV = dict(B.ENV, PYTHONPATH=B.REPO + '/python', PYTHONDONTWRITEBYTECODE='1',
           ASAN_OPTIONS='detect_leaks=0:exitcode=99',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=99')

CFMT = {2: 0, 3: 2, 4: 1}       # bytes of a sample


# --- Model of the files ---

def contexts(dec, hr, dt, sr, pcm, nch):
    out = []
    for _ in range(nch):
        size = (C.lc3_hr_decoder_size if dec else C.lc3_hr_encoder_size)(
            hr, dt, pcm)
        m = ctypes.create_string_buffer(size + 16)
        p = (ctypes.addressof(m) + 15) & ~15
        f = C.lc3_hr_setup_decoder if dec else C.lc3_hr_setup_encoder
        out.append((f(hr, dt, sr, pcm, p), m))
    return out


def share(n, nch, i):
    return n // nch + (1 if i < n % nch else 0)


def signal(n, nch, nbytes, kind=0):
    """Interleaved bytes of the samples"""
    out = bytearray()
    s = 12345 + n
    for i in range(n):
        for c in range(nch):
            s = (s * 1103515245 + 12345) & 0x7fffffff
            v = 0.5 * math.sin(i * (0.05 + 0.03 * c)) + \
                0.1 * math.sin(i * 0.7 + c) + (s / 2**31 - .5) * .02
            if kind == 1:
                v = 1 - 1e-9 if (i // 5 + c) & 1 else -1
            b = 16 if nbytes == 2 else 24
            out += struct.pack('<i', int(v * (1 << b-1)))[:nbytes]
    return bytes(out)


def wav_file(pcm, sr, nch, nbytes, bits, ext=16, chunks=(), trail=b'',
             nframes=None):
    fmt = struct.pack('<HHIIHH', 1 if ext < 40 else 0xfffe, nch, sr,
                      sr * nch * nbytes, nch * nbytes, bits)
    fmt += bytes(ext - 16)
    body = b'WAVEfmt ' + struct.pack('<I', len(fmt)) + fmt
    for n in chunks:
        body += b'LIST' + struct.pack('<I', n) + b'data' * (n // 4 + 1)
        body = body[:len(body) - (4 - n % 4)] + (b'\0' if n & 1 else b'')
    n = len(pcm) if nframes is None else nframes * nch * nbytes
    body += b'data' + struct.pack('<I', n) + pcm
    if trail:
        body += (b'\0' if len(pcm) & 1 else b'') + trail
    return b'RIFF' + struct.pack('<I', len(body)) + body


def wav_parse(b):
    """Header and samples of a plain wave file"""
    if b[:4] != b'RIFF' or b[8:16] != b'WAVEfmt ':
        return None
    n, = struct.unpack('<I', b[16:20])
    fmt, nch, sr, br, fs, bits = struct.unpack('<HHIIHH', b[20:36])
    p = 20 + n
    if b[p:p+4] != b'data':
        return None
    size, = struct.unpack('<I', b[p+4:p+8])
    return (fmt, nch, sr, br, fs, bits, size), b[p+8:]


def coded_file(hr, dt, sr, pcm_sr, nch, nbytes, raw, bitrate):
    """Frames for the samples `raw` of a stream"""
    n = len(raw) // (nch * nbytes)
    block = C.lc3_hr_frame_block_bytes(hr, dt, pcm_sr, nch, bitrate)
    rate = C.lc3_hr_resolve_bitrate(hr, dt, pcm_sr, block)
    ns = C.lc3_hr_frame_samples(hr, dt, pcm_sr)
    total = n + C.lc3_hr_delay_samples(hr, dt, pcm_sr)
    count = n * sr // pcm_sr
    out = struct.pack('<HHHHHHHI', 0xcc1c, 20 if hr else 18, sr // 100,
                      rate // 100, nch, dt // 10, 0, count)
    if hr:
        out += struct.pack('<H', 1)
    ctx = contexts(False, hr, dt, sr, pcm_sr, nch)
    size = ns * nch * nbytes
    i = 0
    while i * ns < total:
        x = raw[i * size:(i + 1) * size]
        x = ctypes.create_string_buffer(x + bytes(size - len(x)), size + 4)
        out += struct.pack('<H', block)
        for c in range(nch):
            o = ctypes.create_string_buffer(share(block, nch, c))
            C.lc3_encode(ctx[c][0], CFMT[nbytes],
                         ctypes.addressof(x) + c * nbytes, nch, len(o), o)
            out += o.raw
        i += 1
    return out


def header(b):
    """Coded file header, None when refused"""
    if len(b) < 18:
        return None
    fid, size, sr, rate, nch, dt, ep, n = struct.unpack('<HHHHHHHI', b[:18])
    if fid != 0xcc1c or size < 18 or ep or n >= 1 << 31:
        return None
    hr = False
    if size >= 20:
        if len(b) < 20:
            return None
        hr = b[18:20] != b'\0\0'
    dt, sr = dt * 10, sr * 100
    if dt not in (2500, 5000, 7500, 10000) or nch not in (1, 2):
        return None
    if sr not in ((48000, 96000) if hr else (8000, 16000, 24000, 32000, 48000)):
        return None
    if hr and dt == 7500:
        return None
    return hr, dt, sr, nch, n, size


def decoded(b, nbytes, pcm_sr=0):
    """Samples for a coded file"""
    h = header(b)
    if not h:
        return None
    hr, dt, sr, nch, n, pos = h
    psr = pcm_sr or sr
    n = n * psr // sr
    ns = C.lc3_hr_frame_samples(hr, dt, psr)
    delay = C.lc3_hr_delay_samples(hr, dt, psr)
    ctx = contexts(True, hr, dt, sr, psr, nch)
    out, i, size = b'', 0, ns * nch * nbytes
    limit = nch * 625
    while i * ns < n + delay:
        o = ctypes.create_string_buffer(size + 4)
        ok = False
        if pos + 2 <= len(b):
            z, = struct.unpack('<H', b[pos:pos+2])
            pos += 2
            if 0 < z <= limit:
                ok = pos + z <= len(b)
                x = b[pos:pos+z] if ok else b''
                pos = min(pos + z, len(b))
        else:
            pos = len(b)
        if ok:
            k = 0
            for c in range(nch):
                m = share(z, nch, c)
                p = ctypes.addressof(o) + c * nbytes
                r = C.lc3_decode(ctx[c][0], x[k:k+m], m, CFMT[nbytes], p, nch)
                if r < 0:       # Concealed
                    C.lc3_decode(ctx[c][0], None, 0, CFMT[nbytes], p, nch)
                k += m
        out += o.raw[:size]
        i += 1
    fs = nch * nbytes
    return out[delay * fs:(delay + n) * fs]


# --- Runs ---

class Run:

    def __init__(self, S):
        self.S = S
        self.d = tempfile.mkdtemp(prefix='tools', dir=S.outdir)
        self.a, self.b = self.d + '/in', self.d + '/out'
        self.n = 0

    def tool(self, cmd, data, args=(), io='files'):
        """Return code and output"""
        self.n += 1
        self.S.transitions += 1
        if os.path.exists(self.b):
            os.unlink(self.b)
        with open(self.a, 'wb') as f:
            f.write(data)
        files = {'files': [self.a, self.b], 'pipes': [], 'in': [self.a]}[io]
        try:
            if io == 'files':
                p = subprocess.run(cmd + list(args) + files, env=ENV,
                                   stdin=subprocess.DEVNULL,
                                   stdout=subprocess.DEVNULL,
                                   stderr=subprocess.PIPE, timeout=60)
                out = open(self.b, 'rb').read() if os.path.exists(self.b) \
                    else b''
            else:
                p = subprocess.run(cmd + list(args) + files, env=ENV,
                                   input=data, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=60)
                out = p.stdout
        except subprocess.TimeoutExpired:
            return 'hang', b'', b''
        return p.returncode, out, p.stderr

    def abnormal(self, rc, err):
        if rc == 'hang':
            self.S.report('the tool hangs')
            return True
        if rc < 0 or rc == 99 or b'runtime error' in err or \
                b'AddressSanitizer' in err:
            i = max(err.find(b'ERROR'), err.find(b'runtime error') - 60, 0)
            self.S.report('the tool crashes (%s) %s' % (rc, err[i:i+900].decode(
                errors='replace')))
            return True
        return False

    def coded(self, raw, hr, dt, sr, psr, nch, nbytes, bitrate, io='files',
              **kw):
        """elc3, returns the coded file"""
        bits = 16 if nbytes == 2 else 24
        w = wav_file(raw, psr, nch, nbytes, bits, **kw)
        if MODE == 'py':
            args = ['--bitrate', str(bitrate), '--frame_duration',
                    '%g' % (dt / 1000), '--libpath', LIB]
        else:
            args = ['-b', str(bitrate), '-m', '%g' % (dt / 1000)]
            # The rate of the samples is accepted too
            args += ['-r', str(sr)] if sr != psr or len(raw) % 3 == 0 else []
            args += ['-H'] if hr else []
        rc, out, err = self.tool(ELC3, w, args, io)
        if self.abnormal(rc, err):
            return None
        if rc:
            self.S.report('encoder refuses: %s' % err[-300:].decode(
                errors='replace'))
            return None
        want = coded_file(hr, dt, sr, psr, nch, nbytes, raw, bitrate)
        self.S.state(want)
        if out != want:
            at = next((i for i, (x, y) in enumerate(zip(out, want)) if x != y),
                      min(len(out), len(want)))
            self.S.report('coded file of %d bytes, expected %d, differs at %d' %
                          (len(out), len(want), at))
            return None
        self.S.validated += 1
        return out

    def decode(self, b, nbytes, psr=0, io='files', damaged=False):
        if MODE == 'py':
            args = ['--bit_depth', str(8 * nbytes), '--libpath', LIB]
        else:
            args = ['-b', str(8 * nbytes)] if nbytes != 2 or len(b) & 1 else []
            if not psr and not damaged and len(b) % 3 == 0:
                psr = (header(b) or (0, 0, 0))[2]
            args += ['-r', str(psr)] if psr else []
        rc, out, err = self.tool(DLC3, b, args, io)
        if self.abnormal(rc, err):
            return False
        want = decoded(b, nbytes, psr)
        if want is None or rc:
            if want is None and not rc:
                self.S.report('decoder accepts an unsupported file')
                return False
            if rc and not damaged and want is not None:
                self.S.report('decoder refuses: %s' % err[-300:].decode(
                    errors='replace'))
                return False
            self.S.validated += 1
            return True
        hr, dt, sr, nch, n, _ = header(b)
        sr = psr or sr
        self.S.state(want)
        h = wav_parse(out)
        fs = nch * nbytes
        if not h or h[0] != (1, nch, sr, sr * fs, fs, 8 * nbytes, len(want)):
            self.S.report('wave header %r, for %d bytes of samples' % (
                h and h[0], len(want)))
            return False
        if h[1] != want:
            at = next((i for i, (x, y) in enumerate(zip(h[1], want)) if x != y),
                      min(len(h[1]), len(want)))
            self.S.report('%d samples, expected %d, differ at %d' % (
                len(h[1]) // fs, len(want) // fs, at // fs))
            return False
        self.S.validated += 1
        return True

    def both(self, raw, hr, dt, sr, psr, nch, nbytes, bitrate, io='files',
             out=None, orate=0, **kw):
        self.S.trace('C14 %s hr=%d %d us %d Hz (%d Hz) %d channels, %d bytes, '
                     '%d samples, %d bps %s %r' % (
                         MODE, hr, dt, sr, psr, nch, nbytes,
                         len(raw) // (nch * nbytes), bitrate, io, kw))
        self.S.keep_trace()
        b = self.coded(raw, hr, dt, sr, psr, nch, nbytes, bitrate, io, **kw)
        if b is None:
            return False
        return self.decode(b, out or min(nbytes, 3), orate, io)

    def refused(self, cmd, data, args, what):
        self.S.trace('C14 %s refused: %s %r' % (MODE, what, args))
        self.S.keep_trace()
        rc, out, err = self.tool(cmd, data, args)
        if self.abnormal(rc, err):
            return False
        if rc == 0:
            self.S.report('%s is accepted' % what)
            return False
        self.S.validated += 1
        return True

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def items(S):
    """The families, as functions of a Run"""
    T = S.thorough
    dts, srs = (10000, 7500, 5000, 2500), (8000, 16000, 24000, 32000, 48000)
    cfgs = [(False, d, s) for d in dts for s in srs] + \
        [(True, d, s) for d in dts if d != 7500 for s in (48000, 96000)]
    out = []

    def info(hr, dt, sr):
        return C.lc3_hr_frame_samples(hr, dt, sr), \
            C.lc3_hr_delay_samples(hr, dt, sr)

    if MODE == 'py':
        # Python tools: no high-resolution mode nor other rate
        for (hr, dt, sr), nch in itertools.product(cfgs, (1, 2)):
            if hr or (not T and (sr + nch + dt // 2500) % 3 == 0):
                continue
            ns, dl = info(hr, dt, sr)
            for i, n in enumerate((1, ns - dl, ns - dl + 1, 2 * ns + 5)):
                def f(R, dt=dt, sr=sr, nch=nch, n=n, i=i):
                    nb = 2 + (i & 1)
                    R.both(signal(n, nch, nb), False, dt, sr, sr, nch, nb,
                           64000 * nch)
                out.append(f)
        return out

    san = MODE == 'san'

    # Every length of the stream
    for (hr, dt, sr), nch in itertools.product(cfgs, (1, 2)):
        ns, dl = info(hr, dt, sr)
        full = not san and (T or ns <= 80)
        lens = list(range(0, 3 * ns + 2)) if full and (
            T or nch == 1 or ns <= 20) else \
            sorted({0, 1, 2, 7, dl - 1, dl, dl + 1, ns - dl - 1, ns - dl,
                    ns - dl + 1, ns - 1, ns, ns + 1, 2*ns - dl - 1, 2*ns - dl,
                    2*ns - dl + 1, 2*ns - 1, 2*ns, 2*ns + 1, 3*ns + dl})
        if san and not T:
            lens = lens[(sr // 8000 + nch) % 3::3]
        for k in range(0, len(lens), 16):
            def f(R, hr=hr, dt=dt, sr=sr, nch=nch, ls=lens[k:k+16]):
                for i, n in enumerate(ls):
                    if n < 0:
                        continue
                    nb = (3, 2, 4)[(n + i) % 3] if hr else (2, 2, 3, 4)[n & 3]
                    if not R.both(signal(n, nch, nb, n % 5 == 4), hr, dt, sr,
                                  sr, nch, nb, nch * (200000 if hr else 48000 +
                                                      n % 7 * 800),
                                  io='files' if n % 8 else 'pipes',
                                  out=2 + (n >> 1 & 1)):
                        return
            out.append(f)

    # Rate options
    for dt, sr, psr in itertools.product(dts, srs, srs):
        if psr <= sr:
            continue
        def f(R, dt=dt, sr=sr, psr=psr):
            ns, dl = info(False, dt, psr)
            for i, n in enumerate((0, 1, 5, ns - dl, ns + 1, 2 * ns + 6)):
                nch = 1 + (i & 1)
                raw = signal(n, nch, 2)
                if not R.both(raw, False, dt, sr, psr, nch, 2, 40000 * nch):
                    return
                if not R.both(raw, False, dt, sr, psr, nch, 2, 40000 * nch,
                              orate=psr):
                    return
        if not san or T or (sr + psr) % 3 == 0:
            out.append(f)
    for dt in (10000, 5000, 2500):
        def f(R, dt=dt):
            for n in (0, 3, 333, 1700):
                raw = signal(n, 2, 3)
                for o in (0, 96000):
                    if not R.both(raw, True, dt, 48000, 96000, 2, 3, 512000,
                                  orate=o):
                        return
        out.append(f)

    # Bitrates: limits and remainders
    for hr, dt, sr in cfgs:
        if not T and sr not in (16000, 48000, 96000):
            continue
        def f(R, hr=hr, dt=dt, sr=sr):
            ns, dl = info(hr, dt, sr)
            for nch in (1, 2):
                raw = signal(ns + 3, nch, 2)
                lo = C.lc3_hr_frame_block_bytes(hr, dt, sr, nch, 0)
                hi = C.lc3_hr_frame_block_bytes(hr, dt, sr, nch, 0x7fffffff)
                for z in (lo, lo + 1, (lo + hi) // 2, (lo + hi) // 2 + 1,
                          hi - 1, hi):
                    r = C.lc3_hr_resolve_bitrate(hr, dt, sr, z)
                    if not R.both(raw, hr, dt, sr, sr, nch, 2, r):
                        return
                for r in (1, 2000000000):
                    if not R.both(raw, hr, dt, sr, sr, nch, 2, r):
                        return
        out.append(f)

    # Layouts of the wave file
    def layouts(R):
        raw = signal(100, 2, 3)
        for ext, ch, tr, io in itertools.product(
                (16, 18, 40), ((), (1,), (4,), (3, 10)),
                (b'', b'LIST\4\0\0\0abcd', b'\x7f\x11' * 500),
                ('files', 'pipes', 'in')):
            if not R.both(raw, False, 10000, 8000, 8000, 2, 3, 64000, io,
                          ext=ext, chunks=ch, trail=tr):
                return
    out.append(layouts)

    # Wave file shorter than what it says: the end is silence
    def shortwav(R):
        raw = signal(150, 1, 2)
        for k in range(0, 301, 7):
            R.S.trace('C14 wave file truncated at %d' % k)
            w = wav_file(raw, 8000, 1, 2, 16)[:44 + k]
            rc, o, err = R.tool(ELC3, w, ['-b', '24000'])
            if R.abnormal(rc, err):
                return
            x = raw[:k - k % 2]
            want = coded_file(False, 10000, 8000, 8000, 1, 2,
                              x + bytes(300 - len(x)), 24000)
            if not rc and o != want:
                return R.S.report('other frames than those of the samples')
            R.S.validated += 1
    out.append(shortwav)

    # Refused
    def refused(R):
        def w(sr=48000, nch=1, nb=2, bits=16, n=100):
            return wav_file(bytes(n * nch * nb), sr, nch, nb, bits)
        for args in (['-b', '0'], ['-b', '-1'], [], ['-b', 'x'],
                     ['-b', '64000', '-m', '3'], ['-b', '64000', '-m', '0'],
                     ['-b', '64000', '-m', '-10'], ['-b', '64000', '-r', '44100'],
                     ['-b', '64000', '-r', '96000'], ['-b', '64000', '-r', '-8'],
                     ['-b', '256000', '-H', '-m', '7.5'],
                     ['-b', '256000', '-H', '-r', '16000'],
                     ['-b', '256000', '-H', '-r', '96000'],
                     ['-x'], ['-b', '64000', '-zz']):
            if not R.refused(ELC3, w(), args, 'option of the encoder'):
                return
        for kw in (dict(sr=44100), dict(sr=96000), dict(nch=3), dict(nch=8),
                   dict(nb=1, bits=8), dict(nb=4, bits=32), dict(nb=3, bits=16),
                   dict(nb=2, bits=24), dict(sr=11025)):
            if not R.refused(ELC3, w(**kw), ['-b', '64000'], 'wave %r' % kw):
                return
        for sr in (8000, 32000):
            if not R.refused(ELC3, w(sr=sr), ['-b', '256000', '-H'],
                             'high-resolution at %d' % sr):
                return
        c = coded_file(False, 10000, 16000, 16000, 1, 2, signal(300, 1, 2),
                       32000)
        for args in (['-b', '8'], ['-b', '0'], ['-b', '20'], ['-b', '32'],
                     ['-b', 'x'], ['-r', '8000'], ['-r', '44100'],
                     ['-r', '96000'], ['-x'], ['-r', '-1']):
            if not R.refused(DLC3, c, args, 'option of the decoder'):
                return
        # Every truncation of the headers
        for t in range(0, 18):
            if not R.refused(DLC3, c[:t], [], 'header cut at %d' % t):
                return
        h = coded_file(True, 10000, 48000, 48000, 1, 2, signal(300, 1, 2),
                       250000)
        for t in range(0, 20):
            if not R.refused(DLC3, h[:t], [], 'header cut at %d' % t):
                return
        for t in range(0, 44):
            if not R.refused(ELC3, w()[:t], ['-b', '64000'],
                             'wave header cut at %d' % t):
                return
    out.append(refused)

    # Damaged files: truncated at each position, each byte altered
    for v, (hr, dt, sr, nch, rate) in enumerate((
            (False, 10000, 8000, 1, 16000), (False, 2500, 16000, 2, 130000),
            (False, 7500, 24000, 2, 48000), (True, 2500, 48000, 1, 172800),
            (True, 10000, 96000, 2, 400000), (False, 5000, 48000, 1, 90000))):
        ns, dl = info(hr, dt, sr)
        nb = 2 + (v & 1)
        c = coded_file(hr, dt, sr, sr, nch, nb, signal(2 * ns + 7, nch, nb),
                       rate)
        hs = 20 if hr else 18
        step = 1 if T else 3 if len(c) < 300 else 11
        pos = [k for k in range(18, len(c)) if k % step == v % step or k < hs]
        for k in range(0, len(pos), 40):
            def f(R, c=c, nb=nb, v=v, ps=pos[k:k+40]):
                for p in ps:
                    R.S.trace('C14 %s stream %d truncated at %d' % (MODE, v, p))
                    R.S.keep_trace()
                    if not R.decode(c[:p], nb, damaged=True):
                        return
            out.append(f)
        # Header bytes, sizes of the blocks, and some data
        blocks, p = [], hs
        while p < len(c):
            z, = struct.unpack('<H', c[p:p+2])
            blocks += [p, p + 1] + [p + 2 + z - 1, p + 4]
            p += 2 + z
        pos = list(range(0, hs)) + blocks
        for k in range(0, len(pos), 4):
            def f(R, c=c, nb=nb, v=v, ps=pos[k:k+4]):
                for p in ps:
                    for x in (0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80,
                              0xff, c[p]):
                        # Very long streams
                        if p in (16, 17) and (x ^ c[p]) & (0x7f if p == 17
                                                           else 0xff) > 1:
                            continue
                        d = bytearray(c)
                        d[p] ^= x
                        if (p == 17 and d[p] & 0x7f) or d == c and x:
                            continue
                        R.S.trace('C14 %s stream %d byte %d ^ %02x' % (
                            MODE, v, p, x))
                        R.S.keep_trace()
                        if not R.decode(bytes(d), nb, damaged=True):
                            return
            out.append(f)
        # Blocks lost, repeated, of other sizes
        def f(R, c=c, nb=nb, v=v, hs=hs, nch=nch, hr=hr):
            bl, p = [], hs
            while p < len(c):
                z, = struct.unpack('<H', c[p:p+2])
                bl.append(c[p:p+2+z])
                p += 2 + z
            odd = [struct.pack('<H', z) + bytes((i * 37 + z) & 255 for i in
                                                range(z))
                   for z in (0, 1, 2, 19 * nch, 20 * nch - 1, 20 * nch, 400,
                             401 * nch, 625 * nch, 625 * nch + 1)]
            for o in odd:
                for at in range(len(bl) + 1):
                    for rep in (0, 1):
                        R.S.trace('C14 %s stream %d block of %d at %d' % (
                            MODE, v, len(o) - 2, at))
                        R.S.keep_trace()
                        d = c[:hs] + b''.join(bl[:at]) + o + \
                            b''.join(bl[at+rep:])
                        if not R.decode(d, nb, damaged=True):
                            return
        out.append(f)
    return out


def main():
    S = pyshard.Shard(sys.argv)
    fs = items(S)
    # Long ones first
    R = Run(S)
    while S.next(len(fs)):
        S.trace('C14')
        try:
            fs[S.item](R)
        except Exception as e:
            import traceback
            S.report('harness: ' + traceback.format_exc()[-900:])
    R.close()
    S.sample(S.where)
    S.end()


main()
