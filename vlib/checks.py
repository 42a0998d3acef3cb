"""What each check explores"""

from . import build as B

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def prop(p, *flags):
    return ['-DPROP="%s"' % p] + list(flags)


MSAN = ('-DSAFE', '-DMSAN', '-fsanitize=memory')


def marginal(stats, viols):
    # When the implementation rounds differently than the model (many
    # frames explained by a non nominal run), rare marginal cases are not
    # conclusive
    out = []
    for item, text in viols:
        if 'differs from the encoding procedure' not in text:
            out.append((item, text))
            continue
        hr = '_hr' if text.startswith('HR/') else ''
        u, g = stats['unexplained' + hr], stats['guided' + hr]
        if u > (0.1 * g + (g > 0) if hr else 0.002 * g):
            out.append((item, text))
    return out


@check
def C01(c):
    c.explore('dec_conf', 'san', with_ref=True, tag='C01',
              flags=prop('C01', '-DSAFE'))
    c.explore('dec_conf', 'msan', with_ref=True, tag='C01',
              flags=prop('C01', *MSAN))


@check
def C02(c):
    c.explore('enc_conf', 'san', with_ref=True, tag='C02',
              flags=prop('C02', '-DSAFE'))
    c.explore('enc_conf', 'msan', with_ref=True, tag='C02',
              flags=prop('C02', *MSAN))


@check
def C03(c):
    c.explore('enc_conf', 'strict', with_ref=True, tag='C03',
              flags=prop('C03', '-DRT'))
    c.explore('enc_conf', 'prod', with_ref=True, tag='C03',
              flags=prop('C03', '-DRT', '-DNOCELLS'))
    c.explore('fill', 'prod', with_ref=True)


@check
def C04(c):
    c.explore('dec_conf', 'strict', with_ref=True)
    c.explore('dec_conf', 'prod', with_ref=True)


@check
def C05(c):
    c.explore('enc_conf', 'strict', with_ref=True, rule=marginal)


@check
def C06(c):
    c.explore('plc', 'strict', with_ref=True)
    c.explore('plc', 'prod', with_ref=True)


@check
def C07(c):
    c.explore('iso', 'strict')
    c.explore('iso', 'tsan', flags=['-DSCHED'], phase='iso-accesses')


@check
def C18(c):
    for v, plus, hr in (('noplus', 0, 1), ('nohr', 1, 0), ('noplushr', 0, 0)):
        try:
            x = B.lib(v, prefix='x_')
        except B.BuildError as e:
            # A supported build option that does not compile
            c.violation('the %s build does not compile: %s' % (v, e),
                        {'variant': v})
            continue
        c.explore('reduced', 'strict', phase='reduced-' + v, tag=v, libs=[x],
                  flags=['-DPLUS=%d' % plus, '-DHR=%d' % hr])


@check
def C08(c):
    c.explore('query', 'prod')
    c.explore('query', 'san', flags=['-DSMALL'])


@check
def C09(c):
    c.explore('reject', 'strict')
    c.explore('reject', 'san')


@check
def C10(c):
    c.explore('pcm', 'strict', with_ref=True)
    c.explore('pcm', 'prod', with_ref=True)


@check
def C16(c):
    c.explore('noltpf', 'strict', with_ref=True, rule=marginal)


@check
def C11(c):
    c.explore('fresh', 'strict', with_ref=True)
    c.explore('fresh', 'san', with_ref=True)


@check
def C21(c):
    inc = [B.REPO + '/src']
    c.explore('bitcoder', 'strict', incs=inc)
    c.explore('bitcoder', 'san', incs=inc, flags=['-DSHALLOW'])


@check
def C20(c):
    opts = [('gcc', ['-O3', '-ffast-math']), ('clang', ['-O3', '-ffast-math'])]
    if c.thorough:
        opts += [('gcc', ['-O2', '-ffp-contract=off']),
                 ('gcc', ['-O0', '-ffast-math']), ('gcc', ['-Os']),
                 ('gcc', ['-O2', '-ffast-math', '-fno-strict-aliasing']),
                 ('gcc', ['-O3', '-ffast-math', '-mfma', '-mavx2']),
                 ('clang', ['-O1', '-ffast-math']),
                 ('clang', ['-O3', '-ffast-math', '-mfma', '-mavx2']),
                 ('clang', ['-O2'])]
    for cc, o in opts:
        tag = cc + ''.join(o).replace('=', '')
        try:
            k = B.obj('mathx_kern', cc, o)
        except B.BuildError as e:
            c.note('%s not built: %s' % (tag, str(e)[-400:]))
            continue
        c.explore('mathx', 'prod', phase='mathx-' + tag, libs=[k], tag=tag)


@check
def C12(c):
    for v, o in (('strict', ['-O2']), ('san', ['-O1', '-g',
                 '-fsanitize=address,undefined', '-fno-sanitize=vptr',
                 '-fno-sanitize-recover=all'])):
        try:
            k = B.obj('cpp_shim', 'g++', o)
        except B.BuildError as e:
            c.note('the C++ interface does not compile: %s' % str(e)[-600:])
            return
        c.explore('cppif', v, libs=[k, '-lstdc++'],
                  flags=['-DSMALL'] if v == 'san' else [])


@check
def C13(c):
    B.shared('sharedstrict')
    exe = B.VERIF + '/harness/pyif.py'
    c.run(exe, 'pyif')
    c.run(exe, 'pyif-older-library', env={'PYIF_NOHR': '1'})


SANF = ('-O1', '-g', '-fsanitize=address,undefined',
        '-fno-sanitize-recover=all')


@check
def C15(c):
    try:
        objs = [B.tool_obj(o, SANF) for o in ('lc3bin', 'wave')]
    except B.BuildError as e:
        c.note('not built: %s' % str(e)[-600:])
        return
    c.explore('container', 'san', libs=objs, incs=[B.REPO + '/tools'],
              flags=['-std=gnu11'])


@check
def C14(c):
    exe = B.VERIF + '/harness/toolsrun.py'
    B.shared('sharedstrict')
    for m in ('strict', 'san', 'py'):
        try:
            if m != 'py':
                x = [] if m == 'strict' else ['-fsanitize=address,undefined']
                for t in ('elc3', 'dlc3'):
                    B.tool(t, m, [] if m == 'strict' else list(SANF), x)
        except B.BuildError as e:
            c.note('%s tools not built: %s' % (m, str(e)[-600:]))
            continue
        c.run(exe, 'tools-' + m, env={'TOOLS': m})


@check
def C19(c):
    base = ['-O2', '-ffp-contract=off']
    for f, targets in (('ltpf', ('neon', 'arm')), ('mdct', ('neon',))):
        for t in targets:
            try:
                objs = []
                for v, fl in (('gen', []), (t, {'neon': B.NEON, 'arm': B.ARM + B.ALIGN}[t])):
                    n = 'k_%s_%s' % (v, f)
                    objs.append(B.obj('kern_' + f, 'gcc', base + fl +
                                      ['-DKNAME=' + n], keep=n))
            except B.BuildError as e:
                c.note('kernels %s %s not built: %s' % (f, t, str(e)[-400:]))
                continue
            c.explore('kern', 'strict', phase='kern-%s-%s' % (f, t),
                      libs=objs + ['-fsanitize=undefined'],
                      tag=f + t, flags=['-D%s=1' % f.upper(),
                                        '-DV%s=k_%s_%s' % (f.upper(), t, f)])
    for t in ('arm', 'neonltpf', 'neon'):
        try:
            x = B.lib(t, prefix='x_')
        except B.BuildError as e:
            c.note('codec for %s not built: %s' % (t, str(e)[-400:]))
            continue
        c.explore('target', 'strict', phase='target-' + t, tag=t,
                  libs=[x, '-fsanitize=undefined'],
                  flags=['-DEXACT'] if t != 'neon' else [])


def repeated(stats, viols):
    # Small differences with the model, from rounding, are rare
    few = stats.get('soft', 0) <= max(8, 0.002 * stats.get('streams', 0))
    return [v for v in viols if not (few and v[1].startswith('soft:'))]


@check
def C17(c):
    for v in ('prod', 'strict') if c.thorough else ('prod',):
        c.explore('fid', v, with_ref=True, rule=repeated)


@check
def C22(c):
    for v in ('prod', 'strict') if c.thorough else ('prod',):
        c.explore('pcmrate', v, with_ref=True, rule=repeated)


@check
def C23(c):
    # Same IEEE arithmetic on both sides, then the documented options
    for v, flags, d in (
            ('strict', ['-O2', '-ffp-contract=off', '-fno-math-errno',
                        '-fno-honor-nans', '-fno-signed-zeros'],
             ['-DEXACT']),
            ('prod', ['-O3', '-ffast-math'], [])):
        try:
            w = B.wasm(flags)
            B.run(['node', '--version'])
        except (B.BuildError, OSError) as e:
            c.note('WebAssembly build (%s) skipped: %s' % (v, str(e)[-600:]))
            continue
        c.explore('wasm', v, phase='wasm-' + v, flags=d + [
            '-DWASM="%s"' % w, '-DSCRIPT="%s/harness/wasmrun.js"' % B.VERIF],
            rule=repeated)
    try:
        x = B.lib('abi', prefix='x_')
    except B.BuildError as e:
        c.note('build with short enumerations skipped: %s' % str(e)[-600:])
        return
    c.explore('reduced', 'strict', phase='abi', tag='abi', libs=[x],
              flags=['-DPLUS=1', '-DHR=1', '-DABI'])
