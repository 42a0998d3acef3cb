"""Builds of the code under test (from /repo's working tree), of the reference
model and of the harnesses. Everything goes to /verif/build (git ignored)."""

import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

ENV = dict(os.environ)
for k in ('CFLAGS', 'LDFLAGS', 'MAKEFLAGS', 'LD_LIBRARY_PATH', 'PYTHONPATH'):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=ENV, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' +
                         p.stdout.decode(errors='replace')[-4000:])
    return p.stdout.decode(errors='replace')


UBSAN = ('bounds,shift-exponent,integer-divide-by-zero,null,'
         'pointer-overflow,vla-bound,bool,enum,object-size,return,'
         'float-cast-overflow,signed-integer-overflow')

EMUL = VERIF + '/harness/arm'
NEON = ['-D__ARM_NEON=1', '-D__ARM_ARCH_ISA_A64=1', '-I' + EMUL]
ARM = ['-D__ARM_FEATURE_SIMD32=1', '-D__ARM_FEATURE_SAT=1', '-D__ARM_ARCH=7',
       '-I' + EMUL]

ALIGN = ['-fsanitize=alignment', '-fno-sanitize-recover=all', '-g']

# variant: (compiler, flags)
VARIANTS = {
    'prod': ('gcc', ['-O3', '-ffast-math', '-std=c11']),
    'o0': ('gcc', ['-O0', '-ffast-math', '-std=c11']),
    'strict': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11']),
    'fma': ('gcc', ['-O3', '-ffast-math', '-mfma', '-mavx2', '-std=c11']),
    'clang': ('clang', ['-O3', '-ffast-math', '-std=c11']),
    'san': ('gcc', ['-O1', '-g', '-std=c11', '-fno-omit-frame-pointer',
                    '-fsanitize=address', '-fsanitize=' + UBSAN,
                    '-fno-sanitize-recover=all']),
    'msan': ('clang', ['-O1', '-g', '-std=c11', '-fsanitize=memory',
                       '-fno-omit-frame-pointer']),
    'tsan': ('clang', ['-O1', '-g', '-std=c11', '-fPIC', '-fsanitize=thread',
                       '-mllvm', '-tsan-instrument-func-entry-exit=0',
                       '-mllvm', '-tsan-distinguish-volatile=0']),
    # Code of the ARM targets, on emulated instructions
    'neon': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11'] + NEON),
    'neonltpf': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11']),
    'arm': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11'] + ARM + ALIGN),
    'noplus': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11', '-DLC3_PLUS=0']),
    'nohr': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11', '-DLC3_PLUS_HR=0']),
    'noplushr': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11', '-DLC3_PLUS=0',
                         '-DLC3_PLUS_HR=0']),
    # ABI of embedded targets
    'abi': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11', '-fshort-enums',
                    '-funsigned-char', '-funsigned-bitfields']),
    'shared': ('gcc', ['-O3', '-ffast-math', '-std=c11', '-fPIC']),
    'sharedstrict': ('gcc', ['-O2', '-ffp-contract=off', '-std=c11', '-fPIC']),
    'sharedo1': ('gcc', ['-O1', '-ffast-math', '-std=c11', '-fPIC']),
}


# Flags for some files only
PERFILE = {'neonltpf': {'ltpf': NEON}}


def digest(paths, extra=''):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def repo_sources():
    return sorted(glob.glob(REPO + '/src/*.c'))


def repo_files():
    return repo_sources() + glob.glob(EMUL + '/*.h') + glob.glob(REPO + '/src/*.h') + \
        glob.glob(REPO + '/include/*.h')


class Lock:
    """One builder at a time per target"""

    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, '.' + name + '.lock')

    def __enter__(self):
        self.f = open(self.path, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def target(name, key, build):
    """Run `build(dir)` once for this key, return the directory"""
    d = os.path.join(BUILD, name)
    with Lock(name.replace('/', '_')):
        stamp = os.path.join(d, '.stamp')
        if os.path.exists(stamp) and open(stamp).read() == key:
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        build(d)
        with open(stamp, 'w') as f:
            f.write(key)
    return d


def compile_all(jobs):
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))


def lib(variant, extra=(), prefix=None):
    """Objects of the library under test; returns the .a path.
    With `prefix`, its lc3_* symbols get the prefix"""
    cc, flags = VARIANTS[variant]
    flags = flags + list(extra)
    name = 'lib-' + variant + (('-' + prefix) if prefix else '')
    if extra:
        name += '-' + hashlib.sha256(' '.join(extra).encode()).hexdigest()[:6]

    def build(d):
        objs, jobs = [], []
        for c in repo_sources():
            o = os.path.join(d, os.path.basename(c)[:-2] + '.o')
            objs.append(o)
            x = PERFILE.get(variant, {}).get(os.path.basename(c)[:-2], [])
            jobs.append([cc] + flags + x +
                        ['-w', '-I' + REPO + '/include', '-I' + REPO + '/src',
                         '-c', c, '-o', o])
        compile_all(jobs)
        a = os.path.join(d, 'lib.a')
        if prefix:
            rename(d, objs, prefix, os.path.join(d, 'all.o'))
            run(['ar', 'rcs', a, os.path.join(d, 'all.o')])
        else:
            run(['ar', 'rcs', a] + objs)

    key = digest(repo_files(), repr((variant, flags, prefix)))
    return os.path.join(target(name, key, build), 'lib.a')


def wasm(flags):
    """The library, built for WebAssembly as documented"""
    src = repo_sources() + [VERIF + '/harness/wasm_mem.c']
    cc = ['clang', '--target=wasm32', '-std=c11', '-w', '-mbulk-memory',
          '-I' + REPO + '/wasm', '-I' + REPO + '/include']

    def build(d):
        objs = [os.path.join(d, os.path.basename(c)[:-2] + '.o') for c in src]
        compile_all([cc + flags + ['-c', c, '-o', o]
                     for c, o in zip(src, objs)])
        run(['clang', '--target=wasm32', '-nostdlib', '-Wl,--no-entry',
             '-Wl,--export-dynamic', '-Wl,--export=__data_end',
             '-Wl,--export=__stack_pointer', '-Wl,--export=mem_size',
             '-Wl,--export=mem_size_td'] + objs +
            ['-o', os.path.join(d, 'liblc3.wasm')])

    key = digest(repo_files() + glob.glob(REPO + '/wasm/*') + src[-1:],
                 repr(flags))
    name = 'wasm-' + hashlib.sha256(repr(flags).encode()).hexdigest()[:6]
    return os.path.join(target(name, key, build), 'liblc3.wasm')


def rename(d, objs, prefix, out):
    run(['ld', '-r', '-o', out + '.tmp'] + objs)
    syms = run(['nm', '-g', '--defined-only', out + '.tmp'])
    with open(os.path.join(d, 'redef'), 'w') as f:
        for line in syms.splitlines():
            s = line.split()[-1]
            if not s.startswith((prefix, '__')):
                f.write('%s %s%s\n' % (s, prefix, s))
    run(['objcopy', '--redefine-syms=' + os.path.join(d, 'redef'),
         out + '.tmp', out])


def shared(variant='shared', extra=(), visibility=True):
    """The library under test as a shared object"""
    cc, flags = VARIANTS[variant]
    flags = flags + list(extra)

    def build(d):
        objs, jobs = [], []
        for c in repo_sources():
            o = os.path.join(d, os.path.basename(c)[:-2] + '.o')
            objs.append(o)
            jobs.append([cc] + flags + ['-w', '-I' + REPO + '/include',
                                        '-I' + REPO + '/src', '-c', c,
                                        '-o', o])
        compile_all(jobs)
        run([cc, '-shared', '-o', os.path.join(d, 'liblc3.so.1')] + objs +
            ['-lm'])
        os.symlink('liblc3.so.1', os.path.join(d, 'liblc3.so'))

    key = digest(repo_files(), repr((variant, flags, 'so')))
    return os.path.join(target('so-' + variant, key, build), 'liblc3.so')


def shared_nohr(variant='shared'):
    """The shared object as older versions export it, without lc3_hr_*"""
    cc, flags = VARIANTS[variant]
    a = lib(variant)

    def build(d):
        with open(os.path.join(d, 'map'), 'w') as f:
            f.write('{ global: lc3_[!h]*; local: *; };\n')
        run([cc, '-shared', '-Wl,--version-script=' + os.path.join(d, 'map'),
             '-o', os.path.join(d, 'liblc3.so'), '-Wl,--whole-archive', a,
             '-Wl,--no-whole-archive', '-lm'])

    key = digest(repo_files(), repr((variant, flags, 'so-nohr')))
    return os.path.join(target('so-nohr-' + variant, key, build), 'liblc3.so')


def ref(variant=''):
    """The reference model, as an object whose symbols start with ref_"""
    r = VERIF + '/ref'
    srcs = [s for s in sorted(glob.glob(r + '/src/*.c'))
            if not s.endswith('/spec.c')] + [r + '/ref_ext.c']
    deps = glob.glob(r + '/src/*') + glob.glob(r + '/include/*') + \
        glob.glob(r + '/*.[ch]')
    flags = ['-O2', '-std=c11', '-ffp-contract=off', '-fno-math-errno', '-w',
             '-I' + r, '-I' + r + '/src', '-I' + r + '/include']
    cc = 'gcc'
    if variant == 'msan':       # Not checked, but writes initialized values
        cc, flags = 'clang', flags + ['-fsanitize=memory']

    def build(d):
        objs, jobs = [], []
        for c in srcs:
            o = os.path.join(d, os.path.basename(c)[:-2] + '.o')
            objs.append(o)
            jobs.append([cc] + flags + ['-c', c, '-o', o])
        compile_all(jobs)
        rename(d, objs, 'ref_', os.path.join(d, 'ref.o'))

    key = digest(deps, repr(flags))
    return os.path.join(target('ref' + variant, key, build), 'ref.o')


def obj(name, cc, flags, keep=None):
    """A file of the harnesses, compiled with its own options.
    With `keep`, only this symbol stays global"""
    cpp = os.path.exists(VERIF + '/harness/%s.cc' % name)
    src = VERIF + '/harness/%s.c' % name + ('c' if cpp else '')
    flags = ['-std=c++11' if cpp else '-std=c11', '-w', '-I' + VERIF + '/harness', '-I' + REPO + '/src',
             '-I' + REPO + '/include'] + list(flags)
    key = digest([src] + glob.glob(VERIF + '/harness/*.h') + repo_files(),
                 repr((cc, flags)))
    out = 'o-%s-%s' % (name, hashlib.sha256(repr((cc, flags)).encode())
                       .hexdigest()[:8])

    def build(d):
        o = os.path.join(d, name + '.o')
        run([cc] + flags + ['-c', src, '-o', o])
        if keep:
            run(['objcopy', '--keep-global-symbol=' + keep, o])

    return os.path.join(target(out, key, build), name + '.o')


def tools_sources():
    return sorted(glob.glob(REPO + '/tools/*.[ch]'))


def tool_obj(name, flags=('-O1',), cc='gcc'):
    """A file of the tools"""
    src = REPO + '/tools/%s.c' % name
    flags = ['-std=c11', '-w', '-I' + REPO + '/include',
             '-I' + REPO + '/tools'] + list(flags)
    key = digest(tools_sources() + repo_files(), repr((cc, flags)))
    out = 't-%s-%s' % (name, hashlib.sha256(repr((cc, flags)).encode())
                       .hexdigest()[:8])

    def build(d):
        run([cc] + flags + ['-c', src, '-o', os.path.join(d, name + '.o')])

    return os.path.join(target(out, key, build), name + '.o')


def tool(name, variant, flags=(), link=()):
    """A command line tool, built with a variant of the library"""
    a = lib(variant)
    objs = [tool_obj(o, flags) for o in (name, 'lc3bin', 'wave')]
    key = digest(tools_sources() + repo_files(), repr((variant, flags, link)))

    def build(d):
        run(['gcc'] + objs + [a] + list(link) +
            ['-lm', '-o', os.path.join(d, name)])

    return os.path.join(target('tool-%s-%s' % (name, variant), key, build),
                        name)


def harness(name, variant='prod', with_ref=False, libs=(), cc=None, flags=(),
            src=None, libext=(), incs=(), tag=''):
    """A harness program linked with the library variant"""
    vcc, vflags = VARIANTS[variant]
    cc = cc or vcc
    src = src or [VERIF + '/harness/%s.c' % name]
    a = lib(variant, libext)
    san = [f for f in vflags if f.startswith('-fsanitize=address') or
           f.startswith('-fsanitize=memory')]
    cflags = ['-O2', '-g', '-w', '-fno-strict-aliasing'] + san + \
        ['-I' + VERIF + '/harness', '-I' + VERIF + '/ref',
         '-I' + REPO + '/include'] + ['-I' + i for i in incs] + list(flags)
    objs = [ref('msan' if variant == 'msan' else '')] if with_ref else []
    link = [a] + objs + list(libs) + [a, '-lm', '-lpthread']
    if any('fsanitize' in f for f in vflags) and variant == 'san':
        link += ['-fsanitize=address,undefined']
    if variant == 'msan':
        link += ['-fsanitize=memory']

    deps = src + glob.glob(VERIF + '/harness/*.h') + \
        glob.glob(VERIF + '/ref/**/*.[ch]', recursive=True) + repo_files()
    key = digest(deps + [l for l in libs if os.path.exists(l)],
                 repr((cc, cflags, link, variant)))
    out = 'h-' + name + '-' + variant

    def build(d):
        run([cc] + cflags + src + ['-o', os.path.join(d, name)] + link)

    out += ('-' + tag) if tag else ''
    return os.path.join(target(out, key, build), name)
