"""Compile a harness and the sources of /repo to one LLVM module (and natively, for replay)."""
import hashlib
import os
import re
import subprocess
import sys

REPO = os.environ.get('VF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, '.build'))

CLANG = ['clang++-18', '-std=c++20', '-O0', '-g0', '-S', '-emit-llvm', '-Xclang', '-disable-O0-optnone',
         '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w']
PASSES = 'sroa'


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), (p.stdout + p.stderr)[-6000:]))
    return p.stdout


_SHIM = None


def shim_dir():
    global _SHIM
    if _SHIM is None:
        _SHIM = shim_dir_()
    return _SHIM


def shim_dir_():
    """libstdc++ <span> with the qualification-conversion check that gcc applies (clang 18 rejects
    span<const T* const> from T* const[N]; gcc accepts it)."""
    d = os.path.join(BUILD, 'shim')
    os.makedirs(d, exist_ok=True)
    src = open('/usr/include/c++/13/span').read()
    src = src.replace('__is_array_convertible', '__vf_arr_conv')
    src = src.replace('namespace std _GLIBCXX_VISIBILITY(default)\n{\n_GLIBCXX_BEGIN_NAMESPACE_VERSION\n',
                      'namespace std _GLIBCXX_VISIBILITY(default)\n{\n_GLIBCXX_BEGIN_NAMESPACE_VERSION\n'
                      'template<typename _To, typename _From> struct __vf_arr_conv : is_convertible<_From*, _To*> {};\n', 1)
    src = src.replace('''      constexpr
      span(const span&) noexcept = default;
''', '''      template<typename _Tp, size_t _ArrayExtent>
        requires (_Extent == dynamic_extent) && (!is_same_v<_Tp, element_type>)
          && is_convertible_v<_Tp*, _Type*>
        constexpr span(_Tp (&__arr)[_ArrayExtent]) noexcept
        : span(static_cast<pointer>(__arr), _ArrayExtent)
        { }

      constexpr
      span(const span&) noexcept = default;
''', 1)
    f = os.path.join(d, 'span')
    if not os.path.exists(f) or open(f).read() != src:
        open(f + '.%d' % os.getpid(), 'w').write(src)
        os.replace(f + '.%d' % os.getpid(), f)
    return d


def includes():
    return ['-I', shim_dir(), '-I', os.path.join(VERIF, 'harness'), '-I', os.path.join(REPO, 'src'), '-I', REPO]


def deps_hash(src, extra=''):
    """hash of the preprocessed translation unit"""
    out = run(['clang++-18', '-std=c++20', '-E', '-P', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0'] + includes() + extra.split() + [src])
    return hashlib.sha256((out + ' '.join(CLANG) + PASSES).encode()).hexdigest()[:24]


def to_ll(src, extra=''):
    os.makedirs(os.path.join(BUILD, 'll'), exist_ok=True)
    h = deps_hash(src, extra)
    out = os.path.join(BUILD, 'll', os.path.basename(src).replace('.cpp', '') + '-' + h + '.ll')
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    run(CLANG + includes() + extra.split() + [src, '-o', tmp])
    run(['opt-18', '-passes=' + PASSES, '-S', tmp, '-o', tmp + '2'])
    os.unlink(tmp)
    os.replace(tmp + '2', out)
    return out


def link(lls):
    if len(lls) == 1:
        return lls[0]
    h = hashlib.sha256(' '.join(lls).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'll', 'link-' + h + '.ll')
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    run(['llvm-link-18', '-S'] + lls + ['-o', tmp])
    os.replace(tmp, out)
    return out


NATIVE = ['clang++-18', '-std=c++20', '-O1', '-g', '-w', '-fsanitize=undefined,address',
          '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-fno-omit-frame-pointer', '-rdynamic']


def native(srcs, extra=''):
    """one executable with the harness, the real sources and the replay driver"""
    d = os.path.join(BUILD, 'native')
    os.makedirs(d, exist_ok=True)
    objs = []
    jobs = []
    for s in [os.path.join(VERIF, 'harness', 'vf_native.cpp')] + list(srcs):
        h = deps_hash(s, extra)
        o = os.path.join(d, os.path.basename(s) + '-' + h + '.o')
        objs.append(o)
        if not os.path.exists(o):
            t = o + '.%d' % os.getpid()
            jobs.append((subprocess.Popen(NATIVE + includes() + extra.split() + ['-c', s, '-o', t],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), t, o))
    for p, t, o in jobs:
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError(out[-4000:])
        os.replace(t, o)
    exe = os.path.join(d, 'replay-' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        t = exe + '.%d' % os.getpid()
        run(['clang++-18', '-fsanitize=undefined,address', '-rdynamic', '-o', t] + objs + ['-ldl'])
        os.replace(t, exe)
    return exe
