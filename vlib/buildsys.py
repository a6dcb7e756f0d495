"""Builds /repo's sources (unmodified) plus one harness, per sanitizer flavour.

A small include overlay makes the asio-dependent half of pion compile against the
installed Boost: it adds the two accessors Boost removed (socket.get_io_service(),
ssl::context(io_service, method)) to copies of two Boost headers.  No file of /repo is
changed or shadowed except the build-generated pion/config.hpp.
"""
import concurrent.futures, glob, hashlib, os, subprocess, sys, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
LIBS = ('-lboost_thread -lboost_system -lboost_filesystem -lboost_regex -lboost_chrono '
        '-lz -lbz2 -lssl -lcrypto -ldl -lpthread').split()
COMMON = ('-std=c++11 -w -DBOOST_DISABLE_PRAGMA_MESSAGE '
          '-DBOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS -include boost/logic/tribool_io.hpp '
          '-DPION_CMAKE_BUILD -D_FILE_OFFSET_BITS=64 -fno-omit-frame-pointer -fPIC').split()
FLAVORS = {
    'asan': '-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr,function,shift-base -fno-sanitize-recover=all'.split(),
    'tsan': '-DNDEBUG -O1 -g1 -fsanitize=thread'.split(),
    'plain': '-DNDEBUG -O1 -g1'.split(),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def make_overlay():
    """Generate the overlay include directory; returns its path."""
    ov = os.path.join(BUILD, 'overlay')
    edits = [
        ('boost/asio/basic_socket.hpp',
         '  /// Get the executor associated with the object.\n  const executor_type& get_executor() BOOST_ASIO_NOEXCEPT\n',
         '  boost::asio::io_context& get_io_service() { return static_cast<boost::asio::io_context&>('
         'boost::asio::query(this->get_executor(), boost::asio::execution::context)); }\n'),
        ('boost/asio/ssl/context.hpp',
         '  /// Destructor.\n  BOOST_ASIO_DECL ~context();\n',
         '  template <typename IoService> context(IoService&, method m) : context(m) {}\n'),
    ]
    for rel, anchor, ins in edits:
        src = _read('/usr/include/' + rel).decode()
        if src.count(anchor) != 1:
            raise BuildError('overlay anchor not found in ' + rel)
        _put(os.path.join(ov, rel), src.replace(anchor, ins + anchor).encode())
    _put(os.path.join(ov, 'pion/config.hpp'), _read(os.path.join(VERIF, 'overlay/pion/config.hpp')))
    return ov


def _put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and _read(path) == data:
        return
    tmp = path + '.%d-%d.tmp' % (os.getpid(), threading.get_ident())
    with open(tmp, 'wb') as f:
        f.write(data)
    os.replace(tmp, path)


def _headers_digest():
    h = hashlib.sha256()
    for d in (os.path.join(REPO, 'include'), os.path.join(REPO, 'src'), os.path.join(REPO, 'services'),
              os.path.join(VERIF, 'overlay'), os.path.join(VERIF, 'h')):
        for root, dirs, files in sorted(os.walk(d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.hpp', '.h', '.ipp', '.inc')):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b'\0' + _read(p))
    return h.hexdigest()


def compile_one(cxx, flavor, src, extra, hdig, ov):
    flags = COMMON + FLAVORS[flavor] + list(extra)
    if cxx == 'g++':
        flags = [f for f in flags if not f.startswith('-fno-sanitize=')]
    key = hashlib.sha256(('\0'.join([cxx, flavor, src] + flags) + hdig).encode() + _read(src)).hexdigest()[:24]
    obj = os.path.join(BUILD, flavor, os.path.basename(src)[:-4] + '-' + key + '.o')
    if os.path.exists(obj):
        return obj
    with _mu:
        lock = _locks.setdefault(obj, threading.Lock())
    with lock:
        if os.path.exists(obj):
            return obj
        with _slots:
            return _compile(cxx, flags, src, obj, ov)


_mu, _locks, _slots = threading.Lock(), {}, threading.Semaphore(os.cpu_count() or 4)


def _compile(cxx, flags, src, obj, ov):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    tmp = obj + '.%d.tmp' % os.getpid()
    cmd = [cxx, '-c'] + flags + ['-I' + ov, '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(REPO, 'services'),
                                 '-I' + os.path.join(VERIF, 'h'), src, '-o', tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        raise BuildError('compile failed: %s\n%s' % (src, r.stdout[-3000:]))
    os.replace(tmp, obj)
    return obj


def repo_src(name):
    return os.path.join(REPO, 'src', name + '.cpp')


def build(harness, flavor, spec):
    """spec: main (path under /verif), src (names under /repo/src), services, extra, link, so[]"""
    last = None
    for cxx in ('clang++', 'g++'):
        try:
            return _build(cxx, harness, flavor, spec)
        except BuildError as e:
            last = last or e
    raise last


def _link(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')


def _build(cxx, harness, flavor, spec):
    ov = make_overlay()
    hdig = _headers_digest()
    extra = spec.get('extra', [])
    all_src = sorted(glob.glob(os.path.join(REPO, 'src', '*.cpp')))
    want = [repo_src(n) for n in spec['src']] if spec.get('src') else all_src
    want = [w for w in want if os.path.exists(w)]
    svc = [os.path.join(REPO, 'services', n + '.cpp') for n in spec.get('services', [])]
    mains = [os.path.join(VERIF, m) for m in spec['main'] + (['h/tsan_rt.cpp'] if flavor == 'tsan' else [])]
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        futs = [ex.submit(compile_one, cxx, flavor, s, extra, hdig, ov) for s in mains + want + svc]
        sofuts = []
        for so in spec.get('so', []):
            srcp = os.path.join(VERIF, so['src']) if not so['src'].startswith('/') else so['src'].replace('/repo', REPO, 1)
            sofuts.append((so, [ex.submit(compile_one, cxx, flavor, srcp, extra + so.get('extra', []), hdig, ov)]))
        # further sources of /repo with flags of their own (the programs, whose main() gets another name)
        futs += [ex.submit(compile_one, cxx, flavor, os.path.join(REPO, p), extra + fl, hdig, ov) for p, fl in spec.get('programs', [])]
        objs = [f.result() for f in futs]
        sos = [(so, [f.result() for f in fs]) for so, fs in sofuts]
    bindir = os.path.join(BUILD, 'bin-' + flavor)
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, harness)
    san = [f for f in FLAVORS[flavor] if f.startswith('-fsanitize')]

    def mk(objs):
        key = hashlib.sha256('\0'.join(sorted(objs) + [o for _, so in sos for o in so]
                                       + spec.get('link', [])).encode()).hexdigest()[:16]
        out = exe + '-' + key
        if os.path.exists(out):
            return out, None
        tmp = out + '.%d.tmp' % os.getpid()
        r = _link([cxx] + san + ['-rdynamic', '-o', tmp] + objs + spec.get('link', []) + LIBS)
        if r.returncode:
            return None, r.stdout
        os.replace(tmp, out)
        return out, None
    out, err = mk(objs)
    if out is None and want != all_src:
        # a change may have moved code between source files: link everything
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            rest = list(ex.map(lambda s: compile_one(cxx, flavor, s, extra, hdig, ov),
                               [s for s in all_src if s not in want]))
        out, err = mk(objs + rest)
    if out is None:
        raise BuildError('link failed: %s\n%s' % (harness, (err or '')[-3000:]))
    so_dir = out + '.so.d'
    for so, so_objs in sos:
        p = os.path.join(so_dir, so['name'])
        if not os.path.exists(p):
            os.makedirs(so_dir, exist_ok=True)
            tmp = p + '.%d.tmp' % os.getpid()
            r = _link([cxx] + san + ['-shared', '-o', tmp] + so_objs)
            if r.returncode:
                raise BuildError('link failed: %s\n%s' % (so['name'], r.stdout[-3000:]))
            os.replace(tmp, p)
    return out
