"""Compile the current /repo tree to bitcode and run the hx exporter."""
import os, sys, json, subprocess, tempfile, shutil, hashlib, glob, atexit, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('HOGL_REPO', '/repo')
CLANGXX = 'clang++-18'
CLANG = 'clang-18'
HX = os.path.join(VERIF, 'build', 'hx')


class AnalysisBroken(Exception):
    pass


def build_hx(force=False):
    src = os.path.join(HERE, 'hx.cpp')
    os.makedirs(os.path.dirname(HX), exist_ok=True)
    if not force and os.path.exists(HX) and os.path.getmtime(HX) >= os.path.getmtime(src):
        return
    inc = subprocess.check_output(['llvm-config-18', '--includedir'], text=True).strip()
    lib = subprocess.check_output(['llvm-config-18', '--libdir'], text=True).strip()
    tmp = HX + '.%d' % os.getpid()
    cmd = [CLANGXX, '-O1', '-std=c++17', '-fno-exceptions', '-fno-rtti', '-I' + inc, '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS',
           '-Wno-deprecated-declarations', src, '-o', tmp, '-L' + lib, '-lLLVM-18']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('cannot build hx: ' + r.stderr[-2000:])
    os.rename(tmp, HX)


CFLAGS = ['-c', '-emit-llvm', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-Xclang', '-disable-llvm-passes',
          '-fstandalone-debug', '-fPIC', '-pthread', '-w', '-fno-discard-value-names',
          '-flto=full', '-fwhole-program-vtables', '-fvisibility=hidden', '-D_GNU_SOURCE']


def sources():
    s = []
    for f in sorted(glob.glob(REPO + '/src/*.cc')):
        s.append(('src', f))
    for f in sorted(glob.glob(REPO + '/tools/*.cc')):
        s.append(('tools', f))
    for f in sorted(glob.glob(HERE + '/drivers/*.cc')) + sorted(glob.glob(HERE + '/drivers/*.c')):
        s.append(('drv', f))
    return s


def compile_one(kind, f, out):
    inc = ['-I' + REPO + '/include', '-I' + REPO]
    cmd = [CLANGXX, '-std=gnu++17']
    if kind == 'tools':
        inc.append('-I' + REPO + '/tools')
        base = os.path.basename(f).replace('.cc', '').replace('-', '_')
        inc += ['-Dmain=hogl_%s_main' % base]
        inc += ['-DPACKAGE', '-DPACKAGE_VERSION="0"']
    if f.endswith('.c'):
        cmd = [CLANG, '-std=gnu11']
    cmd += CFLAGS + inc + [f, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr


class Workspace:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='hoglan.')
        atexit.register(self.close)
        self.bc = []
        self.units = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self):
        build_hx()
        jobs = []
        with cf.ThreadPoolExecutor(8) as ex:
            for kind, f in sources():
                out = os.path.join(self.dir, kind + '_' + os.path.basename(f) + '.bc')
                jobs.append((kind, f, out, ex.submit(compile_one, kind, f, out)))
            for kind, f, out, j in jobs:
                rc, err = j.result()
                if rc:
                    raise AnalysisBroken('cannot compile %s: %s' % (f, err[-1500:]))
                self.bc.append(out)
                self.units.append(f)

    def hx(self, lines):
        spec = os.path.join(self.dir, 'spec')
        out = os.path.join(self.dir, 'out.json')
        hdr = ['repo\t%s/' % REPO, 'repo\t%s/drivers' % HERE, 'lib\t%s/include/hogl/fmt' % REPO]
        hdr += ['std\t' + q for q in STD_INLINE]
        with open(spec, 'w') as fh:
            fh.write('\n'.join(hdr + lines) + '\n')
        r = subprocess.run([HX, out, spec] + self.bc, capture_output=True, text=True)
        if r.returncode:
            raise AnalysisBroken('hx failed: ' + r.stderr[-2000:])
        with open(out) as fh:
            d = json.load(fh)
        flat = []
        for w in range(d.get('workers', 0)):
            with open('%s.%d' % (out, w)) as fh:
                x = json.load(fh)
            flat += x['flat']
            d['warnings'] = d.get('warnings', []) + x.get('warnings', [])
        d['flat'] = [x['fn'] for x in sorted(flat, key=lambda x: x['ri'])]
        return d


STD_INLINE = [
    'std::min', 'std::max', 'std::numeric_limits::max', 'std::numeric_limits::min', 'std::numeric_limits::lowest', 'std::swap', 'std::move', 'std::forward', 'std::addressof', 'std::__addressof', 'std::for_each',
    'std::lock_guard::lock_guard', 'std::lock_guard::~lock_guard', 'std::unique_lock::unique_lock',
    'std::unique_lock::~unique_lock', 'std::unique_lock::lock', 'std::unique_lock::unlock',
    'std::mutex::lock', 'std::mutex::unlock', 'std::exchange', '__gthread_mutex_lock', '__gthread_mutex_unlock',
    '__gthread_active_p', 'std::unique_ptr::get', 'std::begin', 'std::end', 'std::clamp', 'std::size',
    'std::pair::pair', 'std::pair::operator=', 'std::make_pair', 'std::tie',
    'std::array::size', 'std::array::operator[]', 'std::array::data',
    '__isalpha', 'std::fill', 'std::fill_n', 'std::find_if', 'std::any_of', 'std::all_of', 'std::none_of',
    'std::vector::data',
]

if __name__ == '__main__':
    build_hx(force='--force' in sys.argv)
    print('hx built')
