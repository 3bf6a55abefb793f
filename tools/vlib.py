"""Build and run machinery shared by every check (see DESIGN.md)."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
JOBS = min(8, os.cpu_count() or 8)

DEFS = ['-DBOOST_REGEX_DYN_LINK', '-DHAVE_BACKTRACE', '-DHAVE_MKL', '-DNDEBUG']
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all',
       '-ftrivial-auto-var-init=pattern', '-fno-omit-frame-pointer']
BASE = ['-std=gnu++17', '-fPIC', '-g1', '-isystem', '/usr/include/mkl']
MKL = ['-L/usr/lib/x86_64-linux-gnu', '-lmkl_intel_lp64', '-lmkl_sequential', '-lmkl_core']
MODULES = {  # library name: (source, extra libraries)
    'path': ('path.cpp', []), 'txt': ('txtfile.cpp', []), 'ini': ('inifile.cpp', []),
    'gnuplot': ('gnuplot.cpp', []), 'ged': ('gedfile.cpp', []),
    'snd': ('sndfile.cpp', ['-lsndfile']), 'xml': ('xmlfile.cpp', ['-lexpat']),
    'graph': ('graph.cpp', []), 'curl': ('curl.cpp', ['-lcurl']),
    # modules of our own, from harness/probe.cpp
    'probe1': ('', []), 'probe2': ('', []), 'probe3': ('', []), 'probe4': ('', []),
}
WRAPS = ('sswap_ dswap_ cswap_ zswap_ scopy_ dcopy_ ccopy_ zcopy_ saxpy_ daxpy_ caxpy_ zaxpy_ '
         'sscal_ dscal_ cscal_ zscal_ sdot_ ddot_ cdotc_ zdotc_ isamax_ idamax_ icamax_ izamax_ '
         'sasum_ dasum_ stbmv_ dtbmv_ ssbmv_ dsbmv_ sgemm_ dgemm_ sgeev_ dgeev_ sgees_ '
         'mkl_simatcopy mkl_dimatcopy mkl_somatcopy mkl_domatcopy '
         'DftiComputeForward DftiComputeBackward').split()


class BuildError(Exception):
    pass


def core_sources(fallback=False):
    """The library's own source list, read from its build description."""
    txt = open(os.path.join(REPO, 'lube/CMakeLists.txt')).read()
    m = re.search(r'set\(SOURCES\s+([^)]*)\)', txt)
    names = re.findall(r'[\w./+-]+\.cpp', m.group(1)) if m else []
    if not names:
        names = [n + '.cpp' for n in ('var heap view module math func string config '
                                      'clapack json utf8 stream').split()]
    names += ['dft-kiss.cpp', 'transpose-adhoc.cpp'] if fallback else ['dft-mkl.cpp', 'transpose-mkl.cpp']
    return list(dict.fromkeys(n for n in names if os.path.exists(os.path.join(REPO, 'lube', n))))


def module_sources(name):
    """Sources of a module library, from the build description if it says."""
    src, libs = MODULES[name]
    txt = open(os.path.join(REPO, 'lube/CMakeLists.txt')).read()
    m = re.search(r'add_library\(%s-lib\s+MODULE\s+([^)]*)\)' % name, txt)
    names = re.findall(r'[\w./+-]+\.cpp', m.group(1)) if m else []
    return (names or [src]), libs


def _h(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:20]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _headers(*dirs):
    out = b''
    for d in dirs:
        for f in sorted(os.listdir(d)):
            if f.endswith(('.h', '.hpp', '.inc')):
                out += f.encode() + _read(os.path.join(d, f))
    return out


def _compile(src, flags, tag):
    os.makedirs(os.path.join(BUILD, 'obj'), exist_ok=True)
    obj = os.path.join(BUILD, 'obj', tag + '.o')
    if not os.path.exists(obj):
        tmp = '%s.%d.tmp.o' % (obj, os.getpid())
        r = subprocess.run(['g++', '-c', src, '-o', tmp] + flags, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError('%s\n%s' % (src, r.stdout[-4000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def _link(out, args):
    if os.path.exists(out):
        return
    tmp = '%s.%d.tmp' % (out, os.getpid())
    r = subprocess.run(['g++', '-o', tmp] + args, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('link %s\n%s' % (out, r.stdout[-4000:]))
    os.replace(tmp, out)


def build(harnesses, modules=(), sanitize=True, thread=False, fallback=False):
    """Compile the tree under /repo and the harnesses; returns (dir, {name: exe}).
    fallback: as the library is built where there is no MKL."""
    flags = BASE + DEFS + ['-I' + REPO]
    kiss = os.path.join(HARNESS, 'kiss')
    if fallback:
        flags = [f for f in flags if f != '-DHAVE_MKL'] + ['-DVH_FALLBACK', '-I' + kiss]
    sanitize = sanitize and not thread
    flags += ['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer'] if thread else (['-O1'] + SAN) if sanitize else ['-O2']
    kind = 'tsan' if thread else 'san' if sanitize else 'plain'
    rh = _headers(os.path.join(REPO, 'lube')) + (_headers(kiss) if fallback else b'')
    hh = _headers(HARNESS)
    jobs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        core = core_sources(fallback)
        core.sort(key=lambda s: s != 'string.cpp')     # the slowest first
        for s in core:
            p = os.path.join(REPO, 'lube', s)
            jobs['core', s] = ex.submit(_compile, p, flags, s.replace('/', '_') + '-' + _h(kind, _read(p), rh, repr(flags)))
        if fallback:
            p = os.path.join(kiss, 'kiss_fft.cpp')
            jobs['core', 'kiss'] = ex.submit(_compile, p, flags, 'kiss-' + _h(kind, _read(p), repr(flags)))
        if sanitize:
            p = os.path.join(HARNESS, 'mklmon.cpp')
            jobs['core', 'mklmon'] = ex.submit(_compile, p, flags, 'mklmon-' + _h(kind, _read(p), repr(flags)))
        for m in modules:
            if m.startswith('probe'):
                p = os.path.join(HARNESS, 'probe.cpp')
                f = flags + ['-I' + HARNESS, '-fno-gnu-unique', '-DPROBE=' + m[5:]]
                jobs[m, 'probe'] = ex.submit(_compile, p, f, m + '-' + _h(kind, _read(p), rh, hh, repr(f)))
                continue
            for s in module_sources(m)[0]:
                p = os.path.join(REPO, 'lube', s)
                jobs[m, s] = ex.submit(_compile, p, flags, s.replace('/', '_') + '-' + _h(kind, _read(p), rh, repr(flags)))
            if m == 'snd' and sanitize:
                p = os.path.join(HARNESS, 'sndmon.cpp')
                jobs[m, 'sndmon'] = ex.submit(_compile, p, flags, 'sndmon-' + _h(kind, _read(p), repr(flags)))
        for h in list(dict.fromkeys(['vh'] + list(harnesses))):
            p = os.path.join(HARNESS, h + '.cpp')
            jobs['h', h] = ex.submit(_compile, p, flags + ['-I' + HARNESS], h + '-' + _h(kind, _read(p), rh, hh, repr(flags)))
        objs = {k: j.result() for k, j in jobs.items()}
    coreobjs = sorted(o for k, o in objs.items() if k[0] == 'core')
    san = ['-fsanitize=thread'] if thread else ['-fsanitize=address,undefined'] if sanitize else []
    d = os.path.join(BUILD, kind + '-' + _h(*coreobjs))
    os.makedirs(d, exist_ok=True)
    os.utime(d)
    wrap = ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS)] if sanitize else []
    _link(os.path.join(d, 'libube.so'), ['-shared'] + san + coreobjs + wrap + MKL +
          ['-lm', '-ldl', '-lboost_regex'])
    exes = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        js = []
        for m in modules:
            mo = sorted(o for k, o in objs.items() if k[0] == m)
            md = os.path.join(d, 'lib%s.so' % m)
            stamp = os.path.join(d, 'lib%s.so.%s' % (m, _h(*mo)))
            if not os.path.exists(stamp):
                for f in glob.glob(md + '*'):
                    os.unlink(f)
            sw = ['-Wl,--wrap=sf_readf_float,--wrap=sf_writef_float,--wrap=sf_read_float,--wrap=sf_write_float,--wrap=sf_open,--wrap=sf_close'] if (m == 'snd' and sanitize) else []

            def one(md=md, mo=mo, m=m, stamp=stamp, sw=sw):
                _link(md, ['-shared'] + san + mo + sw + ['-L' + d, '-lube'] + MODULES[m][1])
                open(stamp, 'w').close()
            js.append(ex.submit(one))
        for h in harnesses:
            exe = os.path.join(d, 't-' + h + '-' + _h(objs['h', h], objs['h', 'vh']))
            exes[h] = exe
            js.append(ex.submit(_link, exe, san + [objs['h', h], objs['h', 'vh'], '-rdynamic', '-L' + d, '-lube', '-Wl,-rpath,' + d,
                                                   '-Wl,-rpath-link,/usr/lib/x86_64-linux-gnu', '-ldl', '-lutil'] + MKL))
        for j in js:
            j.result()
    if 'probe1' in modules:     # and things that are no modules
        lib = _read(os.path.join(d, 'libprobe1.so'))
        for n, b in [('text', b'no library\n' * 50), ('empty', b''), ('head', lib[:64])]:
            with open(os.path.join(d, 'libprobe-%s.so' % n), 'wb') as f:
                f.write(b)
        os.makedirs(os.path.join(d, 'libprobe-dir.so'), exist_ok=True)
    prune()
    return d, exes


def prune():
    """Keep the cache small: only recently used objects and build folders stay."""
    now = time.time()
    try:
        dirs = sorted((p for p in glob.glob(os.path.join(BUILD, '*-*')) if os.path.isdir(p) and re.search(r'/(san|plain|tsan)-', p)),
                      key=os.path.getmtime, reverse=True)
        for p in dirs[4:]:
            if now - os.path.getmtime(p) > 3600:
                shutil.rmtree(p, ignore_errors=True)
        objs = sorted(glob.glob(os.path.join(BUILD, 'obj', '*.o')), key=os.path.getmtime, reverse=True)
        for p in objs[400:]:
            if now - os.path.getmtime(p) > 3600:
                os.unlink(p)
    except OSError:
        pass


def environment(d, extra=None, uar=False):
    e = dict(os.environ)
    e.update({
        'LD_LIBRARY_PATH': d, 'LC_ALL': 'C', 'TZ': 'UTC',
        'MKL_NUM_THREADS': '1', 'MKL_CBWR': 'COMPATIBLE', 'MKL_DISABLE_FAST_MM': '1',
        'ASAN_OPTIONS': ':'.join([
            'abort_on_error=0', 'exitcode=99', 'detect_leaks=0', 'detect_stack_use_after_return=' + ('1' if uar else '0'),
            'max_malloc_fill_size=1048576', 'malloc_fill_byte=203', 'max_free_fill_size=1048576',
            'free_fill_byte=221', 'quarantine_size_mb=64', 'alloc_dealloc_mismatch=1',
            'strict_string_checks=1', 'check_initialization_order=0', 'handle_abort=1',
            'hard_rss_limit_mb=3000', 'max_allocation_size_mb=2000', 'allocator_may_return_null=0',
            'symbolize=1']),
        'TSAN_OPTIONS': 'exitcode=96:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1',
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    })
    e.pop('LUBE_CONFIG', None)
    if extra:
        e.update(extra)
    return e


def classify(err, rc):
    """A stable key for the way a process died."""
    what = None
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m:
        what = 'asan.' + m.group(1)
    else:
        m = re.search(r'runtime error: (.*)', err)
        if m:
            what = 'ubsan.' + re.sub(r'[^a-z]+', '_', re.sub(r'0x[0-9a-f]+|\d+', '', m.group(1).lower()))[:60].strip('_')
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?) \(', err)
    if m and not what:
        what = 'tsan.' + m.group(1).replace(' ', '_')
        for fm in re.finditer(r'#\d+ (.*?) (/\S+?):\d+', err):
            if fm.group(2).startswith(REPO + '/'):
                return 'crash:%s@%s' % (what, re.sub(r'[(<].*', '', fm.group(1)).strip())
    m = re.search(r'==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid \w+|Source and dest|Mismatched free|Process terminating)', err)
    if m and not what:
        what = 'memcheck.' + m.group(1).lower().replace(' ', '_')
        for fm in re.finditer(r'(?:at|by) 0x[0-9A-F]+: (.*?) \((\S+?)(?::\d+)?\)', err):
            if os.path.exists(os.path.join(REPO, 'lube', fm.group(2))):
                return 'crash:%s@%s' % (what, re.sub(r'[(<].*', '', fm.group(1)).strip())
    if 'MKLMON' in err and not what:
        what = 'mkl-range'
    if 'hard rss limit' in err.lower():
        what = 'memory-exhausted'
    if not what:
        m = re.search(r'terminate called after throwing an instance of \'([^\']*)\'', err)
        what = 'terminate.' + m.group(1) if m else ('signal%d' % -rc if rc < 0 else 'exit%d' % rc)
    where = ''
    for fm in re.finditer(r'#\d+ 0x[0-9a-f]+ in (.*?) (/\S+|\()', err):
        if fm.group(2).startswith(REPO + '/'):
            where = re.sub(r'\(.*', '', fm.group(1)).strip()
            where = re.sub(r'<.*', '', where)
            break
    if not where:
        m = re.search(re.escape(REPO) + r'/(\S+?):\d+', err)
        if m:
            where = m.group(1)
    return 'crash:%s@%s' % (what, where or '?')


def memcheck():
    """How to run a program under valgrind, or nothing where that can not be done."""
    tool = ['valgrind', '-q', '--error-exitcode=55', '--exit-on-first-error=yes', '--num-callers=20', '--leak-check=no']
    try:
        if subprocess.run(tool + ['/bin/true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0:
            return tool
    except (OSError, subprocess.TimeoutExpired):
        pass
    return []


def racedetector():
    """Whether programs built with the race detector run here."""
    d = os.path.join(BUILD, 'tsan-probe-%d' % os.getpid())
    os.makedirs(d, exist_ok=True)
    try:
        with open(os.path.join(d, 'p.cpp'), 'w') as f:
            f.write('#include <thread>\nint main() { int x = 0; std::thread t([&] { x++; }); t.join(); return x - 1; }\n')
        e = os.path.join(d, 'p')
        if subprocess.run(['g++', '-fsanitize=thread', os.path.join(d, 'p.cpp'), '-o', e], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            return False
        return all(subprocess.run([e], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode == 0 for k in range(3))
    except (OSError, subprocess.TimeoutExpired):
        return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


CHUNK = 500     # cases run by one process: the sanitizer's fake stack fills up with frames exceptions unwound


class Run:
    """One harness executable over `count` cases, split over processes."""

    def __init__(self, exe, name, seed, tier, count, rundir, env, only='', deadline=None, first=0, tool=()):
        self.__dict__.update(locals())
        self.violations = []      # dicts
        self.events = {}
        self.evals = 0
        self.mkl = 0
        self.samples = []
        self.distinct = set()
        self.inconclusive = []
        self.error = None

    def _launch(self, first, count, stride, d, wall):
        os.makedirs(d, exist_ok=True)
        args = list(self.tool) + [self.exe, str(self.seed), str(first), str(count), str(stride), self.tier, d]
        if self.only:
            args.append(self.only)
        with open(os.path.join(d, 'stderr'), 'wb') as e, open(os.path.join(d, 'stdout'), 'wb') as o:
            p = subprocess.Popen(args, stdout=o, stderr=e, stdin=subprocess.DEVNULL, env=self.env, cwd=d,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        return rc

    def _collect(self, d):
        ended = False
        p = os.path.join(d, 'out')
        if os.path.exists(p):
            for line in open(p, errors='replace'):
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r['t'] == 'v':
                    self.violations.append(dict(case=r['case'], key=r['key'], msg=r['msg'], note=r.get('note', '')))
                elif r['t'] == 's':
                    self.samples.append(r['msg'])
                elif r['t'] == 'end':
                    ended = True
                    self.evals += r['evals']
                    self.mkl += r['mkl']
                    for k, v in r['events'].items():
                        self.events[k] = self.events.get(k, 0) + v
            os.unlink(p)
        p = os.path.join(d, 'distinct')
        if os.path.exists(p):
            b = _read(p)
            self.distinct.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
            os.unlink(p)
        return ended

    def _shard(self, k, n):
        first, end = self.first + k, self.first + self.count
        crashes = hangs = 0
        d = os.path.join(self.rundir, '%s.%d' % (self.name, k))
        while first < end:
            if crashes >= 6 or hangs >= 2:
                break
            wall = max(5, self.deadline - time.time())
            shutil.rmtree(d, ignore_errors=True)
            todo = min(CHUNK, (end - first + n - 1) // n)
            rc = self._launch(first, todo, n, d, wall)
            self._collect(d)
            if rc == 0:
                first += todo * n
                continue
            prog = _read(os.path.join(d, 'progress')) if os.path.exists(os.path.join(d, 'progress')) else b''
            if len(prog) < 24:
                self.error = 'harness %s did not start: %s' % (self.name, _read(os.path.join(d, 'stderr')).decode(errors='replace')[-2000:])
                break
            idx, _, ln = struct.unpack('<qqq', prog[:24])
            note = prog[24:24 + max(0, min(ln, 60000))].decode(errors='replace')
            err = _read(os.path.join(d, 'stderr')).decode(errors='replace')
            if rc is None:
                self.inconclusive.append('deadline reached in %s shard %d at case %d' % (self.name, k, idx))
                break
            if idx < 0:
                self.error = 'harness %s failed outside a case (rc %s): %s' % (self.name, rc, err[-2000:])
                break
            if rc == 97:
                d2 = d + '.again'
                rc2 = self._launch(idx, 1, 1, d2, 300)
                self._collect(d2)
                shutil.rmtree(d2, ignore_errors=True)
                if rc2 == 97:
                    hangs += 1
                    self.violations.append(dict(case=idx, key='hang', msg='the case does not end (twice stopped after 25 s of computing)', note=note))
                elif rc2 != 0:
                    self.inconclusive.append('case %d of %s: stopped by the watchdog, then rc %s' % (idx, self.name, rc2))
            elif rc == 98:
                self.error = 'harness %s: environment failure: %s' % (self.name, err[-2000:])
                break
            else:
                crashes += 1
                self.violations.append(dict(case=idx, key=classify(err, rc), msg='process died (rc %s)' % rc, note=note,
                                            stderr=err[:8000]))
            first = idx + n
        shutil.rmtree(d, ignore_errors=True)

    def run(self, procs=JOBS):
        with cf.ThreadPoolExecutor(procs) as ex:
            for j in [ex.submit(self._shard, k, procs) for k in range(procs)]:
                j.result()
        return self
