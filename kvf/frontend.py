"""Builds the AST extractor and extracts the resolved program from /repo's working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('KVF_REPO', '/repo')
CACHE = os.environ.get('KVF_CACHE', os.path.join(tempfile.gettempdir(), f'kvf-cache-{os.getuid()}'))
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'


class FrontendError(Exception):
    pass


def sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
        h.update(b'\0')
    return h.hexdigest()[:24]


def tool():
    """Path of the extractor, built from the committed source if needed."""
    src = os.path.join(ROOT, 'tool', 'kast.cc')
    key = sha(src)
    for d in (os.path.join(ROOT, 'build'), CACHE):
        p = os.path.join(d, 'kast-' + key)
        if os.access(p, os.X_OK):
            return p
    for d in (os.path.join(ROOT, 'build'), CACHE):
        try:
            os.makedirs(d, exist_ok=True)
            tmp = os.path.join(d, f'kast-{key}.{os.getpid()}')
            r = subprocess.run([CLANG, '-std=c++20', '-O0', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                                '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM.so.18.1'],
                               capture_output=True, text=True)
            if r.returncode != 0:
                raise FrontendError('cannot build the extractor:\n' + r.stderr[-2000:])
            p = os.path.join(d, 'kast-' + key)
            os.replace(tmp, p)
            return p
        except OSError:
            continue
    raise FrontendError('no place to build the extractor')


def repo_files():
    out = []
    for d in ('include', 'cli'):
        for r, ds, fs in os.walk(os.path.join(REPO, d)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.cc', '.hpp', '.cpp', '.inc', '.ipp')):
                    out.append(os.path.join(r, f))
    return out


def flags():
    return ['-isystem', os.path.join(ROOT, 'shim'), '-I' + os.path.join(ROOT, 'shim'),
            '-DBOOST_CONTAINER_DYN_LINK', '-DBOOST_CONTAINER_NO_LIB', '-DCGAL_USE_GMPXX=1',
            '-DCMAKE_OVERRIDDEN_DEFAULT_ENT_BACKEND=3', f'-I{REPO}/include', '-O2', '-DNDEBUG', '-std=c++20',
            '-Wno-everything']


DRIVERS = {'lib': 'lib.cc', 'conc': 'conc.cc'}
UNITS = {'lib': None, 'conc': None, 'boolean': 'cli/boolean_command.cc', 'convert': 'cli/convert_command.cc',
         'defects': 'cli/defects_command.cc', 'main': 'cli/main.cc'}


def extract(unit, kast, key):
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, f'{unit}-{key}.json')
    if os.path.exists(out):
        try:
            with open(out) as f:
                return json.load(f)
        except ValueError:
            pass
    gen = tempfile.mkdtemp(prefix='kvf-')
    try:
        inc = os.path.join(REPO, 'include')
        hs = sorted(os.path.relpath(p, inc) for p in repo_files() if p.startswith(inc) and p.endswith('.h'))
        with open(os.path.join(gen, 'all_repo_headers.inc'), 'w') as f:
            f.writelines(f'#include <{h}>\n' for h in hs)
        with open(os.path.join(gen, 'cli_utility.inc'), 'w') as f:
            u = os.path.join(REPO, 'cli', 'utility.h')
            if os.path.exists(u):
                f.write(f'#include "{u}"\n')
        src = os.path.join(ROOT, 'driver', DRIVERS[unit]) if unit in DRIVERS else os.path.join(REPO, UNITS[unit])
        extra = [] if unit in DRIVERS else ['-include', os.path.join(ROOT, 'shim', 'compat.h'), f'-I{REPO}/cli']
        modes = [[], ['-DKVF_PUBLIC_ONLY']] if unit == 'lib' else [[]]
        err = ''
        for m in modes:
            tmp = out + f'.{os.getpid()}'
            r = subprocess.run([kast, tmp, REPO.rstrip('/') + '/', '--'] + flags() + ['-I' + gen] + extra + m + [src],
                               capture_output=True, text=True)
            if r.returncode == 0 and os.path.exists(tmp):
                with open(tmp) as f:
                    d = json.load(f)
                d['mode'] = 'public' if m else 'full'
                with open(tmp, 'w') as f:
                    json.dump(d, f)
                os.replace(tmp, out)
                return d
            err = r.stderr[-3000:] + r.stdout[-500:]
        raise FrontendError(f'{src} cannot be analysed:\n{err}')
    finally:
        shutil.rmtree(gen, ignore_errors=True)


def load(units=('lib',)):
    kast = tool()
    drv = [os.path.join(r, f) for d in ('driver', 'shim') for r, _, fs in os.walk(os.path.join(ROOT, d)) for f in sorted(fs)]
    key = sha(os.path.join(ROOT, 'tool', 'kast.cc'), os.path.join(HERE, 'frontend.py'), *sorted(drv), *repo_files())
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock-' + key), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with ThreadPoolExecutor(5) as ex:
            r = dict(zip(units, ex.map(lambda u: extract(u, kast, key), units)))
        # keep the cache small
        fs = sorted((os.path.getmtime(os.path.join(CACHE, f)), f) for f in os.listdir(CACHE) if f.endswith('.json'))
        for _, f in fs[:-60]:
            os.unlink(os.path.join(CACHE, f))
    return r


if __name__ == '__main__':
    print(tool())
