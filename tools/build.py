"""Builds the drivers from /repo's current working tree (cached by content under /verif/build)."""
import glob, hashlib, os, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
OUT = os.path.join(VERIF, 'build')
PY = '/opt/veriftools/pyvenv/bin/python3'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
INC = ['-I%s/%s' % (REPO, d) for d in ('include', 'third_party', 'urdf_parser/include', 'urdf_parser/tinyxml')]
BASE = ['-std=c++14', '-fPIC', '-w', '-include', 'cstddef', '-DEIGEN_MAX_CPP_VER=03', '-DEIGEN_NO_DEBUG', '-DNDEBUG']
SAN = ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS']

TSAN = ['-O1', '-g1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-pthread']


class BuildError(Exception):
    pass


def eigen():
    for d in ('/usr/include/eigen3', '/usr/local/include/eigen3'):
        if os.path.isdir(d):
            return ['-I' + d]
    return []


def digest(paths, extra=()):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(f.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def repo_sources():
    files = []
    for d in ('include', 'src', 'urdf_parser', 'python'):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            files += [os.path.join(root, f) for f in fs if f.endswith(('.h', '.hpp', '.cpp', '.cc', '.c', '.py', '.inl'))]
    return files


def core_sources():
    r = [os.path.join(REPO, 'src', f) for f in ('tinyfk.cpp', 'kinematics.cpp')]
    r += glob.glob(REPO + '/urdf_parser/src/*.cpp')
    r += [f for f in glob.glob(REPO + '/urdf_parser/tinyxml/*.cpp') if 'xmltest' not in f]
    return sorted(r)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))


def compile_all(srcs, flags, odir, extra_link, target):
    os.makedirs(odir, exist_ok=True)
    objs = []
    jobs = []
    for s in srcs:
        o = os.path.join(odir, s.strip('/').replace('/', '_') + '.o')
        objs.append(o)
        jobs.append(['g++'] + BASE + flags + INC + eigen() + ['-c', s, '-o', o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    tmp = target + '.tmp'
    run(['g++'] + flags + objs + extra_link + ['-o', tmp])
    os.rename(tmp, target)


LOCK = threading.Lock()


def cached(kind, key, name, make):
    with LOCK:     # two traces recorded at once may both find that it is not there
        return made(kind, key, name, make)


def made(kind, key, name, make):
    d = os.path.join(OUT, '%s-%s' % (kind, key))
    t = os.path.join(d, name)
    if not os.path.exists(t):
        for old in glob.glob(os.path.join(OUT, kind + '-*')):
            shutil.rmtree(old, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        make(d, t)
        for o in glob.glob(os.path.join(d, '*.o')):
            os.remove(o)
    return t


def core():
    src = VERIF + '/harness/core_driver.cpp'
    k = digest(repo_sources() + [src], BASE + SAN)
    return cached('core', k, 'core_driver', lambda d, t: compile_all(core_sources() + [src], SAN, d, [], t))


def tsan():
    """the same driver, watched for data races"""
    src = VERIF + '/harness/core_driver.cpp'
    k = digest(repo_sources() + [src], BASE + TSAN)
    return cached('tsan', k, 'core_driver', lambda d, t: compile_all(core_sources() + [src], TSAN, d, [], t))


def python_package():
    """the Python package of /repo with its extension module built against harness/minipybind -> scratch home"""
    hp = glob.glob(VERIF + '/harness/minipybind/**/*.h', recursive=True)
    k = digest(repo_sources() + hp, BASE + SAN)

    def make(d, t):
        inc = ['-I' + VERIF + '/harness/minipybind', '-I' + sysconfig_include(), '-fvisibility=hidden']
        os.makedirs(d + '/site/tinyfk', exist_ok=True)
        compile_all([REPO + '/src/wrapper.cpp'] + core_sources(), SAN + inc, d, ['-shared'], d + '/site/tinyfk/_tinyfk.so')
        for f in os.listdir(REPO + '/python/tinyfk'):
            if f.endswith('.py'):
                shutil.copy(os.path.join(REPO, 'python/tinyfk', f), d + '/site/tinyfk/' + f)
        os.makedirs(d + '/home/.tinyfk', exist_ok=True)   # so that the package does not try to download
        open(t, 'w').close()
    return os.path.dirname(cached('python', k, 'done', make))


def sysconfig_include():
    return subprocess.run([PY, '-c', 'import sysconfig; print(sysconfig.get_paths()["include"])'],
                          stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def libasan():
    return subprocess.run(['g++', '-print-file-name=libasan.so'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()


def java():
    src = glob.glob(VERIF + '/java/tlc2/module/*.java')
    k = digest(src)

    def make(d, t):
        run(['javac', '-cp', JARS, '-d', d] + src)
        open(t, 'w').close()
    return os.path.dirname(cached('java', k, 'done', make))


if __name__ == '__main__':
    print(java())
    print(core())
    print(tsan())
    print(python_package())
