#!/usr/bin/env python3
"""Builds groot's library and the harnesses from /repo's working tree into /verif/build (content-hash cache)."""
import hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GROOT_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
CXX = 'g++'
BASE = ['-std=c++17', '-O1', '-w', '-I/opt/vp/include/concurrentqueue', '-I' + REPO + '/src']
LIBS = ['-ldocopt', '-lboost_regex', '-lboost_filesystem', '-lspdlog', '-lfmt', '-lpthread']


class BuildError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b'\0')
    return m.hexdigest()[:24]


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def _headers():
    """Everything a source of the repository may include from it."""
    acc = []
    for d in ('src', 'bin', 'include'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in sorted(files):
                if f.endswith(('.h', '.hpp', '.inc', '.ipp', '.tpp')):
                    p = os.path.join(root, f)
                    acc.append(p.encode() + b'\0' + _read(p))
    return _h(*sorted(acc))


def _run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stderr[-3000:])


def compile_one(src, flags, hdr, extra=b''):
    os.makedirs(BUILD + '/obj', exist_ok=True)
    key = _h(src, _read(src), hdr, extra, ' '.join(flags))
    obj = f'{BUILD}/obj/{os.path.basename(src)}.{key}.o'
    if not os.path.exists(obj):
        tmp = f'{obj}.{os.getpid()}.tmp'
        _run([CXX] + flags + ['-c', src, '-o', tmp])
        os.replace(tmp, obj)
    return obj


def link(objs, out_name):
    out = f'{BUILD}/{out_name}.{_h(*objs)}'
    if not os.path.exists(out):
        tmp = f'{out}.{os.getpid()}.tmp'
        _run([CXX] + objs + ['-o', tmp] + LIBS)
        os.replace(tmp, out)
    return out


FEATURES = ['ZONES', 'STATS', 'LOOKUP', 'ECS', 'GRAPH']


def whitebox(src, hdr):
    """compiles the observer with as many of its views of groot's insides as still compile"""
    def flags(fs):
        return BASE + ['-DWB_' + f for f in fs]
    try:
        return compile_one(src, flags(FEATURES), hdr), FEATURES, ''
    except BuildError as e:
        err = str(e)[-600:]
    fs = []
    for f in FEATURES:
        if f == 'GRAPH' and 'ECS' not in fs:
            continue
        try:
            compile_one(src, flags(fs + [f]), hdr)
            fs.append(f)
        except BuildError:
            pass
    return compile_one(src, flags(fs), hdr), fs, err


def lib_sources():
    d = os.path.join(REPO, 'src')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))


def prune(keep_days=2):
    """Old cache entries go, the disk is small."""
    import time
    for d in (BUILD + '/obj', BUILD):
        if os.path.isdir(d):
            ents = [os.path.join(d, f) for f in os.listdir(d)]
            ents = sorted((p for p in ents if os.path.isfile(p)), key=os.path.getmtime)
            for p in ents[:-260]:
                os.unlink(p)


def build(targets):
    """targets: subset of {'observe', 'groot', 'sched'}; returns {target: path} and for observe the
    'features' it has (fewer when the insides of groot have another shape)."""
    hdr = _headers()
    res = {}
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        jobs = {}
        if 'observe' in targets or 'groot' in targets:
            jobs['lib'] = [ex.submit(compile_one, s, BASE, hdr) for s in lib_sources()]
        if 'observe' in targets:
            h = os.path.join(VERIF, 'harness/observe.cpp')
            jobs['wb'] = ex.submit(whitebox, h, hdr)
        if 'groot' in targets:
            jobs['main'] = ex.submit(compile_one, os.path.join(REPO, 'bin/groot.cpp'), BASE, hdr)
        if 'sched' in targets:
            import sched_build
            jobs['sched'] = sched_build.submit(ex, hdr)
        lib = [j.result() for j in jobs.get('lib', [])]
        if 'observe' in targets:
            o, res['features'], res['wberror'] = jobs['wb'].result()
            res['observe'] = link(lib + [o], 'observe')
        if 'groot' in targets:
            res['groot'] = link(lib + [jobs['main'].result()], 'groot')
        if 'sched' in targets:
            res['sched'] = link([j.result() for j in jobs['sched']], 'sched')
    prune()
    return res


if __name__ == '__main__':
    try:
        print(build(set(sys.argv[1:]) or {'observe', 'groot'}))
    except BuildError as e:
        print(e)
        sys.exit(2)
