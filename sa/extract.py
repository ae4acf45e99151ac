"""Runs the extractor on the driver units and on the repository's own sources; one Prog per run."""
import os, sys, json, hashlib, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SA_REPO', '/repo')
ASTX = os.path.join(VERIF, 'bin', 'astx')


def flags():
    f = open(os.path.join(VERIF, 'tool', 'flags.txt')).read().split()
    return [x.replace('/repo/', REPO + '/') for x in f] + ['-I' + os.path.join(VERIF, 'drivers', 'omega')]


def ensure_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh')], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout + r.stderr)
        raise SystemExit(2)


def repo_key():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, 'src'), os.path.join(VERIF, 'drivers'), os.path.join(VERIF, 'tool')):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.cpp', '.h', '.txt')):
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(open(p, 'rb').read())
    for p in ('/opt/vp/plato/compat.hpp', '/opt/vp/plato/headers.cpp'):
        if os.path.exists(p):
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def extract(units):
    """units: list of absolute source paths -> list of (path, dict)"""
    ensure_tool()
    key = repo_key()
    cache = os.environ.get('SA_CACHE')  # development only
    tmp = tempfile.mkdtemp(prefix='sa.')
    out = []

    def one(u):
        if cache:
            cf = os.path.join(cache, key + '_' + hashlib.sha256(u.encode()).hexdigest()[:12] + '.json')
            if os.path.exists(cf):
                return u, json.load(open(cf)), ''
        o = os.path.join(tmp, hashlib.sha256(u.encode()).hexdigest()[:12] + '.json')
        r = subprocess.run([ASTX, o, REPO + '/src:' + VERIF + '/drivers', u, '--'] + flags(), capture_output=True, text=True, cwd=tmp)
        if not os.path.exists(o):
            return u, None, r.stderr[-3000:]
        d = json.load(open(o))
        if cache:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(o, cf)
        os.remove(o)
        return u, d, r.stderr[-6000:]
    try:
        with ThreadPoolExecutor(8) as ex:
            out = list(ex.map(one, units))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def cpps():
    """the repository's sources that the offline build compiles"""
    src = os.path.join(REPO, 'src')
    names = ['CustomMaterial.cpp', 'ExpressionEvaluator.cpp', 'IsotropicStiffness.cpp', 'MaterialModel.cpp', 'Rank4Voigt.cpp',
             'TensileEnergyDensity.cpp', 'alg/AmgXConfigs.cpp', 'alg/Basis.cpp', 'alg/Cubature.cpp', 'alg/ParallelComm.cpp']
    return [os.path.join(src, n) for n in names if os.path.exists(os.path.join(src, n))]


def load(drivers=(), sources=()):
    from interp import TU, Prog
    units = [os.path.join(VERIF, 'drivers', d) for d in drivers] + [os.path.join(REPO, 'src', s) for s in sources]
    res = extract(units)
    tus = []
    logs = {}
    for u, d, log in res:
        if d is None:
            sys.stderr.write('cannot parse %s\n%s\n' % (u, log))
            raise SystemExit(2)
        t = TU(d, os.path.basename(u))
        tus.append(t)
        logs[os.path.basename(u)] = (d['errors'], log)
    p = Prog(tus)
    p.logs = logs
    return p
