"""Runs the tools: driver (real code), TLC (specification), certificate finder."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), 'spec')
REPO = os.environ.get('VP_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = 'python3-vt'
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Machinery(Exception):
    """something that is not the code under test went wrong"""


def sh(cmd, log, timeout=800, env=None, cwd=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    with open(log, 'w') as f:
        p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=cwd or HERE)
    if p.returncode != 0:
        raise Machinery('%s exited %d\n%s' % (' '.join(cmd[:4]), p.returncode, open(log, errors='replace').read()[-3000:]))
    return open(log, errors='replace').read()


def tlc(module, cfg, work, env=None, timeout=800, workers=8, extra=(), mem='6g', allow=(0,)):
    """returns (log, states, distinct)"""
    import re
    meta = tempfile.mkdtemp(prefix='meta', dir=work)
    log = os.path.join(work, 'tlc_%s_%d.log' % (module, time.time_ns()))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss16m', '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE', '-deadlock', '-workers',
           str(workers), '-metadir', meta, '-config', cfg] + list(extra) + [module + '.tla']
    with open(log, 'w') as f:
        p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    txt = open(log, errors='replace').read()
    if p.returncode not in allow:
        raise Machinery('TLC %s exited %d\n%s' % (module, p.returncode, txt[-3000:]))
    m = re.findall(r'(\d+) states generated, (\d+) distinct', txt)
    st = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return txt, st[0], st[1]


def write_nd(path, rows):
    with open(path, 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')


def read_nd(path):
    return [json.loads(l) for l in open(path)]


def market(scs, work, batch=1500):
    """drive histories on the real market and judge them against Market.tla.
    returns (list of (scenario, verdict dict), stats)"""
    out = []
    stats = {'states': 0, 'distinct': 0}
    for b in range(0, len(scs), batch):
        part = scs[b:b + batch]
        w = tempfile.mkdtemp(prefix='mk', dir=work)
        os.mkdir(w + '/lp')
        os.mkdir(w + '/v')
        write_nd(w + '/s.ndjson', part)
        sh([PY, 'driver.py', w + '/s.ndjson', w + '/t.ndjson'], w + '/drive.log')
        tr = read_nd(w + '/t.ndjson')
        for t in tr:
            if 'machinery' in t:
                raise Machinery(t['machinery'])
        tlc('MarketTrace', 'MarketTrace.cfg', w, {'VP_MODE': 'emit', 'VP_TRACE': w + '/t.ndjson', 'VP_OUT': w + '/lp'})
        sh([VT, 'certify.py', w + '/t.ndjson', w + '/lp', w + '/c.ndjson'], w + '/cert.log')
        _, st, di = tlc('MarketTrace', 'MarketTrace.cfg', w, {'VP_MODE': 'judge', 'VP_TRACE': w + '/c.ndjson', 'VP_OUT': w + '/v'})
        stats['states'] += st
        stats['distinct'] += di
        by = {s['id']: s for s in part}
        if {t['id'].split('.')[0] for t in tr} != set(by):
            raise Machinery('histories went missing')
        for t in tr:
            f = w + '/v/v_%s.json' % t['id']
            if not os.path.exists(f):
                raise Machinery('no verdict for ' + t['id'])
            out.append((dict(t, origin=by[t['id'].split('.')[0]]), json.load(open(f))))
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(w, ignore_errors=True)
    return out, stats
