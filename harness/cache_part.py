"""The cache of NEMDE files: histories enumerated by MCCache.tla and random ones, run on the real manager, judged by CacheTrace.tla."""
import json, os, random, re, sys, tempfile, shutil, datetime, io, zipfile
import pipeline

KINDS = ['regional_demand', 'interocnnector', 'generic_constraint', 'ramp_rate', 'unit_capacity', 'energy_constraint', 'energy_offer', 'fcas_profile',
         'fast_start', 'mnsp_ramp_rate', 'msnp_offer', 'mnsp_capacity', 'ugif']
AEMO = ['AreaGen', 'Interconnector', 'Generic', 'RampRate', 'UnitMWCapacity', 'EnergyConstr', 'EnergyOffer', 'ASProfile', 'FastStart', 'MNSPRampRate',
        'MNSPOffer', 'MNSPCapacity', 'UIGF']


def name(f):
    d = datetime.date(1970, 1, 1) + datetime.timedelta(days=f['day'])
    return 'NEMSPDOutputs_%s%03d00%s.loaded' % (d.strftime('%Y%m%d'), f['no'], '_OCD' if f['ocd'] else '')


# ---- on the real code ---------------------------------------------------------------------------------------------------
def content(f, viol):
    """a small case file that says which it is; violations partly with the period, partly with the case"""
    import nemde, xmltodict
    v = {k: ('0.5' if k in viol else '0') for k in KINDS}
    key = lambda k: '@Total%sViolation' % AEMO[KINDS.index(k)]
    per = {key(k): v[k] for k in KINDS if k not in ('fast_start', 'ugif')}
    cas = {key(k): v[k] for k in KINDS}
    wrong = {k: '7' if x == '0' else '0' for k, x in per.items()}
    if f['no'] % 2:      # an intervention: two solutions
        out = {'period_solution': [dict(wrong, **{'@Intervention': '1'}), dict(per, **{'@Intervention': '0'})],
               'case_solution': [dict(cas, **{'@Intervention': '0'}), dict(cas, **{'@Intervention': '1'})]}
    else:
        out = {'period_solution': dict(per, **{'@Intervention': '0'}), 'case_solution': dict(cas, **{'@Intervention': '0'})}
    return xmltodict.unparse(nemde.case_file(case={'@CaseID': name(f)}, **out))


class Web:
    """stand-in for the archive: answers what the HTTP adapter would"""
    def __init__(self, t):
        self.asked, self.slept = [], []
        self.arch = {}
        viol = {json.dumps(r['f'], sort_keys=True): r['v'] for r in t['viol']}
        self.body = lambda f: content(f, viol.get(json.dumps({k: f[k] for k in ('day', 'no', 'ocd')}, sort_keys=True), []))
        for a in t['arch']:
            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w') as z:
                for f in a['files']:
                    z.writestr(name(f), self.body(f))
            d = datetime.date(1970, 1, 1) + datetime.timedelta(days=a['day'])
            self.arch[d.strftime('NemSpdOutputs_%Y%m%d_loaded.zip')] = [b.getvalue(), a['bad']]

    def send(self, adapter, request, **kw):
        import requests
        self.asked.append(request.url)
        r = requests.Response()
        r.request, r.url = request, request.url
        p = self.arch.get(request.url.rsplit('/', 1)[1])
        if p is None:
            r.status_code, r._content = 404, b'<html>not found</html>'
        else:
            r.status_code, r._content = 200, (p[0] if p[1] == 0 else b'<html>busy</html>')
            if 0 < p[1] <= 2:
                p[1] -= 1
        r._content_consumed = True
        return r


def one(t):
    import requests, time
    from nempy.historical_inputs import xml_cache, loaders
    web = Web(t)
    requests.adapters.HTTPAdapter.send = lambda *a, **k: web.send(*a, **k)
    nap = lambda s: web.slept.append(s)
    time.sleep = nap
    if hasattr(xml_cache, 'sleep'):
        xml_cache.sleep = nap
    d = tempfile.mkdtemp(prefix='cache')
    try:
        for f in t['cache']:
            with open(os.path.join(d, name(f)), 'w') as g:
                g.write(web.body(f))
        m = xml_cache.XMLCacheManager(d)
        l = loaders.RawInputsLoader(m, None)
        for c in t['calls']:
            web.asked = []
            c['err'] = 'none'
            c['loaded'], c['name'], c['incache'], c['ocd'] = '', '', False, False
            try:
                if c['c'] == 'load':
                    when = datetime.datetime(1970, 1, 1) + datetime.timedelta(days=c['t']['day'], minutes=c['t']['min'])
                    l.set_interval(when.strftime('%Y/%m/%d %H:%M:%S'))
                    c['loaded'] = m.xml['NEMSPDCaseFile']['NemSpdInputs']['Case']['@CaseID']
                    c['name'], c['incache'], c['ocd'] = m.get_file_name(), bool(m.interval_inputs_in_cache()), bool(l.is_over_constrained_dispatch_rerun())
                elif c['c'] == 'months':
                    m.populate(start_year=c['a'][0], start_month=c['a'][1], end_year=c['b'][0], end_month=c['b'][1], verbose=False)
                elif c['c'] == 'days':
                    m.populate_by_day(start_year=c['a'][0], start_month=c['a'][1], start_day=c['a'][2], end_year=c['b'][0], end_month=c['b'][1],
                                      end_day=c['b'][2], verbose=False)
                else:
                    c['got'] = []
                    r = m.find_intervals_with_violations(limit=c['limit'], start_year=c['a'][0], start_month=c['a'][1], end_year=c['b'][0], end_month=c['b'][1])
                    c['got'] = [{'t': k, 'v': list(v)} for k, v in r.items()]
            except Exception as e:
                c['err'] = type(e).__name__
            c['asked'] = list(web.asked) if c['c'] == 'load' else []
            c['names'] = sorted(os.listdir(d))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return t


def init():
    sys.path.insert(0, os.environ.get('VP_REPO', '/repo') + '/src')
    import warnings
    warnings.filterwarnings('ignore')
    sys.stdout = open(os.devnull, 'w')


def drive(src, dst):
    from multiprocessing import Pool
    rows = [json.loads(l) for l in open(src)]
    with Pool(8, initializer=init) as p:
        res = p.map(one, rows, chunksize=4)
    with open(dst, 'w') as f:
        for x in res:
            f.write(json.dumps(x) + '\n')


# ---- the check ----------------------------------------------------------------------------------------------------------
def judge(ctx, rows, tag='cache'):
    w = ctx.work
    os.makedirs(w + '/cv', exist_ok=True)
    for t in rows:
        t['all'] = [f for a in t['arch'] for f in a['files']] + [f for f in t['cache']]
    pipeline.write_nd(w + '/cache_s.ndjson', rows)
    pipeline.sh([pipeline.PY, 'cache_part.py', w + '/cache_s.ndjson', w + '/cache_t.ndjson'], w + '/cache.log')
    _, st, di = pipeline.tlc('CacheTrace', 'CacheTrace.cfg', w, {'VP_TRACE': w + '/cache_t.ndjson', 'VP_OUT': w + '/cv'})
    ctx.states += di
    ctx.transitions += st - len(rows)
    ctx.traces += len(rows)
    tr = pipeline.read_nd(w + '/cache_t.ndjson')
    for t in tr:
        v = json.load(open(w + '/cv/v_%s.json' % t['id']))
        ctx.count('calls_judged', len(t['calls']))
        for f in v['fails']:
            ctx.fail('cache', f['cl'], '%s %s' % (t['id'], f['wh']), 'got %s want %s' % (f['got'][:300], f['want'][:300]), dict(t, calls=t['calls'][:f['at']]))
    if tr:
        ctx.samples.append({'calls': tr[-1]['calls'][:3]})


def part(ctx):
    out = ctx.work + '/cache_menu.json'
    ctx.model('MCCache', 'MCCache3.cfg', env={'VP_OUT': out}, extra=('-dump', ctx.work + '/cache'))
    if ctx.tier == 'thorough':
        ctx.model('MCCache', 'MCCache5.cfg')
    base = json.load(open(out))
    rows = []
    h = None
    for l in open(ctx.work + '/cache.dump'):
        if l.startswith('/\\ h = '):
            h = [int(x) for x in re.findall(r'\d+', l[7:])]
        elif l.startswith('/\\ w = ') and h:
            w = base['worlds'][int(re.findall(r'\d+', l[7:])[0]) - 1]
            if len(h) == 3:
                rows.append({'id': 'e%d' % len(rows), 'arch': w['arch'], 'cache': w['cache'], 'viol': [], 'calls': [{'c': 'load', 't': base['menu'][k - 1]} for k in h]})
    os.remove(ctx.work + '/cache.dump')
    ctx.notes['enumerated_histories'] = len(rows)
    r = random.Random('cache/%s' % ctx.seed)
    for i in range(ctx.n(500, 6000)):
        rows.append(history(r, 'r%d' % i, loads=True))
    for i in range(ctx.n(120, 1500)):
        rows.append(history(r, 'p%d' % i, loads=False))
    judge(ctx, rows)


def date(n):
    d = datetime.date(1970, 1, 1) + datetime.timedelta(days=n)
    return [d.year, d.month, d.day]


def history(r, id_, loads):
    y = r.choice([2012, 2013, 2019, 2020, 2023, 2024])
    m, d = r.choice([(1, 1), (12, 31), (2, 28), (2, 29), (3, 1), (10, 9), (r.randint(1, 12), r.randint(1, 28))])
    if (m, d) == (2, 29) and y % 4:
        d = 28
    day = (datetime.date(y, m, d) - datetime.date(1970, 1, 1)).days
    # numbers of interest: the ends of a market day, midnight (239 is 23:55, 240 is 00:00)
    nos = [1, 2, 48, 239, 240, 241, 287, 288, 100, r.randint(1, 288)]
    F = lambda dd, ns: [{'day': dd, 'no': n, 'ocd': o} for n in ns for o in r.choice([[False], [False], [True], [False, True]])]
    if loads:
        arch = [{'day': day + k, 'files': F(day + k, sorted(set(r.sample(nos, 5)))), 'bad': r.choice([0, 0, 0, 1, 99])} for k in range(-1, 2) if r.random() < .85]
        cache = [f for k in (-1, 0) if r.random() < .4 for f in F(day + k, [r.choice(nos)])]
        calls = []
        for _ in range(r.randint(2, 8)):
            n = r.choice(nos)
            mins = (n - 1) * 5 + 245
            dd = day + r.choice([-1, 0, 0, 1])
            calls.append({'c': 'load', 't': {'day': dd + mins // 1440, 'min': mins % 1440}})
        viol = []
    else:
        span = r.choice([1, 2, 3, 35])
        whole = r.random() < .5
        if whole:
            a = datetime.date(y, m, 1)
            e = (a + datetime.timedelta(days=r.choice([3, 40]))).replace(day=1)
            first, last = (a - datetime.date(1970, 1, 1)).days, ((e + datetime.timedelta(days=31)).replace(day=1) - datetime.date(1970, 1, 1)).days - 1
        else:
            first, last = day, day + span
        gap = r.choice([None, None, None, r.randint(first - 2, last + 1)])
        arch = [{'day': k, 'files': F(k, sorted({239, 240, 288} | set(r.sample(nos, 2)) if k % 3 == 0 else {240})), 'bad': 0}
                for k in range(first - 2, last + 2) if k != gap and (first - 2 < k or r.random() < .8) and (k <= last or r.random() < .5)]
        if gap and r.random() < .3 and first - 2 <= gap:
            arch.append({'day': gap, 'files': F(gap, [240]), 'bad': 99})
        cache = [f for k in range(first - 1, last + 1) if r.random() < .1 for f in F(k, [r.choice([240, 240, 5])])]
        viol = []
        calls = []
        fa, fb = date(first), date(last)
        if whole and r.random() < .4:
            arch = r.sample(arch, min(4, len(arch)))
            cache = [f for f in cache if (f['day'], f['no']) not in {(g['day'], g['no']) for x in arch for g in x['files']}]
            for f in list({json.dumps(f, sort_keys=True): f for f in [f for a in arch for f in a['files']] + cache}.values()):
                if r.random() < .5:
                    viol.append({'f': f, 'v': r.sample(KINDS, r.randint(1, 3))})
            calls.append({'c': 'find', 'a': fa, 'b': fb, 'limit': r.choice([1, 2, 3, 50])})
        elif whole:
            calls.append({'c': 'months', 'a': fa, 'b': fb})
        else:
            calls.append({'c': 'days', 'a': fa, 'b': fb})
        mins = r.choice([0, 5, 235, 240, 1435])
        calls.append({'c': 'load', 't': {'day': r.randint(first, last), 'min': mins}})
    return {'id': id_, 'arch': arch, 'cache': [dict(t) for t in {json.dumps(f, sort_keys=True): f for f in cache}.values()], 'viol': viol, 'calls': calls}


def replay(ctx, rec):
    judge(ctx, [rec['case']])


if __name__ == '__main__':
    drive(*sys.argv[1:3])
