"""The database of MMS tables: histories enumerated by MCMms.tla and random ones, run on the real DBManager over a stand-in archive, judged by MmsTrace.tla."""
import json, os, random, re, sys, datetime, io, zipfile
import pipeline
import tlaval

BASE = datetime.datetime(2010, 1, 1)
COLS = {  # k, sub, at, ver, eff, v, w
    'DISPATCHREGIONSUM': ('REGIONID', None, 'SETTLEMENTDATE', None, None, 'TOTALDEMAND', 'INITIALSUPPLY'),
    'DISPATCHLOAD': ('DUID', None, 'SETTLEMENTDATE', None, None, 'INITIALMW', 'RAISE1SEC'),
    'DISPATCHPRICE': ('REGIONID', None, 'SETTLEMENTDATE', None, None, 'ROP', 'LOWER1SECROP'),
    'DISPATCHCONSTRAINT': ('CONSTRAINTID', None, 'SETTLEMENTDATE', 'GENCONID_VERSIONNO', 'GENCONID_EFFECTIVEDATE', 'RHS', 'LHS'),
    'DISPATCHINTERCONNECTORRES': ('INTERCONNECTORID', None, 'SETTLEMENTDATE', None, None, 'MWFLOW', 'MWLOSSES'),
    'DUDETAILSUMMARY': ('DUID', None, 'START_DATE', None, None, 'TRANSMISSIONLOSSFACTOR', 'SECONDARY_TLF'),
    'DUDETAIL': ('DUID', None, 'EFFECTIVEDATE', 'VERSIONNO', None, 'REGISTEREDCAPACITY', None),
    'MNSP_INTERCONNECTOR': ('INTERCONNECTORID', 'LINKID', 'EFFECTIVEDATE', 'VERSIONNO', None, 'MAXCAPACITY', 'FROM_REGION_TLF'),
    'INTERCONNECTORCONSTRAINT': ('INTERCONNECTORID', None, 'EFFECTIVEDATE', 'VERSIONNO', None, 'IMPORTLIMIT', 'EXPORTLIMIT'),
    'LOSSMODEL': ('INTERCONNECTORID', 'LOSSSEGMENT', 'EFFECTIVEDATE', 'VERSIONNO', None, 'MWBREAKPOINT', None),
    'LOSSFACTORMODEL': ('INTERCONNECTORID', 'REGIONID', 'EFFECTIVEDATE', 'VERSIONNO', None, 'DEMANDCOEFFICIENT', None),
    'GENCONDATA': ('GENCONID', None, 'EFFECTIVEDATE', 'VERSIONNO', None, 'GENERICCONSTRAINTWEIGHT', None),
    'SPDREGIONCONSTRAINT': ('GENCONID', 'REGIONID', 'EFFECTIVEDATE', 'VERSIONNO', None, 'FACTOR', None),
    'SPDCONNECTIONPOINTCONSTRAINT': ('GENCONID', 'CONNECTIONPOINTID', 'EFFECTIVEDATE', 'VERSIONNO', None, 'FACTOR', None),
    'SPDINTERCONNECTORCONSTRAINT': ('GENCONID', 'INTERCONNECTORID', 'EFFECTIVEDATE', 'VERSIONNO', None, 'FACTOR', None),
    'INTERCONNECTOR': ('INTERCONNECTORID', None, None, None, None, 'REGIONFROM', None),
    'BIDPEROFFER_D': ('DUID', 'BIDTYPE', 'INTERVAL_DATETIME', None, None, 'BANDAVAIL1', 'MAXAVAIL'),
    'BIDDAYOFFER_D': ('DUID', 'BIDTYPE', 'SETTLEMENTDATE', None, None, 'PRICEBAND1', 'PRICEBAND2'),
}
OFFERS = {'BIDPEROFFER_D': 'InputsByIntervalDateTime', 'BIDDAYOFFER_D': 'InputsByDay'}
BYTIME = [t for t in COLS if t.startswith('DISPATCH') or t in OFFERS]
GENCON = ['GENCONDATA', 'SPDREGIONCONSTRAINT', 'SPDCONNECTIONPOINTCONSTRAINT', 'SPDINTERCONNECTORCONSTRAINT']
LATEST = [t for t in COLS if t not in BYTIME + GENCON]


def date(n):
    return (BASE + datetime.timedelta(minutes=5 * n)).strftime('%Y/%m/%d %H:%M:%S')


def step(s):
    d = (datetime.datetime.strptime(s, '%Y/%m/%d %H:%M:%S') - BASE).total_seconds() / 300
    return int(d) if d == int(d) else -1


# ---- on the real code ---------------------------------------------------------------------------------------------------
def csv(f, columns):
    """as published: a comment line, a header with more columns than are used, the rows, a last line that counts them"""
    k, sub, at, ver, eff, v, w = COLS[f['tab']]
    gone = {w} if f['lean'] and w else {v} if f['lean'] else set()
    cols = ['I', 'KIND', 'TABLE', 'NO'] + [c for c in columns if c not in gone] + (['INTERVENTION'] if f['tab'] in BYTIME else []) + ['LASTCHANGED']
    out = ['C,SETP.WORLD,PUBLIC,%s' % f['tab'], ','.join(cols)]
    for r in f['rows']:
        d = {'I': 'D', 'KIND': 'X', 'TABLE': f['tab'], 'NO': '1', 'INTERVENTION': str(r['iv']), 'LASTCHANGED': '"2020/01/01 00:00:00"', k: r['k'], sub: r['sub'], ver: str(r['ver']),
             v: ('R%d' % r['v'] if v == 'REGIONFROM' else repr(r['v'] / 4)), w: repr(r['w'][0] / 4) if r['w'] else ''}
        if at:
            d[at] = '"%s"' % date(r['at'])
        if eff:
            d[eff] = '"%s"' % date(r['eff'])
        if f['tab'].startswith('SPD'):
            d['BIDTYPE'] = 'ENERGY'
        out.append(','.join(d.get(c, '') for c in cols))
    return '\n'.join(out + ['C,"END OF REPORT",%d' % (len(f['rows']) + 3)]) + '\n'


class Web:
    def __init__(self, t, columns):
        self.files = {}
        for f in t['arch']:
            y, m = f['ym'] // 12, f['ym'] % 12 + 1
            name = ('PUBLIC_ARCHIVE%%23%s%%23FILE01%%23%d%02d010000' if (y, m) >= (2024, 8) else 'PUBLIC_DVD_%s_%d%02d010000') % (f['tab'], y, m)
            url = '/Data_Archive/Wholesale_Electricity/MMSDM/%d/MMSDM_%d_%02d/MMSDM_Historical_Data_SQLLoader/DATA/%s.zip' % (y, y, m, name)
            b = io.BytesIO()
            with zipfile.ZipFile(b, 'w') as z:
                z.writestr(name + '.CSV', csv(f, columns[f['tab']]))
            self.files[url] = b.getvalue()

    def send(self, adapter, request, **kw):
        import requests
        r = requests.Response()
        r.request, r.url = request, request.url
        body = self.files.get(request.url.split('nemweb.com.au', 1)[-1])
        r.status_code, r._content = (404, b'<html>no</html>') if body is None else (200, body)
        r._content_consumed = True
        return r


def one(t):
    import requests, sqlite3
    from nempy.historical_inputs import mms_db
    con = sqlite3.connect(':memory:')
    db = mms_db.DBManager(con)
    tables = {n: getattr(db, n) for n in COLS if n not in OFFERS}
    for n, cls in OFFERS.items():
        k, sub, at, _, _, v, w = COLS[n]
        tables[n] = getattr(mms_db, cls)(table_name=n, table_columns=[at, k, sub, v, w], table_primary_keys=[at, k, sub], con=con)
    web = Web(t, {n: tables[n].table_columns for n in COLS})
    requests.adapters.HTTPAdapter.send = lambda *a, **k: web.send(*a, **k)
    val = lambda x, k=4: [] if x is None or x != x else [int(round(float(x) * k))]
    for c in t['calls']:
        c['err'], c['rows'] = 'none', []
        y, m = c['ym'] // 12, c['ym'] % 12 + 1
        try:
            if c['c'] in ('create', 'populate'):
                for n in OFFERS:
                    tables[n].create_table_in_sqlite_db()
            if c['c'] == 'create':
                db.create_tables()
            elif c['c'] == 'add':
                tables[c['tab']].add_data(year=y, month=m)
            elif c['c'] == 'set':
                tables[c['tab']].set_data(year=y, month=m)
            elif c['c'] == 'populate':
                db.populate(start_year=c['from'] // 12, start_month=c['from'] % 12 + 1, end_year=y, end_month=m, verbose=False)
            else:
                tab = tables[c['tab']]
                df = tab.get_data() if c['tab'] == 'INTERCONNECTOR' else tab.get_data(date(c['t']))
                k, sub, at, ver, eff, v, w = COLS[c['tab']]
                missing = [x for x in tab.table_columns if x not in df.columns]
                if missing:
                    raise KeyError(str(missing))
                for r in df.to_dict('records'):
                    s = r[sub] if sub else ''
                    c['rows'].append({'k': r[k], 'sub': str(int(float(s))) if sub == 'LOSSSEGMENT' else s, 'at': step(r[at]) if at else 0, 'ver': int(float(r[ver])) if ver else 0,
                                      'eff': step(r[eff]) if eff else 0, 'v': int(r[v][1:]) if v == 'REGIONFROM' else val(r[v])[0], 'w': val(r[w]) if w else []})
        except Exception as e:
            c['err'] = type(e).__name__
            c['msg'] = str(e)[:150]
    con.close()
    return t


def init():
    sys.path.insert(0, os.environ.get('VP_REPO', '/repo') + '/src')
    import warnings
    warnings.filterwarnings('ignore')
    sys.stdout = open(os.devnull, 'w')


def drive(src, dst):
    from multiprocessing import Pool
    rows = [json.loads(l) for l in open(src)]
    with Pool(8, initializer=init) as p, open(dst, 'w') as f:
        for x in p.imap(one, rows, chunksize=4):
            f.write(json.dumps(x) + '\n')


# ---- the check ----------------------------------------------------------------------------------------------------------
def judge(ctx, rows):
    w = ctx.work
    os.makedirs(w + '/mv', exist_ok=True)
    pipeline.write_nd(w + '/mms_s.ndjson', rows)
    pipeline.sh([pipeline.PY, 'mms_part.py', w + '/mms_s.ndjson', w + '/mms_t.ndjson'], w + '/mms.log')
    _, st, di = pipeline.tlc('MmsTrace', 'MmsTrace.cfg', w, {'VP_TRACE': w + '/mms_t.ndjson', 'VP_OUT': w + '/mv'})
    ctx.states += di
    ctx.transitions += st - len(rows)
    ctx.traces += len(rows)
    last = None
    for t in pipeline.read_nd(w + '/mms_t.ndjson'):
        v = json.load(open(w + '/mv/v_%s.json' % t['id']))
        ctx.count('calls_judged', v['judged'])
        ctx.count('rows_returned', sum(len(c['rows']) for c in t['calls']))
        for x in v['fails']:
            c = t['calls'][x['at'] - 1]
            ctx.fail('mms', x['cl'], '%s %s' % (t['id'], x['wh']), 'got %s want %s %s' % (x['got'][:300], x['want'][:300], c.get('msg', '')), dict(t, calls=t['calls'][:x['at']]))
        last = t
    ctx.samples.append({'arch': last['arch'][:2], 'calls': [dict(c, rows=c['rows'][:2]) for c in last['calls'][:4]]})


def enumerated(ctx):
    out = ctx.work + '/mms_menu.json'
    ctx.model('MCMms', 'MCMms3.cfg', env={'VP_OUT': out}, extra=('-dump', ctx.work + '/mms'))
    if ctx.tier == 'thorough':
        ctx.model('MCMms', 'MCMms4.cfg')
    base = json.load(open(out))
    arch = [dict(f, rows=[dict(r, w=r['w'] if COLS[f['tab']][6] else []) for r in f['rows']]) for f in base['arch']]
    hs = [[int(x) for x in re.findall(r'\d+', l)] for l in open(ctx.work + '/mms.dump') if l.startswith('/\\ h = ')]
    os.remove(ctx.work + '/mms.dump')
    hs = [h for h in hs if len(h) == 3]
    ctx.notes['enumerated_histories'] = len(hs)
    r = random.Random('mms/%s' % ctx.seed)
    rows = []
    for n, h in enumerate(hs):
        calls = [{'c': 'create', 'tab': '', 'ym': 0}] + [dict(base['menu'][i - 1]) for i in h]
        tabs = sorted({f['tab'] for f in arch} & {c['tab'] for c in calls})
        gets = [{'c': 'get', 'tab': tab, 'ym': 0, 't': x} for tab in tabs for x in base['times']]
        rows.append({'id': 'e%d' % n, 'arch': arch, 'calls': calls + (gets if ctx.tier == 'thorough' else r.sample(gets, min(8, len(gets))))})
    judge(ctx, rows)


def archive(r, first, n, dense):
    """files of n months; things change at a few dates, intervals in dispatch are few"""
    start = lambda ym: (datetime.datetime(ym // 12, ym % 12 + 1, 1) - BASE).days * 288
    changes = sorted({start(first) + r.choice([-288 * 400, -288 * 40, -288, 0, 1, 12, 288, 288 * 20, 288 * 45]) for _ in range(4)})
    gencons = [('C%d' % i, e, v) for i in range(3) for e, v in {(r.choice(changes), r.choice([1, 2, 9, 10, 11])) for _ in range(3)}]
    arch, times = [], set()
    spd = {tab: {} for tab in COLS}

    def file(tab, ym, rows, lean=.12):
        if r.random() > dense:
            return
        r.shuffle(rows)
        arch.append({'tab': tab, 'ym': ym, 'lean': r.random() < lean and bool(COLS[tab][6] or tab in GENCON), 'rows': rows})

    def row(tab, k, sub='', at=0, ver=0, eff=0, iv=0):
        return {'k': k, 'sub': sub, 'at': at, 'ver': ver, 'eff': eff, 'v': r.randint(-400, 4000), 'w': [r.randint(0, 400)] if COLS[tab][6] and r.random() < .9 else [], 'iv': iv}

    for ym in range(first, first + n):
        ts = sorted({start(ym) + r.choice([1, 2, 48, 49, 288 * 3, 288 * 15 + 7, start(ym + 1) - start(ym)]) for _ in range(3)})
        times |= set(ts)
        for tab in BYTIME:
            rows = []
            for t in ts:
                if tab in OFFERS:
                    at = t if tab == 'BIDPEROFFER_D' else (t - 49) // 288 * 288 + r.choice([0, 0, 0, 288])
                    for k in ('U1', 'U2'):
                        for sub in ('ENERGY', 'RAISEREG'):
                            rows += [row(tab, k, sub, at) for _ in range(r.choice([0, 1, 1, 1, 2]))]
                    continue
                for k in ('C0', 'C1', 'C2') if tab == 'DISPATCHCONSTRAINT' else ('I0', 'I1') if 'INTER' in tab else ('NSW1', 'VIC1', 'U1'):
                    if r.random() < .85:
                        g = r.choice([x for x in gencons if x[0] == k]) if tab == 'DISPATCHCONSTRAINT' else (k, 0, 0)
                        rows.append(row(tab, k, at=t, ver=g[2], eff=g[1]))
                        if r.random() < .2:
                            rows.append(row(tab, k, at=t, ver=g[2], eff=g[1], iv=1))
                        if r.random() < .08:
                            rows.append(row(tab, k, at=t, ver=g[2], eff=g[1]))
            file(tab, ym, rows)
        for tab in LATEST:
            rows, seen = [], set()
            for k in ('I0', 'I1', 'I2') if 'INTER' in tab or 'LOSS' in tab else ('U1', 'U2'):
                if tab == 'INTERCONNECTOR':
                    rows.append(row(tab, k))
                    continue
                for at, ver in {(r.choice(changes), r.choice([1, 2, 3, 9, 10, 12])) for _ in range(r.randint(1, 4))}:
                    subs = {'MNSP_INTERCONNECTOR': ['LA', 'LB'], 'LOSSMODEL': ['1', '2', '10'], 'LOSSFACTORMODEL': ['NSW1', 'VIC1']}.get(tab, [''])
                    ver = 0 if tab == 'DUDETAILSUMMARY' else ver
                    for sub in subs:
                        if (k, sub, at, ver) not in seen and r.random() < .9:
                            seen.add((k, sub, at, ver))
                            rows.append(row(tab, k, sub, at, ver))
            file(tab, ym, rows, .15 if tab == 'DUDETAILSUMMARY' else 0)
        for tab in GENCON:
            rows, seen = [], set()
            for g in gencons:
                for sub in [''] if tab == 'GENCONDATA' else ['S1', 'S2']:
                    if r.random() < .6 and (g, sub) not in seen:
                        seen.add((g, sub))
                        rows.append(row(tab, g[0], sub, g[1], g[2]))
            file(tab, ym, rows, .15)
    return arch, sorted(times), changes


def history(r, id_):
    late = r.random() < .12
    first = 2024 * 12 + r.choice([5, 6, 7]) if late else r.choice([2010 * 12 + 1, 2010 * 12 + 11, 2011 * 12 + 5, 2011 * 12 + 10])
    n = r.randint(2, 4)
    dense = r.choice([1, 1, .85])
    arch, times, changes = archive(r, first, n, dense)
    calls = [{'c': 'create', 'tab': '', 'ym': 0}]
    full = r.random() < .5
    if full:
        a = first + r.choice([1, 1, 0])
        b = r.randint(a, first + n - 1)
        calls.append({'c': 'populate', 'tab': '', 'from': a, 'ym': b})
    for _ in range(r.randint(2, 9) if full else r.randint(8, 22)):
        tab = r.choice(BYTIME * 2 + LATEST + ([] if late else GENCON))
        ym = r.randint(first, first + n - 1)
        calls.append({'c': 'add' if tab in BYTIME else 'set', 'tab': tab, 'ym': ym})
        if r.random() < .02:
            calls.append({'c': 'create', 'tab': '', 'ym': 0})
    if late:
        calls = [c for c in calls if c['c'] != 'populate']
    gets = []
    for _ in range(30):
        gets.append({'c': 'get', 'tab': r.choice(sorted(COLS)), 'ym': 0, 't': r.choice(times * 3 + changes + [x - 1 for x in changes])})
    at = sorted(r.choices(range(1, len(calls) + 1), k=10))
    for n_, i in enumerate(reversed(at)):
        calls.insert(i, gets[n_])
    return {'id': id_, 'arch': arch, 'calls': calls + gets[10:]}


def randoms(ctx):
    r = random.Random('mmsr/%s' % ctx.seed)
    judge(ctx, [history(r, 'r%d' % i) for i in range(ctx.n(200))])


def replay(ctx, rec):
    judge(ctx, [rec['case']])


if __name__ == '__main__':
    drive(*sys.argv[1:3])
