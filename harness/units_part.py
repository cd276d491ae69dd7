"""Historical unit inputs: synthetic NEMDE cases and MMS tables through the real UnitData, judged by UnitsTrace.tla."""
import json, os, random, sys, tempfile, shutil, datetime
import pipeline
import tlaval

FCAS = ['R5RE', 'L5RE', 'R6SE', 'L6SE', 'R60S', 'L60S', 'R5MI', 'L5MI', 'R1SE', 'L1SE']
WHEN = {'2019/03/04 12:05:00': False, '2023/07/07 13:35:00': False, '2023/07/07 13:40:00': True, '2023/07/07 13:45:00': True, '2024/07/10 12:05:00': True,
        '2022/12/31 23:55:00': False, '2023/11/01 04:00:00': True}


def case_name(when):
    t = datetime.datetime.strptime(when, '%Y/%m/%d %H:%M:%S') - datetime.timedelta(hours=4, minutes=5)
    return 'NEMSPDOutputs_%s%03d00.loaded' % (t.strftime('%Y%m%d'), (t.hour * 60 + t.minute) // 5 + 1)


# ---- on the real code ---------------------------------------------------------------------------------------------------
def q(x):
    x = x / 4
    return repr(x) if x != int(x) else str(int(x))


def build(t):
    import nemde
    traders, periods = [], []
    for n, u in enumerate(t['units']):
        ic = [{'@InitialConditionID': 'InitialMW', '@Value': repr(u['init'] / 4 + u['noise'])}, {'@InitialConditionID': 'AGCStatus', '@Value': str(u['agc'])}]
        if t['intervention'] or n % 2:
            ic.insert(n % 3, {'@InitialConditionID': 'WhatIfInitialMW', '@Value': repr(u['whatif'] / 4 + u['noise'])})
        for f, a in (('up', 'SCADARampUpRate'), ('dn', 'SCADARampDnRate')):
            if u[f]:
                ic.append({'@InitialConditionID': a, '@Value': str(u[f][0])})
        x = {'@TraderID': u['id'], '@TraderType': u['kind'], 'TraderInitialConditionCollection': {'TraderInitialCondition': ic}}
        for f in u['fs']:
            x.update({'@MinLoadingMW': str(f['min']), '@CurrentMode': str(f['mode']), '@CurrentModeTime': str(f['t'])})
            x.update({'@T%d' % i: str(f['t%d' % i]) for i in (1, 2, 3, 4)})
            for g, a in (('wmode', '@WhatIfCurrentMode'), ('wtime', '@WhatIfCurrentModeTime')):
                for v in f[g]:
                    x[a] = str(v)
        ps, ts = [], []
        for b in u['bids']:
            p = {'@TradeType': b['ty']}
            v = {'@TradeType': b['ty']}
            if b['dir']:
                p['@Direction'] = b['dir']
                if not b['vdir_absent']:
                    v['@Direction'] = b['dir']
            p.update({'@PriceBand%d' % (i + 1): str(b['price'][i]) for i in range(10)})
            v['@MaxAvail'] = q(b['max'])
            if b['ty'] in FCAS:
                v.update({'@EnablementMin': q(b['emin']), '@EnablementMax': q(b['emax']), '@LowBreakpoint': q(b['lo']), '@HighBreakpoint': q(b['hi'])})
            else:
                v.update({'@RampUpRate': str(b['up']), '@RampDnRate': str(b['dn'])})
            v.update({'@BandAvail%d' % (i + 1): q(b['vol'][i]) for i in range(10)})
            ps.append(p)
            ts.append(v)
        if n % 2:
            ts.reverse()
        x['TradePriceStructureCollection'] = {'TradePriceStructure': {'TradeTypePriceStructureCollection': {'TradeTypePriceStructure': ps if len(ps) > 1 else ps[0]}}}
        y = {'@TraderID': u['id'], 'TradeCollection': {'Trade': ts if len(ts) > 1 else ts[0]}}
        for v in u['uigf']:
            y['@UIGF'] = q(v)
        traders.append(x)
        periods.append(y)
    sol = {'@Intervention': '0'}
    return nemde.case_file(traders=traders, trader_periods=periods[::-1], period_solution=[sol, {'@Intervention': '1'}] if t['intervention'] else sol)


def database(t):
    import sqlite3
    from nempy.historical_inputs import mms_db
    con = sqlite3.connect(':memory:')
    db = mms_db.DBManager(con)
    db.create_tables()
    ins = lambda tab, **k: con.execute('insert into %s (%s) values (%s)' % (tab, ','.join(k), ','.join('?' * len(k))), list(k.values()))
    others = {x['when']: x for x in t.get('before', []) if x['when'] != t['when']}
    for n, u in enumerate(t['units']):
        o = lambda v: v[0] / 4 if v else None
        for when, k, a in [(t['when'], 1, u['agcl']), ('2030/01/01 00:00:00', 2, u['agcl']), ('2010/01/01 00:00:00', .5, u['agcl'])] + [(w, 1, x['units'][n]['agcl']) for w, x in others.items()]:
            f = lambda v: None if o(v) is None else o(v) * k
            ins('DISPATCHLOAD', SETTLEMENTDATE=when, DUID=u['id'], RAISEREGENABLEMENTMAX=f(a['rmax']), RAISEREGENABLEMENTMIN=f(a['rmin']),
                LOWERREGENABLEMENTMAX=f(a['lmax']), LOWERREGENABLEMENTMIN=f(a['lmin']))
        for d in u['det']:
            row = lambda start, k, reg: ins('DUDETAILSUMMARY', DUID=u['id'], START_DATE=start, END_DATE='2999/12/31 00:00:00', DISPATCHTYPE='GENERATOR',
                                            CONNECTIONPOINTID='CP%d' % n, REGIONID=reg, TRANSMISSIONLOSSFACTOR=d['tlf'] / 4 * k, DISTRIBUTIONLOSSFACTOR=d['dlf'] / 4 * k,
                                            SCHEDULE_TYPE='SCHEDULED', SECONDARY_TLF=(d['stlf'][0] / 4 * k if d['stlf'] else None))
            if n % 3 == 0:
                row('2030/01/01 00:00:00', 3, 'OTHER')
            row('2015/07/01 00:00:00', 1, d['region'])
            if n % 3 == 1:
                row('2011/07/01 00:00:00', 2, 'OTHER')
    con.commit()
    return db


def num(x, k=4000):
    """a number in thousandths of a quarter; anything else becomes something no value equals"""
    try:
        x = float(x) * k
        return int(round(x)) if abs(x) < 2e9 else 2100000000
    except (TypeError, ValueError):
        return 2100000001


def opt(x, k=4000):
    return [] if x is None or x != x else [num(x, k)]


def call(u, c):
    import pandas as pd
    rec = lambda df: df.to_dict('records')
    K = lambda r, *cols: [r[x] for x in cols]
    if c['c'] == 'availability':
        c['rows'] = [{'key': K(r, 'unit', 'dispatch_type'), 'v': num(r['capacity'])} for r in rec(u.get_unit_bid_availability())]
    elif c['c'] == 'uigf':
        c['rows'] = [{'key': K(r, 'unit'), 'v': num(r['capacity'])} for r in rec(u.get_unit_uigf_limits())]
    elif c['c'] == 'ramps':
        c['rows'] = [{'key': K(r, 'unit', 'dispatch_type'), 'up': num(r['ramp_up_rate'], 1000), 'dn': num(r['ramp_down_rate'], 1000), 'init': num(r['initial_output'])}
                     for r in rec(u.get_bid_ramp_rates())]
    elif c['c'] == 'scada':
        df = u.get_scada_ramp_rates(inlude_initial_output=True) if c['full'] else u.get_scada_ramp_rates()
        c['rows'] = [{'key': K(r, 'unit'), 'up': opt(r['scada_ramp_up_rate'], 1000), 'dn': opt(r['scada_ramp_down_rate'], 1000), 'init': opt(r.get('initial_output'))} for r in rec(df)]
    elif c['c'] == 'initial':
        c['rows'] = [{'key': K(r, 'unit'), 'v': num(r['initial_output'])} for r in rec(u.get_initial_unit_output())]
    elif c['c'] == 'info':
        c['rows'] = [{'key': K(r, 'unit', 'dispatch_type'), 'region': r['region'], 'lf': num(r['loss_factor'], 16000)} for r in rec(u.get_unit_info())]
    elif c['c'] == 'bids':
        v, p = u.get_processed_bids()
        bands = [str(i) for i in range(1, 11)]
        c['rows'] = [{'key': K(r, 'unit', 'service', 'dispatch_type'), 'vol': [num(r[b]) for b in bands]} for r in rec(v)]
        c['prices'] = [{'key': K(r, 'unit', 'service', 'dispatch_type'), 'price': [num(r[b], 1600) for b in bands]} for r in rec(p)]
    elif c['c'] == 'add_trap':
        u.add_fcas_trapezium_constraints()
    elif c['c'] == 'max_avail':
        c['rows'] = [{'key': K(r, 'unit', 'service', 'dispatch_type'), 'max': num(r['max_availability'])} for r in rec(u.get_fcas_max_availability())]
    elif c['c'] in ('reg_trap', 'con_trap'):
        df = u.get_fcas_regulation_trapeziums() if c['c'] == 'reg_trap' else u.get_contingency_services()
        c['rows'] = [{'key': K(r, 'unit', 'service', 'dispatch_type'), 'max': num(r['max_availability']), 'emin': num(r['enablement_min']), 'lo': num(r['low_break_point']),
                      'hi': num(r['high_break_point']), 'emax': num(r['enablement_max'])} for r in rec(df)]
    elif c['c'] == 'modes':
        c['rows'] = [{'key': K(r, 'unit'), 'mode': int(r['current_mode'])} for r in rec(u.get_fast_start_profiles_for_dispatch())]
    elif c['c'] == 'advance':
        rows = []
        for x in c['present']:
            on = x in c['dispatched']
            rows += [{'unit': x, 'service': 'raise_reg', 'dispatch': 0.0 if on else 40.0}, {'unit': x, 'service': 'energy', 'dispatch': c['mw'] if on else 0.0}]
        d = pd.DataFrame(rows, columns=['unit', 'service', 'dispatch'])
        df = u.get_fast_start_profiles_for_dispatch(d) if not c['all'] else u.get_fast_start_profiles_for_dispatch(d, return_all_columns=True)
        c['rows'] = [{'key': K(r, 'unit'), 'mode': int(r['end_mode']), 't': num(r['time_in_end_mode'], 1000), 't2': num(r['mode_two_length'], 1000),
                      't4': num(r['mode_four_length'], 1000), 'min': num(r['min_loading'], 1000), 'two': opt(r['time_since_end_of_mode_two'], 1000)} for r in rec(df)]


def one(t):
    import nemde
    from nempy.historical_inputs import xml_cache, loaders, units
    d = tempfile.mkdtemp(prefix='units')
    try:
        for x in t.get('before', []) + [t]:
            nemde.write(d, case_name(x['when']), build(x))
        l = loaders.RawInputsLoader(xml_cache.XMLCacheManager(d), database(t))
        for x in t.get('before', []):           # other intervals the same loader was set to, and what was asked there
            try:
                l.set_interval(x['when'])
                u = units.UnitData(l)
            except Exception:
                continue
            for c in x['calls']:
                try:
                    call(u, dict(c))
                except Exception:
                    pass
        u = None
        for c in t['calls']:
            c['err'], c['rows'], c['prices'] = 'none', [], []
            try:
                if u is None:           # a case that cannot even be opened fails every call
                    l.set_interval(t['when'])
                    u = units.UnitData(l)
                call(u, c)
            except Exception as e:
                c['err'] = type(e).__name__
                c['msg'] = str(e)[:100]
                if os.environ.get('VP_TB'):
                    import traceback
                    c['msg'] = " | ".join(l.strip() for l in traceback.format_exc().split("\n") if "nempy" in l or "Error" in l)[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return t


def init():
    sys.path.insert(0, os.environ.get('VP_REPO', '/repo') + '/src')
    import warnings
    warnings.filterwarnings('ignore')
    sys.stdout = open(os.devnull, 'w')


def drive(src, dst):
    from multiprocessing import Pool
    rows = [json.loads(l) for l in open(src)]
    with Pool(8, initializer=init) as p:
        res = p.map(one, rows, chunksize=2)
    with open(dst, 'w') as f:
        for x in res:
            f.write(json.dumps({k: v for k, v in x.items() if k != 'before'}) + '\n')


# ---- the check ----------------------------------------------------------------------------------------------------------
def judge(ctx, rows):
    w = ctx.work
    os.makedirs(w + '/uv', exist_ok=True)
    pipeline.write_nd(w + '/units_s.ndjson', rows)
    pipeline.sh([pipeline.PY, 'units_part.py', w + '/units_s.ndjson', w + '/units_t.ndjson'], w + '/units.log')
    _, st, di = pipeline.tlc('UnitsTrace', 'UnitsTrace.cfg', w, {'VP_TRACE': w + '/units_t.ndjson', 'VP_OUT': w + '/uv'})
    ctx.states += di
    ctx.transitions += st - len(rows)
    ctx.traces += len(rows)
    tr = pipeline.read_nd(w + '/units_t.ndjson')
    before = {t['id']: t['before'] for t in rows if 'before' in t}
    ctx.count('loaders_moved', len(before))
    for t in tr:
        v = json.load(open(w + '/uv/v_%s.json' % t['id']))
        ctx.count('tables_judged', len(t['calls']))
        ctx.count('fcas_offers', v['offered'])
        ctx.count('fcas_offers_enabled', v['enabled'])
        for f in v['fails']:
            msg = t['calls'][f['at'] - 1].get('msg', '')
            ctx.fail('units', f['cl'], '%s %s' % (t['id'], f['wh']), 'got %s want %s %s' % (f['got'][:300], f['want'][:200], msg), dict(t, calls=t['calls'][:f['at']], **({'before': before[t['id']]} if t['id'] in before else {})))
    if tr:
        ctx.samples.append({'when': tr[-1]['when'], 'units': tr[-1]['units'][:1], 'calls': [dict(c, rows=c['rows'][:1], prices=c['prices'][:1]) for c in tr[-1]['calls'][:4]]})


def unit(r, i, o):
    kind = r.choice(['GENERATOR'] * 5 + ['LOAD'] * 2 + ['BIDIRECTIONAL'] * 3 + ['NORMALLY_ON_LOAD', 'WDR']) if 'kind' not in o else r.choice(o['kind'])
    Q = lambda a, b: r.randint(a * 4, b * 4)
    bdu = kind == 'BIDIRECTIONAL'
    mid = Q(-20, 60) if bdu else Q(-2, 90)
    u = {'id': 'U%d' % i, 'kind': kind, 'init': mid, 'whatif': r.choice([mid, Q(0, 90)]), 'agc': r.choice([1, 1, 1, 0]), 'noise': r.choice([0, 0, 0, 1e-6, -1e-6]),
         'up': r.choice([[], [0], [r.randint(1, 90) * 12], [r.randint(60, 900)]]), 'dn': r.choice([[], [0], [r.randint(1, 90) * 12], [r.randint(60, 900)]]),
         'uigf': [], 'det': [], 'fs': [], 'bids': [], 'agcl': {k: [] for k in ('rmax', 'rmin', 'lmax', 'lmin')}}
    if kind == 'GENERATOR' and r.random() < .35:
        u['uigf'] = [r.choice([Q(0, 100), u['init'], Q(40, 140), 0])]
    if r.random() < .93:
        u['det'] = [{'tlf': r.choice([3, 4, 4, 5, 2]), 'dlf': r.choice([3, 4, 4, 5]), 'stlf': [r.choice([3, 5])] if r.random() < (.6 if bdu else .2) else [],
                     'region': r.choice(['NSW1', 'VIC1'])}]
    if not bdu and r.random() < .6:
        lim = lambda near: r.choice([[], [0], [max(0, near + Q(-15, 15))]])
        u['agcl'] = {'rmax': lim(360), 'rmin': lim(80), 'lmax': lim(360), 'lmin': lim(80)}
    if kind == 'GENERATOR' and r.random() < o.get('fs', .3):
        f = {'min': r.randint(1, 40), 'mode': r.choice([0, 0, 1, 2, 3, 4]), 't%d' % 1: r.choice([0, 1, 3, 5, 7, 12]), 't2': r.choice([0, 1, 2, 4, 5, 9]),
             't3': r.choice([0, 2, 3, 10]), 't4': r.choice([0, 2, 5, 7, 12]), 'wmode': [], 'wtime': []}
        span = lambda m: 0 if m == 0 else r.randint(0, max(0, f['t%d' % m]))
        f['t'] = span(f['mode'])
        if r.random() < .25:
            m = r.choice([0, 1, 2, 3, 4])
            f['wmode'], f['wtime'] = [m], [span(m)]
        u['fs'] = [f]
    energy = {'GENERATOR': 'ENOF', 'LOAD': 'LDOF', 'NORMALLY_ON_LOAD': 'LDOF', 'WDR': 'DROF', 'BIDIRECTIONAL': 'BDOF'}[kind]
    said = bdu or r.random() < .4

    def bid(ty, side, e):
        vols = [Q(0, 40) if r.random() < .5 else 0 for _ in range(10)]
        if r.random() < .08:
            vols = [0] * 10
        prices = sorted(r.randint(-1000, 15000) for _ in range(10))
        b = {'ty': ty, 'dir': side if said else '', 'vdir_absent': said and not bdu and r.random() < .3, 'vol': vols, 'price': prices, 'up': r.randint(1, 900), 'dn': r.randint(1, 900)}
        b.update(e)
        return b

    main = {'GENERATOR': 'GEN', 'NORMALLY_ON_LOAD': 'GEN', 'WDR': 'GEN', 'LOAD': 'LOAD', 'BIDIRECTIONAL': 'GEN'}[kind]
    zero = {'emin': 0, 'lo': 0, 'hi': 0, 'emax': 0}
    if r.random() < .92:
        u['bids'].append(bid(energy, main, dict(zero, max=r.choice([Q(0, 120), Q(60, 140), 0]))))
        if bdu:
            u['bids'].append(bid(energy, 'LOAD', dict(zero, max=r.choice([Q(0, 120), Q(60, 140), 0]))))
    for ty in r.sample(FCAS, r.randint(0, 5)):
        for side in (['GEN', 'LOAD'] if bdu and ty in ('R5RE', 'L5RE') and r.random() < .7 else [r.choice(['GEN', 'GEN', 'LOAD'])] if bdu and ty in ('R5RE', 'L5RE') else [main]):
            if bdu and ty in ('R5RE', 'L5RE'):
                xs = sorted([0, Q(0, 60), Q(0, 90), Q(20, 110)])
                if side == 'LOAD':
                    xs = sorted(-x for x in xs)
                if r.random() < .3:
                    xs = sorted(x + r.choice([-40, 40]) for x in xs)
            elif bdu:
                xs = sorted([Q(-90, 20), Q(-60, 40), Q(-20, 60), Q(0, 110)])
            else:
                xs = sorted([Q(0, 40), Q(10, 60), Q(30, 90), Q(50, 110)])
                if r.random() < .3:
                    i0 = max(0, u['init'])
                    xs[r.choice([0, 3])] = i0
                    xs = sorted(xs)
            if r.random() < .1:
                xs[1] = xs[0]
            if r.random() < .1:
                xs[2] = xs[3]
            u['bids'].append(bid(ty, side, {'max': r.choice([Q(1, 80), Q(1, 80), Q(1, 20), 0]), 'emin': xs[0], 'lo': xs[1], 'hi': xs[2], 'emax': xs[3]}))
    if not u['bids']:
        u['bids'].append(bid(energy, main, dict(zero, max=Q(0, 100))))
    return u


CALLS = ['availability', 'uigf', 'ramps', 'scada', 'initial', 'info', 'bids', 'add_trap', 'max_avail', 'reg_trap', 'con_trap', 'modes', 'advance']


def case(r, id_, calls, o):
    when = r.choice(sorted(WHEN))
    o = dict(o, fs=0) if r.random() < .05 else o
    t = {'id': id_, 'when': when, 'late': WHEN[when], 'intervention': r.random() < .25, 'units': [unit(r, i, o) for i in range(r.randint(2, o.get('units', 9)))], 'calls': []}
    ask(r, t, calls)
    if o.get('moves', True) and r.random() < .3:          # the loader comes from elsewhere: from another interval, where the units offer other things, or back from one
        there = r.choice([x for x in sorted(WHEN) if x != when])
        a = {'when': there, 'late': WHEN[there], 'intervention': r.random() < .25, 'units': [dict(unit(r, i, o), det=u['det']) for i, u in enumerate(t['units'])], 'calls': []}
        ask(r, a, calls)
        t['before'] = [a]
        if r.random() < .5:
            b = {k: t[k] for k in ('when', 'late', 'intervention', 'units')}
            ask(r, b, calls)
            t['before'].insert(0, b)
    return t


def ask(r, t, calls):
    t['calls'] = []
    for c in calls(r):
        c = {'c': c}
        if c['c'] == 'scada':
            c['full'] = r.random() < .5
        if c['c'] == 'advance':
            ids = [u['id'] for u in t['units']]
            c['present'] = [x for x in ids if r.random() < .95]
            c['dispatched'] = [x for x in c['present'] if r.random() < .6]
            c['mw'], c['all'] = r.choice([0.5, 10.0, 100.0]), r.random() < .3
        t['calls'].append(c)


def part(name, n, calls, o):
    def run(ctx):
        r = random.Random('%s/%s' % (name, ctx.seed))
        judge(ctx, [case(r, '%s%d' % (name, i), calls, o) for i in range(ctx.n(n))])
    return run


def some(menu, lo, hi):
    return lambda r: [r.choice(menu) for _ in range(r.randint(lo, hi))]


inputs = part('in', 260, lambda r: r.sample(CALLS[:7], 7), {})
fcas = part('fc', 400, lambda r: r.choice([['bids', 'add_trap', 'max_avail', 'reg_trap', 'con_trap'], ['bids', 'add_trap', 'reg_trap', 'con_trap', 'bids', 'add_trap', 'max_avail'],
                                          [r.choice(CALLS[6:11]) for _ in range(6)]]), {'fs': .05})
fast = part('fs', 300, lambda r: r.choice([['modes', 'advance'], ['advance', 'modes', 'advance'], ['advance', 'advance', 'info', 'modes']]), {'fs': .9, 'kind': ['GENERATOR'], 'units': 14})


def dumped(ctx, module, quick, deep):
    d = ctx.work + '/' + module
    ctx.model(module, quick if ctx.tier == 'quick' else deep, extra=('-dump', d))
    out = tlaval.states(d + '.dump')
    os.remove(d + '.dump')
    return out


BLANK = {'kind': 'GENERATOR', 'init': 0, 'whatif': 0, 'agc': 1, 'noise': 0, 'up': [], 'dn': [], 'uigf': [], 'fs': [], 'agcl': {k: [] for k in ('rmax', 'rmin', 'lmax', 'lmin')},
         'det': [{'tlf': 4, 'dlf': 4, 'stlf': [], 'region': 'NSW1'}]}
NOBID = {'dir': '', 'vdir_absent': False, 'price': list(range(10)), 'up': 60, 'dn': 60, 'emin': 0, 'lo': 0, 'hi': 0, 'emax': 0, 'vol': [4] * 10}


def fast_model(ctx):
    """every state of MCFast and both of its successors"""
    st = dumped(ctx, 'MCFast', 'MCFastQ.cfg', 'MCFastT.cfg')
    rows = []
    for i in range(0, len(st), 250):
        us = [dict(BLANK, id='U%d' % j, fs=[dict(s['f'], mode=s['m'], t=s['t'])], bids=[dict(NOBID, ty='ENOF', max=400)]) for j, s in enumerate(st[i:i + 250])]
        ids = [u['id'] for u in us]
        rows.append({'id': 'mf%d' % i, 'when': '2024/07/10 12:05:00', 'late': True, 'intervention': False, 'units': us,
                     'calls': [{'c': 'advance', 'present': ids, 'dispatched': d, 'mw': 20.0, 'all': False} for d in ([], ids)]})
    ctx.notes['enumerated_profiles'] = len(st)
    judge(ctx, rows)


def trap_model(ctx):
    """every offer of MCUnits"""
    st = [s['s'] for s in dumped(ctx, 'MCUnits', 'MCUnitsQ.cfg', 'MCUnitsT.cfg')]
    rows = []
    for i in range(0, len(st), 120):
        us = []
        for j, s in enumerate(st[i:i + 120]):
            raise_ = s['ty'] != 'L5RE'
            bids = [dict(NOBID, ty=s['ty'], max=s['max'], emin=s['tr'][0], lo=s['tr'][1], hi=s['tr'][2], emax=s['tr'][3])] + [dict(NOBID, ty='ENOF', max=c) for c in s['cap']]
            a = ('rmin', 'rmax') if raise_ else ('lmin', 'lmax')
            us.append(dict(BLANK, id='U%d' % j, init=s['init'], whatif=s['init'], agc=s['agc'], uigf=s['uigf'], bids=bids, agcl=dict(BLANK['agcl'], **{a[0]: s['rmin'], a[1]: s['rmax']}),
                           **{'up' if raise_ else 'dn': s['rate']}))
        rows.append({'id': 'mu%d' % i, 'when': '2024/07/10 12:05:00', 'late': True, 'intervention': False, 'units': us,
                     'calls': [{'c': c} for c in ('bids', 'add_trap', 'max_avail', 'reg_trap', 'con_trap')]})
    ctx.notes['enumerated_offers'] = len(st)
    judge(ctx, rows)


def storage_model(ctx):
    """every storage unit of MCStorage"""
    st = [s['s'] for s in dumped(ctx, 'MCStorage', 'MCStorageQ.cfg', 'MCStorageT.cfg')]
    st = [s for s in st if s['gen'] or s['load'] or s['capg'] or s['capl']]
    if ctx.tier == 'thorough':
        random.Random('storage/%s' % ctx.seed).shuffle(st)
        st = st[:24000]
    rows = []
    for i in range(0, len(st), 120):
        us = []
        for j, s in enumerate(st[i:i + 120]):
            bids = [dict(NOBID, ty=s['ty'], dir=d, max=m, emin=t[0], lo=t[1], hi=t[2], emax=t[3]) for d, t, m in (('GEN', s['gen'], s['gmax']), ('LOAD', s['load'], 24)) if t]
            bids += [dict(NOBID, ty='BDOF', dir=d, max=c) for d, cs in (('GEN', s['capg']), ('LOAD', s['capl'])) for c in cs]
            us.append(dict(BLANK, id='U%d' % j, kind='BIDIRECTIONAL', init=s['init'], whatif=s['init'], agc=s['agc'], bids=bids, up=s['rate'], dn=s['rate']))
        rows.append({'id': 'ms%d' % i, 'when': '2024/07/10 12:05:00', 'late': True, 'intervention': False, 'units': us,
                     'calls': [{'c': c} for c in ('bids', 'add_trap', 'reg_trap', 'con_trap')]})
    ctx.notes['enumerated_storages'] = len(st)
    judge(ctx, rows)


def replay(ctx, rec):
    judge(ctx, [rec['case']])


if __name__ == '__main__':
    drive(*sys.argv[1:3])
