"""Runs recorded-call histories on the real nempy market and records what it reports.

A history is a list of events whose numbers are the specification's scaled integers
(Q=1e5 MW, P=1e5 $/MWh, K=1e6 coefficients).  Only public methods are used.
Runs under /opt/venv/bin/python with /repo/src first on sys.path.
"""
import sys, os, json, random, io, contextlib, traceback, math
sys.path.insert(0, os.environ.get('VP_REPO', '/repo') + '/src')
import warnings
warnings.filterwarnings('ignore')
import numpy as np
import pandas as pd

Q = 1e5
P = 1e5
K = 1e6


def rq(x):
    return int(round(float(x) * 1e5))


class Bad(Exception):
    pass


def num(x, scale=1e5):
    """Reported number -> scaled int, total: NaN/inf/None become a value no clause accepts."""
    try:
        v = float(x)
    except Exception:
        return 2000000000
    if not math.isfinite(v):
        return 2000000000
    if abs(v) * scale > 1e9:
        return 1500000000 if v > 0 else -1500000000
    return int(round(v * scale))


class Stub:
    """takes any call"""
    def __getattr__(self, name):
        return lambda *a, **k: None


def same(a, b):
    return list(a.columns) == list(b.columns) and len(a) == len(b) and list(a.index) == list(b.index) and \
        all(x is y or x == y or (x != x and y != y) for c in a.columns for x, y in zip(a[c], b[c]))


def become(df, new):
    """the owner of a table alters it in place"""
    for c in list(df.columns):
        del df[c]
    for c in new.columns:
        df[c] = new[c].values


def spoil(df):
    """the owner of a table overwrites it in place"""
    for c in list(df.columns):
        if df[c].dtype == object:
            df[c] = ['spoiled'] * len(df)
        else:
            df[c] = [7.25] * len(df)


class Runner:
    def __init__(self, seed=0, pool=None):
        self.rng = random.Random(seed)
        self.pool = pool                    # tables given before, by what they hold or by where they belong
        self.slot = None
        self.given = []                     # tables of the call under way, each with a copy
        self.spoils = self.reread = 0.0
        self.index = 'plain'
        self.nodt = False
        self.noserv = False
        self.last = pd.DataFrame({'unit': ['none'], 'dispatch_type': ['generator'], 'service': ['energy'], 'dispatch': [0.0]})

    dry = False

    # -- frame building -------------------------------------------------------
    def frame(self, recs, cols):
        recs = list(recs)
        if self.shuffle:
            self.rng.shuffle(recs)
        d = {c: [r[c] for r in recs] for c in cols}
        df = pd.DataFrame(d)
        for c in cols:
            if len(recs) and isinstance(recs[0][c], float):
                df[c] = df[c].astype(float)
        if self.shuffle and len(df):
            idx = list(range(len(df)))
            self.rng.shuffle(idx)
            df.index = [i // 2 for i in idx] if self.index == 'twice' else idx
        if self.pool is not None:
            key = (self.slot, len(self.given)) if self.slot else json.dumps([cols, [[str(r[c]) for c in cols] for r in recs]])
            df = self.pool.setdefault(key, df)
        self.given.append((df, df.copy()))
        return df

    def el(self, el):
        if el['k'] == 'none':
            return None
        if el['k'] == 'num':
            c = el['c'] / P
            return int(c) if (c == int(c) and self.rng.random() < 0.3) else c
        df = pd.DataFrame({'set': [z['s'] for z in el['cs']], 'cost': [z['c'] / P for z in el['cs']]})
        self.given.append((df, df.copy()))
        return df

    def call(self, e):
        self.given = []
        getattr(self, 'ev_' + e['ev'])(e)
        e['alt'] = [' '.join(map(str, b.columns)) for a, b in self.given if not same(a, b)]
        if self.pool is None and self.rng.random() < self.spoils:
            for a, _ in self.given:
                spoil(a)

    def ev_new(self, e):
        from nempy import markets
        self.shuffle = e.get('shuffle', False)
        self.index = e.get('index', 'plain')
        self.spoils = e.get('spoils', 0.0)
        self.reread = e.get('reread', 0.0)
        self.nodt = e.get('nodt', False)
        self.noserv = e.get('noserv', False)
        self.info = e['info']
        recs = [{'unit': i['u'], 'region': i['r'], 'dispatch_type': i['dt'], 'loss_factor': i['lf'] / K} for i in e['info']]
        cols = ['unit', 'region']
        if not self.nodt:
            cols.append('dispatch_type')
        if not e.get('nolf', False):
            cols.append('loss_factor')
        unit_info = self.frame(recs, cols)
        self.m = Stub() if self.dry else markets.SpotMarket(market_regions=list(e['regions']), unit_info=unit_info, dispatch_interval=e['iv'])
        self.keys = []
        self.has = set()

    def dtc(self, cols):
        return cols + ([] if self.nodt else ['dispatch_type'])

    def bids(self, rows, f, scale):
        n = max(len(r[f]) for r in rows)
        recs = []
        for r in rows:
            d = {'unit': r['u'], 'service': r['sv'], 'dispatch_type': r['dt']}
            for j in range(n):
                d[str(j + 1)] = (r[f][j] if j < len(r[f]) else (0 if f == 'b' else (r[f][-1]))) / scale
            recs.append(d)
        cols = self.dtc(['unit']) + ([] if self.noserv else ['service']) + [str(j + 1) for j in range(n)]
        return self.frame(recs, cols)

    def ev_vol(self, e):
        self.m.set_unit_volume_bids(self.bids(e['rows'], 'b', Q))

    def ev_price(self, e):
        self.m.set_unit_price_bids(self.bids(e['rows'], 'p', P))

    def ev_cap(self, e):
        recs = [{'unit': r['u'], 'dispatch_type': r['dt'], 'capacity': r['q'] / Q} for r in e['rows']]
        self.m.set_unit_bid_capacity_constraints(self.frame(recs, self.dtc(['unit']) + ['capacity']),
                                                 violation_cost=self.el(e['el']))
        self.keys.append('unit_bid_capacity')

    def ev_uigf(self, e):
        recs = [{'unit': r['u'], 'capacity': r['q'] / Q} for r in e['rows']]
        self.m.set_unconstrained_intermittent_generation_forecast_constraint(
            self.frame(recs, ['unit', 'capacity']), violation_cost=self.el(e['el']))
        self.keys.append('uigf_capacity')

    def fs_frame(self, fs, second):
        recs = []
        for f in fs:
            recs.append({'unit': f['u'], 'current_mode': f['cm'], 'end_mode': f['em'],
                         'time_since_end_of_mode_two': (f['t2e'] / 10.0 if f['t2e'] >= 0 else float('nan')),
                         'min_loading': f['ml'] / Q})
        cols = ['unit', 'end_mode', 'time_since_end_of_mode_two', 'min_loading'] if second else ['unit', 'current_mode']
        df = self.frame(recs, cols)
        if second:
            df['end_mode'] = df['end_mode'].astype('int64')
        else:
            df['current_mode'] = df['current_mode'].astype('int64')
        return df

    def fs_args(self, e):
        run = e['run']
        if run == 'no_fast_start_units':
            return {} if self.rng.random() < 0.5 else {'run_type': run}
        return {'run_type': run, 'fast_start_profiles': self.fs_frame(e['fs'], run == 'fast_start_second_run')}

    def ev_ramp(self, e):
        recs = [{'unit': r['u'], 'dispatch_type': r['dt'], 'initial_output': r['init'] / Q,
                 'ramp_up_rate': r['up'] / Q, 'ramp_down_rate': r['dn'] / Q} for r in e['rows']]
        kw = self.fs_args(e)
        if e['scada'] or e.get('emptyscada'):
            nn = lambda v: v / Q if v >= 0 else float('nan')
            kw['scada_ramp_rates'] = self.frame(
                [{'unit': r['u'], 'scada_ramp_up_rate': nn(r['up']), 'scada_ramp_down_rate': nn(r['dn'])} for r in e['scada']],
                ['unit', 'scada_ramp_up_rate', 'scada_ramp_down_rate'])
        self.m.set_unit_ramp_rate_constraints(
            self.frame(recs, self.dtc(['unit']) + ['initial_output', 'ramp_up_rate', 'ramp_down_rate']),
            violation_cost=self.el(e['el']), **kw)
        self.keys += ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']

    def rates(self, rows):
        return self.frame([{'unit': r['u'], 'dispatch_type': r['dt'], 'ramp_up_rate': r['up'] / Q, 'ramp_down_rate': r['dn'] / Q} for r in rows],
                          self.dtc(['unit']) + ['ramp_up_rate', 'ramp_down_rate'])

    def ev_chain(self, e):
        from nempy import time_sequential
        last = self.last.copy()
        if e.get('noserv'):
            last = last[last['service'] == 'energy'].drop(columns='service')
        if self.shuffle:
            last = last.sample(frac=1, random_state=self.rng.randrange(1 << 30))
        df = time_sequential.construct_ramp_rate_parameters(last, self.rates(e['rows']))
        self.m.set_unit_ramp_rate_constraints(df, violation_cost=self.el(e['el']))
        self.keys += ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']

    def ev_seed(self, e):
        from nempy import time_sequential
        hist = self.frame([{'unit': r['u'], 'initial_output': r['init'] / Q} for r in e['hist']], ['unit', 'initial_output'])
        df = time_sequential.create_seed_ramp_rate_parameters(hist, self.rates(e['rows']))
        self.m.set_unit_ramp_rate_constraints(df, violation_cost=self.el(e['el']))
        self.keys += ['ramp_up', 'ramp_down', 'bidirectional_ramp_up', 'bidirectional_ramp_down']

    def ev_fast(self, e):
        recs = [{'unit': r['u'], 'end_mode': r['em'], 'time_in_end_mode': r['t'] / 10.0, 'mode_two_length': r['t2'] / 10.0,
                 'mode_four_length': r['t4'] / 10.0, 'min_loading': r['ml'] / Q} for r in e['rows']]
        df = self.frame(recs, ['unit', 'end_mode', 'time_in_end_mode', 'mode_two_length', 'mode_four_length', 'min_loading'])
        df['end_mode'] = df['end_mode'].astype('int64')
        self.m.set_fast_start_constraints(df, violation_cost=self.el(e['el']))
        self.keys.append('fast_start')

    def ev_unfast(self, e):
        self.m.remove_fast_start_constraints()

    def ev_demand(self, e):
        self.m.set_demand_constraints(self.frame([{'region': r['r'], 'demand': r['d'] / Q} for r in e['rows']],
                                                 ['region', 'demand']), violation_cost=self.el(e['el']))
        self.keys.append('demand')
        self.has.add('demand')

    def ev_fcas(self, e):
        recs = [{'set': r['s'], 'region': r['r'], 'service': r['sv'], 'volume': r['q'] / Q, 'type': r['ty']} for r in e['rows']]
        cols = ['set', 'service', 'region', 'volume']
        if not e.get('notype'):
            cols.append('type')
        self.m.set_fcas_requirements_constraints(self.frame(recs, cols), violation_cost=self.el(e['el']))
        self.keys.append('fcas')
        self.has.add('fcas')

    def ev_maxav(self, e):
        recs = [{'unit': r['u'], 'service': r['sv'], 'dispatch_type': r['dt'], 'max_availability': r['q'] / Q} for r in e['rows']]
        self.m.set_fcas_max_availability(self.frame(recs, self.dtc(['unit', 'service']) + ['max_availability']),
                                         violation_cost=self.el(e['el']))
        self.keys.append('fcas_max_availability')
        self.has.add('avail')

    def ev_jramp(self, e):
        recs = [{'unit': r['u'], 'initial_output': r['init'] / Q, 'scada_ramp_up_rate': r['up'] / Q,
                 'scada_ramp_down_rate': r['dn'] / Q} for r in e['rows']]
        self.m.set_joint_ramping_constraints_reg(
            self.frame(recs, ['unit', 'initial_output', 'scada_ramp_up_rate', 'scada_ramp_down_rate']),
            violation_cost=self.el(e['el']), **self.fs_args(e))
        self.keys += ['joint_ramping_raise_reg', 'joint_ramping_lower_reg', 'joint_ramping_raise_reg_bdu',
                      'joint_ramping_lower_reg_bdu']
        self.has.add('avail')

    def trap(self, rows):
        recs = [{'unit': r['u'], 'service': r['sv'], 'dispatch_type': r['dt'], 'max_availability': r['ma'] / Q,
                 'enablement_min': r['emin'] / Q, 'low_break_point': r['lb'] / Q, 'high_break_point': r['hb'] / Q,
                 'enablement_max': r['emax'] / Q} for r in rows]
        return self.frame(recs, self.dtc(['unit', 'service']) + ['max_availability', 'enablement_min', 'low_break_point',
                                                                'high_break_point', 'enablement_max'])

    def ev_jcap(self, e):
        self.m.set_joint_capacity_constraints(self.trap(e['rows']), violation_cost=self.el(e['el']))
        self.keys.append('joint_capacity')
        self.has.add('avail')

    def ev_ereg(self, e):
        self.m.set_energy_and_regulation_capacity_constraints(self.trap(e['rows']), violation_cost=self.el(e['el']))
        self.keys.append('energy_and_regulation_capacity')
        self.has.add('avail')

    def ev_inter(self, e):
        recs = [{'interconnector': r['i'], 'link': r['l'], 'to_region': r['to'], 'from_region': r['fr'], 'max': r['mx'] / Q,
                 'min': r['mn'] / Q, 'from_region_loss_factor': r['flf'] / K, 'to_region_loss_factor': r['tlf'] / K,
                 'generic_constraint_factor': r['gf']} for r in e['rows']]
        cols = ['interconnector', 'to_region', 'from_region', 'max', 'min']
        if any(r['i'] != r['l'] for r in e['rows']) or e.get('cols'):
            cols += ['link', 'generic_constraint_factor']
        if any(r['flf'] != 1000000 or r['tlf'] != 1000000 for r in e['rows']) or e.get('cols'):
            cols += ['from_region_loss_factor', 'to_region_loss_factor']
        df = self.frame(recs, cols)
        if 'generic_constraint_factor' in df:
            df['generic_constraint_factor'] = df['generic_constraint_factor'].astype('int64')
        self.m.set_interconnectors(df)
        self.links = any(r['i'] != r['l'] for r in e['rows'])
        self.has.add('inter')

    def ev_loss(self, e):
        def mkf(pts):
            xs = [p['x'] / Q for p in pts]
            ys = [p['y'] / Q for p in pts]
            return lambda f: float(np.interp(f, xs, ys))
        recs = [{'interconnector': z['i'], 'link': z['l'], 'from_region_loss_share': z['sh'] / K, 'loss_function': mkf(z['pts'])}
                for z in e['rows']]
        cols = ['interconnector', 'from_region_loss_share', 'loss_function'] + (['link'] if self.links else [])
        lf = self.frame(recs, cols)
        bps = []
        for z in e['rows']:
            for k, p in enumerate(z['pts']):
                bps.append({'interconnector': z['i'], 'link': z['l'], 'loss_segment': k + e.get('seg0', 1),
                            'break_point': p['x'] / Q})
        bp = self.frame(bps, ['interconnector', 'loss_segment', 'break_point'] + (['link'] if self.links else []))
        bp['loss_segment'] = bp['loss_segment'].astype('int64')
        self.m.set_interconnector_losses(lf, bp)
        self.has.add('loss')

    def ev_gen(self, e):
        self.m.set_generic_constraints(
            self.frame([{'set': r['s'], 'type': r['ty'], 'rhs': r['rhs'] / Q} for r in e['rows']], ['set', 'type', 'rhs']),
            violation_cost=self.el(e['el']))
        self.keys.append('generic')

    def ev_gunit(self, e):
        self.m.link_units_to_generic_constraints(self.frame(
            [{'set': r['s'], 'unit': r['u'], 'service': r['sv'], 'coefficient': r['a'] / K} for r in e['rows']],
            ['set', 'unit', 'service', 'coefficient']))

    def ev_gregion(self, e):
        self.m.link_regions_to_generic_constraints(self.frame(
            [{'set': r['s'], 'region': r['r'], 'service': r['sv'], 'coefficient': r['a'] / K} for r in e['rows']],
            ['set', 'region', 'service', 'coefficient']))

    def ev_ginter(self, e):
        self.m.link_interconnectors_to_generic_constraints(self.frame(
            [{'set': r['s'], 'interconnector': r['i'], 'coefficient': r['a'] / K} for r in e['rows']],
            ['set', 'interconnector', 'coefficient']))

    def ev_elastic(self, e):
        self.m.make_constraints_elastic(e['key'], self.el(e['el']))
        self.keys.append(e['key'])

    def ev_tie(self, e):
        self.m.set_tie_break_constraints(e['nano'] / 1e9 if 'nano' in e else e['cost'] / P)

    def ev_dispatch(self, e):
        o = e['ocd']
        kw = {}
        if o['on']:
            o = e['ocd'] = self.thresholds(dict(o))
            kw = dict(energy_market_ceiling_price=o['ceil'] / P, energy_market_floor_price=o['floor'] / P,
                      fcas_market_ceiling_price=o['fceil'] / P, allow_over_constrained_dispatch_re_run=True)
        self.m.dispatch(**kw)

    def thresholds(self, o):
        """thresholds placed exactly at a price of the last ordinary dispatch, and whether such a price is met exactly"""
        ep, fp = getattr(self, 'ordinary', ([], []))
        at, ok = o.pop('at', ''), lambda v: abs(num(v)) <= 1e9
        if at == 'ceil' and ep and ok(max(ep)):
            o['ceil'] = num(max(ep))
        if at == 'floor' and ep and ok(min(ep)):
            o['floor'] = num(min(ep))
        if at == 'fceil' and fp and ok(max(fp)):
            o['fceil'] = num(max(fp))
        o['eq'] = any(x in (o['ceil'] / P, o['floor'] / P) for x in ep)
        o['feq'] = any(x == o['fceil'] / P for x in fp)
        return o

    def look(self, want):
        """read every report, in any order, and write over what was handed out"""
        m = self.m
        ask = [m.get_unit_dispatch, m.get_constraint_set_names] + [lambda k=k: m.get_elastic_constraints_violation_degree(k) for k in sorted(set(self.keys))]
        ask += [m.get_energy_prices] if 'demand' in self.has else []
        ask += [m.get_fcas_prices] if 'fcas' in self.has else []
        ask += [m.get_interconnector_flows] if 'inter' in self.has else []
        ask += [m.get_region_dispatch_summary] if want.get('summary') else []
        ask += [m.get_fcas_availability] if want.get('avail') and 'avail' in self.has else []
        self.rng.shuffle(ask)
        for a in ask:
            x = a()
            if isinstance(x, pd.DataFrame):
                spoil(x)
            elif isinstance(x, list):
                x.clear()

    def outcome(self, want):
        m = self.m
        if self.rng.random() < self.reread:
            self.look(want)
        d = m.get_unit_dispatch()
        self.last = d
        out = {'st': 'ok', 'msg': ''}
        out['disp'] = [{'u': r['unit'], 'sv': r['service'], 'dt': r['dispatch_type'], 'q': num(r['dispatch'])}
                       for _, r in d.iterrows()]
        ov = float(m.objective_value)
        dd = math.floor(ov) if math.isfinite(ov) and abs(ov) < 2e8 else 199999999
        out['obj'] = {'d': int(dd), 'f': int(round((ov - dd) * 1e5)) if math.isfinite(ov) and abs(ov) < 2e8 else 0}
        out['ep'] = out['fp'] = out['flows'] = out['viol'] = out['summary'] = out['avail'] = []
        out['hassum'] = False
        if not want.get('ocd', {}).get('on'):
            self.ordinary = ([float(x) for x in m.get_energy_prices()['price']] if 'demand' in self.has else [],
                             [float(x) for x in m.get_fcas_prices()['price']] if 'fcas' in self.has else [])
        if 'demand' in self.has:
            out['ep'] = [{'r': r['region'], 'p': num(r['price'])} for _, r in m.get_energy_prices().iterrows()]
        if 'fcas' in self.has:
            out['fp'] = [{'r': r['region'], 'sv': r['service'], 'p': num(r['price'])} for _, r in m.get_fcas_prices().iterrows()]
        if 'inter' in self.has:
            f = m.get_interconnector_flows()
            out['flows'] = [{'i': r['interconnector'], 'l': r['link'], 'q': num(r['flow']),
                             'ls': num(r['losses']) if 'losses' in f.columns and r['losses'] == r['losses'] else 0} for _, r in f.iterrows()]
        out['viol'] = [{'g': k, 'q': num(m.get_elastic_constraints_violation_degree(k))} for k in sorted(set(self.keys))]
        if want.get('summary'):
            s = m.get_region_dispatch_summary()
            g = lambda r, c: num(r[c]) if c in s.columns else 0
            out['summary'] = [{'r': r['region'], 'disp': g(r, 'dispatch'), 'inflow': g(r, 'inflow'),
                               'tl': g(r, 'transmission_losses'), 'il': g(r, 'interconnector_losses')} for _, r in s.iterrows()]
            out['hassum'] = True
        if want.get('avail') and 'avail' in self.has:
            bdu = {i['u'] for i in self.info if sum(1 for j in self.info if j['u'] == i['u']) > 1}
            dts = {i['u']: i['dt'] for i in self.info}
            a = m.get_fcas_availability()
            out['avail'] = [{'u': r['unit'], 'sv': r['service'], 'dt': dts[r['unit']], 'q': num(r['availability'])}
                            for _, r in a.iterrows() if r['unit'] not in bdu]
        return out


ERR = {'st': 'error', 'msg': '', 'disp': [], 'obj': {'d': 0, 'f': 0}, 'ep': [], 'fp': [], 'flows': [], 'viol': [],
       'summary': [], 'avail': [], 'hassum': False}


class Session:
    """one market: its events with what happened"""
    def __init__(self, sc, pool=None):
        self.sc, self.r, self.out, self.over = sc, Runner(sc.get('seed', 0), pool), [], False

    def step(self, e):
        if self.over:
            return
        e = dict(e)
        r, out = self.r, self.out
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                r.call(e)
                if e['ev'] == 'dispatch':
                    e['out'] = r.outcome(e)
            out.append(e)
        except Exception as ex:
            msg = type(ex).__name__ + ': ' + ' '.join(str(ex).split())[:120]
            if e['ev'] == 'dispatch':
                inf = type(ex).__name__ == 'ValueError' and 'infeasible' in str(ex)
                e['alt'] = []
                e['out'] = dict(ERR, st='infeasible' if inf else 'error', msg='dispatch: ' + msg)
                e['tb'] = traceback.format_exc()[-800:]
                out.append(e)
                self.over = not inf
            else:
                out.append({'ev': 'dispatch', 'alt': [], 'ocd': {'on': False, 'ceil': 0, 'floor': 0, 'fceil': 0}, 'chkprice': False,
                            'out': dict(ERR, msg=e['ev'] + ': ' + msg), 'tb': traceback.format_exc()[-800:]})
                self.over = True

    def trace(self):
        return dict(self.sc, ev=self.out)


def run(sc):
    """The scenario with outcomes attached to its dispatch events, as a list of one; of several when markets share tables."""
    if 'pair' in sc:
        return pair(sc)
    if 'log' in sc:
        return shared(sc)
    s = Session(sc)
    for e in sc['ev']:
        s.step(e)
    return [s.trace()]


def pair(sc):
    """several markets in one program, step by step in turns; tables that hold the same are the same table"""
    pool = {}
    ss = [Session(dict(x, id='%s.%d' % (sc['id'], n)), pool) for n, x in enumerate(sc['pair'])]
    left = [list(x['ev']) for x in sc['pair']]
    rng = random.Random(sc['seed'])
    while any(left):
        k = rng.choice([i for i, x in enumerate(left) if x])
        ss[k].step(left[k].pop(0))
    return [s.trace() for s in ss]


def shared(sc):
    """a history of Share.tla: markets made of tables their owner goes on altering"""
    pool, ss, out = {}, {}, []
    fresh = {}
    for p, versions in sc['parts'].items():
        for v, evs in enumerate(versions):
            r = Runner(1)
            r.dry, r.m = True, Stub()
            for n, e in enumerate([sc['parts']['info'][0][0]] + evs):
                r.keys, r.has, r.links = [], set(), False
                with contextlib.redirect_stdout(io.StringIO()):
                    r.call(dict(e))
                if n:
                    fresh[p, v + 1, n] = [b for _, b in r.given]
    for (p, v, n), dfs in fresh.items():
        if v == 1:
            for k, df in enumerate(dfs):
                pool[(p, n), k] = df.copy()
    made = 0
    for a, m, p, v in sc['log']:
        if a == 'alter':
            for (p_, v_, n), dfs in fresh.items():
                if p_ == p and v_ == v:
                    for k, df in enumerate(dfs):
                        become(pool[(p, n), k], df)
            continue
        if a == 'give' and p == 'info':
            if m in ss:
                out.append(ss[m].trace())
            made += 1
            ss[m] = Session({'id': '%s.%d' % (sc['id'], made), 'seed': sc['seed'] + made}, pool)
        for n, e in enumerate(sc['parts'][p][v - 1] if a == 'give' else [sc['disp']]):
            ss[m].r.slot = (p, n + 1)
            ss[m].step(e)
    return out + [s.trace() for s in ss.values()]


def quiet_fds():
    """CBC prints from C; send fd 1 to /dev/null in workers."""
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)


def worker_init():
    quiet_fds()


def run_safe(sc):
    try:
        return run(sc)
    except Exception as ex:                                   # machinery failure
        return [dict(sc, machinery=traceback.format_exc()[-2000:])]


def main(src, dst, procs=8):
    from multiprocessing import Pool
    scs = [json.loads(l) for l in open(src)]
    with Pool(procs, initializer=worker_init) as p:
        res = p.map(run_safe, scs, chunksize=4)
    with open(dst, 'w') as f:
        for s in [t for ts in res for t in ts]:
            f.write(json.dumps(s) + '\n')


if __name__ == '__main__':
    main(*sys.argv[1:3])
