"""Refusal of unsound input: tables enumerated from Validate.tla handed to the real market, judged by TLC."""
import json, os, random, sys
import pipeline

SEQ = ['volume', 'price', 'capacity', 'uigf', 'ramp', 'demand', 'fcas', 'maxav', 'jramp', 'jcap', 'ereg', 'inter', 'losses', 'fast_start', 'generic',
       'gunits', 'gregions', 'ginter', 'elastic']


# ---- on the real code (under /opt/venv) ---------------------------------------------------------------------------------
def frame(tab):
    import numpy as np
    import pandas as pd
    out = {}
    for col in tab:
        vals = []
        for z in col['c']:
            vals.append({'s': lambda: z['s'], 'f': lambda: z['x'] / 100.0, 'i': lambda: z['x'], 'inf': lambda: np.inf, 'ninf': lambda: -np.inf,
                         'nan': lambda: np.nan, 'none': lambda: None, 'fn': lambda: (lambda a: lambda x: a * x)(z['x'] / 1000.0)}[z['t']]())
        ts = {z['t'] for z in col['c']}
        dt = np.float64 if ts <= {'f', 'inf', 'ninf', 'nan'} else np.int64 if ts == {'i'} else object
        out[col['n']] = pd.Series(vals, dtype=dt)
    return pd.DataFrame(out)


def call(m, c, tab, alt):
    t = frame(tab)
    a = lambda k: frame(alt[k])
    if c == 'scada':
        return m.set_unit_ramp_rate_constraints(a('ramp'), scada_ramp_rates=t)
    if c == 'fs_first':
        return m.set_unit_ramp_rate_constraints(a('ramp'), fast_start_profiles=t, run_type='fast_start_first_run')
    if c == 'fs_second':
        return m.set_unit_ramp_rate_constraints(a('ramp'), fast_start_profiles=t, run_type='fast_start_second_run')
    if c == 'losses':
        return m.set_interconnector_losses(t, a('breaks'))
    if c == 'breaks':
        return m.set_interconnector_losses(a('losses'), t)
    if c == 'elastic':
        return m.make_constraints_elastic('generic', t)
    return getattr(m, {
        'volume': 'set_unit_volume_bids', 'price': 'set_unit_price_bids', 'capacity': 'set_unit_bid_capacity_constraints',
        'uigf': 'set_unconstrained_intermittent_generation_forecast_constraint', 'ramp': 'set_unit_ramp_rate_constraints',
        'fast_start': 'set_fast_start_constraints', 'demand': 'set_demand_constraints', 'fcas': 'set_fcas_requirements_constraints',
        'maxav': 'set_fcas_max_availability', 'jramp': 'set_joint_ramping_constraints_reg', 'jcap': 'set_joint_capacity_constraints',
        'ereg': 'set_energy_and_regulation_capacity_constraints', 'inter': 'set_interconnectors', 'generic': 'set_generic_constraints',
        'gunits': 'link_units_to_generic_constraints', 'gregions': 'link_regions_to_generic_constraints',
        'ginter': 'link_interconnectors_to_generic_constraints'}[c])(t)


def fresh(v, upto=None):
    from nempy import markets
    base = D['base'][v]
    m = markets.SpotMarket(market_regions=['N', 'S'], unit_info=frame(base['unit_info']))
    for c in SEQ:
        if c == upto:
            return m
        call(m, c, base[c], base)
        if c == 'ramp':
            call(m, 'scada', base['scada'], base)
    for k in list(m.get_constraint_set_names()):
        if k not in ('generic', 'interpolation_weights'):
            m.make_constraints_elastic(k, 5000.0)
    return m


def outcome(m):
    try:
        m.dispatch()
        d = m.get_unit_dispatch().sort_values(['unit', 'dispatch_type', 'service'])
        q = [int(round(float(x) * 1000)) for x in d['dispatch']]
        q += [int(round(float(x) * 1000)) for x in m.get_interconnector_flows().sort_values('link')['flow']]
        q += [int(round(float(x) * 1000)) for x in m.get_energy_prices().sort_values('region')['price']]
        q += [int(round(float(x) * 1000)) for x in m.get_fcas_prices().sort_values(['region', 'service'])['price']]
        return {'st': 'ok', 'q': q}
    except Exception as e:
        return {'st': type(e).__name__ + ': ' + str(e)[:80], 'q': []}


def order_call(c, v):
    """(market, thunk) of a call that is out of order or has an argument that is no table"""
    from nempy import markets
    import pandas as pd
    base = D['base'][v]
    new = lambda: markets.SpotMarket(market_regions=['N', 'S'], unit_info=frame(base['unit_info']))
    if c.endswith('_before_volume'):
        m = new()
        return m, lambda: call(m, c.split('_')[0], base[c.split('_')[0]], base)
    if c == 'losses_before_interconnectors':
        m = new()
        return m, lambda: call(m, 'losses', base['losses'], base)
    if c == 'dispatch_without_variables':
        m = new()
        return m, m.dispatch
    m = fresh(v)
    kw = dict(energy_market_ceiling_price=1000.0, energy_market_floor_price=-100.0, fcas_market_ceiling_price=1000.0, allow_over_constrained_dispatch_re_run=True)
    f = {'elastic_unknown_group': lambda: m.make_constraints_elastic('no_such_group', 100.0),
         'elastic_text_cost': lambda: m.make_constraints_elastic('generic', '100.0'),
         'elastic_list_cost': lambda: m.make_constraints_elastic('generic', [100.0]),
         'elastic_costs_by_set_without_sets': lambda: m.make_constraints_elastic('unit_bid_capacity', frame(base['elastic'])),
         'rerun_without_ceiling': lambda: m.dispatch(**dict(kw, energy_market_ceiling_price=None)),
         'rerun_without_floor': lambda: m.dispatch(**dict(kw, energy_market_floor_price=None)),
         'rerun_without_fcas_ceiling': lambda: m.dispatch(**dict(kw, fcas_market_ceiling_price=None))}[c]
    return m, f


def attempt(f):
    try:
        f()
        return 'none', ''
    except Exception as e:
        return type(e).__name__, str(e)[:120]


CONTROL = {}


def base(v):
    try:
        return outcome(fresh(v))
    except Exception as e:
        return {'st': type(e).__name__ + ': ' + str(e)[:80], 'q': []}


def one(t):
    from nempy import markets
    v = t['v']
    if v not in CONTROL:
        CONTROL[v] = base(v)
    if CONTROL[v]['st'] != 'ok':
        return dict(t, calls=[], before=CONTROL[v], after=CONTROL[v])
    m = None
    calls = []
    for e in t['calls']:
        if e['c'] == 'unit_info':
            err, msg = attempt(lambda: markets.SpotMarket(market_regions=['N', 'S'], unit_info=frame(e['tab'])))
        elif 'tab' not in e:
            m2, f = order_call(e['c'], v)
            err, msg = attempt(f)
            if 'before' not in e['c'] and 'without_variables' not in e['c']:
                m = m2              # the market goes on as it was
        else:
            if m is None:
                m = fresh(v)
            err, msg = attempt(lambda: call(m, e['c'], e['tab'], D['alt'][v]))
            if err == 'none':
                m = None            # accepted: the history goes on in a new market
        calls.append(dict({'tab': []}, **e, err=err, msg=msg))
    return dict(t, calls=calls, before=CONTROL[v], after=outcome(m) if m is not None else CONTROL[v])


D = None


def init(path):
    global D
    sys.path.insert(0, os.environ.get('VP_REPO', '/repo') + '/src')
    import warnings
    warnings.filterwarnings('ignore')
    sys.stdout = open(os.devnull, 'w')
    D = json.load(open(path))


def drive(cases, src, dst):
    from multiprocessing import Pool
    rows = [json.loads(l) for l in open(src)]
    with Pool(8, initializer=init, initargs=(cases,)) as p:
        res = p.map(one, rows, chunksize=4)
    with open(dst, 'w') as f:
        for x in res:
            f.write(json.dumps(x) + '\n')


# ---- the check ----------------------------------------------------------------------------------------------------------
def judge(ctx, rows, cases):
    w = ctx.work
    os.makedirs(w + '/vv', exist_ok=True)
    pipeline.write_nd(w + '/val_s.ndjson', rows)
    pipeline.sh([pipeline.PY, 'validate_part.py', cases, w + '/val_s.ndjson', w + '/val_t.ndjson'], w + '/val.log')
    tr = pipeline.read_nd(w + '/val_t.ndjson')
    _, st, di = pipeline.tlc('ValidateTrace', 'ValidateTrace.cfg', w, {'VP_TRACE': w + '/val_t.ndjson', 'VP_OUT': w + '/vv'})
    ctx.states += di
    ctx.transitions += st - len(rows)
    ctx.traces += len(rows)
    for t in tr:
        if t['before']['st'] != 'ok':
            ctx.fail('validate', 'error', t['id'] + ' sound market', t['before']['st'], dict(t, calls=[]))
            continue
        for c in t['calls']:
            ctx.count('refused' if c['err'] != 'none' else 'accepted')
        for f in json.load(open(w + '/vv/v_%s.json' % t['id']))['fails']:
            e = t['calls'][f['at'] - 1] if f['at'] else {}
            ctx.fail('validate', f['cl'], '%s %s' % (t['id'], f['wh']), 'got %s want %s %s' % (f['got'], f['want'], e.get('msg', '')),
                     dict(t, calls=[e] if e else t['calls']))
    ctx.samples += tr[:1]


def again(r, tab):
    """one more random alteration of a table"""
    tab = json.loads(json.dumps(tab))
    k = r.choice(['drop', 'cell', 'cell', 'dup', 'extra', 'cut', 'swap'])
    n = len(tab[0]['c']) if tab else 0
    if k == 'drop' and len(tab) > 1:
        tab.pop(r.randrange(len(tab)))
    elif k == 'cell' and n:
        c = r.choice(tab)['c']
        c[r.randrange(n)] = r.choice([{'t': 'f', 's': '', 'x': r.choice([-700, 0, 4200])}, {'t': 'i', 's': '', 'x': 3}, {'t': 's', 's': 'QQ', 'x': 0},
                                      {'t': 'nan', 's': '', 'x': 0}, {'t': 'inf', 's': '', 'x': 0}, {'t': 'none', 's': '', 'x': 0}])
    elif k == 'dup' and n:
        i = r.randrange(n)
        for c in tab:
            c['c'].append(dict(c['c'][i]))
    elif k == 'cut' and n > 1:
        i = r.randrange(n)
        for c in tab:
            c['c'].pop(i)
    elif k == 'extra' and n:
        tab.append({'n': r.choice(['extra', 'Unit', '0', 'price']), 'c': [dict(z) for z in tab[0]['c']]})
    elif k == 'swap' and n > 1:
        c = r.choice(tab)['c']
        i, j = r.sample(range(n), 2)
        c[i], c[j] = c[j], c[i]
    return tab


def part(ctx):
    out = ctx.work + '/validate_cases.json'
    ctx.model('MCValidate', 'MCValidate.cfg', env={'VP_OUT': out})
    d = json.load(open(out))
    r = random.Random('validate/%s' % ctx.seed)
    rows = []
    for v in ('plain', 'sides'):
        es = [{'c': c, 'tab': t} for c, ts in sorted(d['cases'][v].items()) for t in ts]
        ctx.notes['enumerated_' + v] = len(es)
        es += [{'c': e['c'], 'tab': again(r, e['tab'])} for e in r.sample(es, min(len(es), ctx.n(300, len(es))))]
        es += [{'c': o} for o in d['order'] for _ in range(ctx.n(2, 6))]
        r.shuffle(es)
        for b in range(0, len(es), 15):
            rows.append({'id': '%s%d' % (v, b // 15), 'v': v, 'calls': es[b:b + 15]})
    judge(ctx, rows, out)


def replay(ctx, rec):
    out = ctx.work + '/validate_cases.json'
    ctx.model('MCValidate', 'MCValidate.cfg', env={'VP_OUT': out})
    t = rec['case']
    judge(ctx, [{'id': t['id'], 'v': t['v'], 'calls': [{k: e[k] for k in (('c', 'tab') if e.get('tab') else ('c',))} for e in t['calls']]}], out)


if __name__ == '__main__':
    drive(*sys.argv[1:4])
