"""Historical network inputs: synthetic NEMDE cases and MMS tables through the real loaders, judged by NetworkTrace.tla."""
import json, os, random, sys, tempfile, shutil
import pipeline
from units_part import case_name, num, init as _init, WHEN, FCAS

NAMES = ['regional_demand', 'interocnnector', 'generic_constraint', 'ramp_rate', 'unit_capacity', 'energy_offer', 'fcas_profile', 'fcas_max_avail', 'fcas_enablement_min',
         'fcas_enablement_max', 'fast_start', 'mnsp_ramp_rate', 'msnp_offer', 'mnsp_capacity', 'uigf', 'voll', 'tiebreak']
PRICE = dict(regional_demand='EnergyDeficitPrice', interocnnector='InterconnectorPrice', generic_constraint='GenericConstraintPrice', ramp_rate='RampRatePrice',
             unit_capacity='CapacityPrice', energy_offer='OfferPrice', fcas_profile='ASProfilePrice', fcas_max_avail='ASMaxAvailPrice',
             fcas_enablement_min='ASEnablementMinPrice', fcas_enablement_max='ASEnablementMaxPrice', fast_start='FastStartPrice', mnsp_ramp_rate='MNSPRampRatePrice',
             msnp_offer='MNSPOfferPrice', mnsp_capacity='MNSPCapacityPrice', uigf='UIGFSurplusPrice', voll='VoLL', tiebreak='TieBreakPrice')
VIOL = dict(regional_demand='TotalAreaGenViolation', interocnnector='TotalInterconnectorViolation', generic_constraint='TotalGenericViolation', ramp_rate='TotalRampRateViolation',
            unit_capacity='TotalUnitMWCapacityViolation', energy_constraint='TotalEnergyConstrViolation', energy_offer='TotalEnergyOfferViolation',
            fcas_profile='TotalASProfileViolation', fast_start='TotalFastStartViolation', mnsp_ramp_rate='TotalMNSPRampRateViolation',
            msnp_offer='TotalMNSPOfferViolation', mnsp_capacity='TotalMNSPCapacityViolation', ugif='TotalUIGFViolation')
# the attributes of the other three services in real cases are not known here
SERVICE = {'ENERGY': 'EnergyPrice', 'RAISE5MIN': 'R5Price', 'RAISE60SEC': 'R60Price', 'LOWER60SEC': 'L60Price', 'RAISE6SEC': 'R6Price', 'LOWER6SEC': 'L6Price',
           'RAISE1SEC': 'R1Price', 'LOWER1SEC': 'L1Price'}


# ---- on the real code ---------------------------------------------------------------------------------------------------
def f(x, k=4):
    x = x / k
    return repr(x) if x != int(x) else str(int(x))


def lone(xs):
    return xs[0] if len(xs) == 1 else xs


def build(t):
    import nemde
    cons, sols = [], []
    for n, c in enumerate(t['cons']):
        lhs = {}
        for kind, tag, idname in (('unit', 'TraderFactor', '@TraderID'), ('region', 'RegionFactor', '@RegionID'), ('inter', 'InterconnectorFactor', '@InterconnectorID')):
            if c[kind]:
                terms = [dict({'@Factor': f(x['n'], 16), idname: x['u']}, **({'@TradeType': x['ty']} if kind != 'inter' else {})) for x in c[kind]]
                lhs[tag] = lone(terms)
        cons.append({'@ConstraintID': c['id'], '@Type': c['type'], '@ViolationPrice': f(c['price']), 'LHSFactorCollection': lhs or None})
        if c['solved']:
            sols.append({'@ConstraintID': c['id'], '@Intervention': '0', '@RHS': f(c['rhs'])})
        if t['intervention']:
            sols.insert(n % (len(sols) + 1), {'@ConstraintID': c['id'], '@Intervention': '1', '@RHS': f(c['rhs'] + 44)})
    inters = []
    for i in t['ics']:
        x = {'@InterconnectorID': i['id'], '@MNSP': '1' if i['type'] == 'MNSP' else '0'}
        if i['type'] == 'MNSP':
            x['MNSPOfferCollection'] = {'MNSPOffer': [{'@RegionID': l['to'], '@MaxAvail': f(l['avail'])} for l in i['links'][::-1]]}
        inters.append(x)
    v0 = {'@' + VIOL[v['id']]: f(v['v']) for v in t['viols']}
    per = {k: v for n, (k, v) in enumerate(sorted(v0.items())) if n % 3}
    case = {'@CaseID': 'x'}
    case.update({k: v for k, v in v0.items() if k not in per or t['both']})
    if t['both']:       # where both say something the period counts
        case.update({k: '77' for k in per})
    sol = lambda d, i: dict(d, **{'@Intervention': i})
    other = lambda d: {k: '99' for k in d}
    ps, cs = sol(per, '0'), sol(case, '0')
    if t['intervention']:
        ps, cs = [sol(other(per), '1'), ps], [cs, sol(other(case), '1')]
        if t['flip']:
            ps.reverse()
    regs = [dict({'@RegionID': r['id'], '@Intervention': '0'}, **{'@' + SERVICE[s['service']]: f(s['v']) for s in t['services'] if s['region'] == r['id']}) for r in t['regions']]
    return nemde.case_file(constraints=cons, constraint_solution=sols, interconnectors=inters, case={'@' + PRICE[p['id']]: f(p['v']) for p in t['prices']},
                           period_solution=ps, case_solution=cs, region_solution=regs)


def database(t):
    import sqlite3
    import pandas as pd
    from nempy.historical_inputs import mms_db
    con = sqlite3.connect(':memory:')
    db = mms_db.DBManager(con)
    tab = {}
    ins = lambda name, **k: tab.setdefault(name, []).append(k)
    others = {x['when']: x for x in t.get('before', []) if x['when'] != t['when']}
    for n, own in enumerate(t['regions']):
        for when, k, r in [(t['when'], 0, own), ('2010/01/01 00:05:00', 8, own), ('2031/01/01 00:05:00', 16, own)] + [(w, 0, x['regions'][n]) for w, x in others.items()]:
            ins('DISPATCHREGIONSUM', SETTLEMENTDATE=when, REGIONID=r['id'], TOTALDEMAND=r['demand'] / 4 + k, DEMANDFORECAST=float(r['forecast'] + k), INITIALSUPPLY=float(r['supply'] + k))
    for n, i in enumerate(t['ics']):
        for w, x in others.items():
            if x['ics'][n]['present']:
                ins('DISPATCHINTERCONNECTORRES', INTERCONNECTORID=i['id'], SETTLEMENTDATE=w, MWFLOW=1.0, MWLOSSES=1.0)
        if i['present']:
            ins('DISPATCHINTERCONNECTORRES', INTERCONNECTORID=i['id'], SETTLEMENTDATE=t['when'], MWFLOW=1.0, MWLOSSES=1.0)
        ins('DISPATCHINTERCONNECTORRES', INTERCONNECTORID=i['id'], SETTLEMENTDATE='2010/01/01 00:05:00', MWFLOW=1.0, MWLOSSES=1.0)
        ins('INTERCONNECTOR', INTERCONNECTORID=i['id'], REGIONFROM=i['from'], REGIONTO=i['to'])
        # what is in force, what was before and what will be
        for when, ver, k in (('2012/07/01 00:00:00', 2, 1), ('2012/07/01 00:00:00', 1, 3), ('2011/07/01 00:00:00', 3, 5), ('2031/01/01 00:00:00', 9, 7))[:2 + 2 * t['decoys']]:
            key = dict(INTERCONNECTORID=i['id'], EFFECTIVEDATE=when, VERSIONNO=ver)
            ins('INTERCONNECTORCONSTRAINT', FROMREGIONLOSSSHARE=i['share'] / 16 * k, LOSSCONSTANT=i['k'] / 64 * k, ICTYPE=i['type'] if k == 1 else 'REGULATED', LOSSFLOWCOEFFICIENT=i['a'] / 512 * k,
                IMPORTLIMIT=i['imp'] / 4 * k, EXPORTLIMIT=i['exp'] / 4 * k, **key)
            for b in i['bps']:
                ins('LOSSMODEL', LOSSSEGMENT=b['seg'], MWBREAKPOINT=b['mw'] / 4 + k - 1, **key)
            for d in i['dc']:
                ins('LOSSFACTORMODEL', REGIONID=d['region'], DEMANDCOEFFICIENT=d['n'] / 1024 * k, **key)
            for l in i['links']:
                ins('MNSP_INTERCONNECTOR', LINKID=l['id'], FROMREGION=l['from'], TOREGION=l['to'], FROM_REGION_TLF=l['ftlf'] / 16 * k, TO_REGION_TLF=l['ttlf'] / 16 * k,
                    LHSFACTOR=float(l['f']), MAXCAPACITY=l['cap'] / 4, **key)
    for name in ('DISPATCHREGIONSUM', 'DISPATCHINTERCONNECTORRES', 'INTERCONNECTOR', 'INTERCONNECTORCONSTRAINT', 'LOSSMODEL', 'LOSSFACTORMODEL', 'MNSP_INTERCONNECTOR'):
        cols = getattr(db, name).table_columns
        pd.DataFrame(tab.get(name, []), columns=cols).to_sql(name, con=con, if_exists='replace', index=False)
    return db


def call(t, c, load, xml, kept):
    from nempy.historical_inputs import demand, interconnectors, constraints
    rec = lambda df: df.to_dict('records')
    K = lambda r, *cols: [r[x] for x in cols]
    n = c['c']

    def made(cls):           # one for all calls, or a new one each time
        if not t.get('keep'):
            return cls(load)
        return kept.setdefault(cls.__name__, None) or kept.update({cls.__name__: cls(load)}) or kept[cls.__name__]
    if n == 'demand':
        c['rows'] = [{'key': K(r, 'region'), 'v': num(r['demand'])} for r in rec(made(demand.DemandData).get_operational_demand())]
    elif n == 'defs':
        c['rows'] = [{'key': K(r, 'interconnector', 'link'), 'from': r['from_region'], 'to': r['to_region'], 'min': num(r['min']), 'max': num(r['max']),
                      'ftlf': num(r['from_region_loss_factor'], 16000), 'ttlf': num(r['to_region_loss_factor'], 16000), 'f': int(r['generic_constraint_factor'])}
                     for r in rec(made(interconnectors.InterconnectorData).get_interconnector_definitions())]
    elif n == 'loss':
        d = made(interconnectors.InterconnectorData)
        if c['again']:
            d.get_interconnector_loss_model()
        fn, bp = d.get_interconnector_loss_model()
        c['rows'] = [{'key': K(r, 'interconnector', 'link'), 'share': num(r['from_region_loss_share'], 16000), 'at': [num(r['loss_function'](x), 1024) for x in c['flows']]} for r in rec(fn)]
        c['points'] = [{'key': [r['interconnector'], r['link'], int(r['loss_segment'])], 'v': num(r['break_point'])} for r in rec(bp)]
    elif n in ('prices', 'violations'):
        d = made(constraints.ConstraintData).get_constraint_violation_prices() if n == 'prices' else xml.get_violations()
        c['rows'] = [{'key': [k], 'v': num(v)} for k, v in d.items()]
    elif n == 'services':
        c['rows'] = [{'key': K(r, 'region', 'service'), 'v': num(r['price'])} for r in rec(xml.get_service_prices())]
    elif n == 'run':
        c['intervention'], c['ocd'] = bool(xml.is_intervention_period()), bool(made(constraints.ConstraintData).is_over_constrained_dispatch_rerun())
    else:
        d = made(constraints.ConstraintData)
        if n in ('rhs', 'rhs_generic'):
            df = d.get_rhs_and_type() if n == 'rhs' else d.get_rhs_and_type_excluding_regional_fcas_constraints()
            c['rows'] = [{'key': K(r, 'set'), 'v': num(r['rhs']), 'type': r['type']} for r in rec(df)]
        elif n == 'unit_lhs':
            c['rows'] = [{'key': K(r, 'set', 'unit', 'service'), 'v': num(r['coefficient'], 16000)} for r in rec(d.get_unit_lhs())]
        elif n == 'region_lhs':
            c['rows'] = [{'key': K(r, 'set', 'region', 'service'), 'v': num(r['coefficient'], 16000)} for r in rec(d.get_region_lhs())]
        elif n == 'inter_lhs':
            c['rows'] = [{'key': [r['set'], r['interconnector'], 'energy'], 'v': num(r['coefficient'], 16000)} for r in rec(d.get_interconnector_lhs())]
        elif n == 'fcas':
            c['rows'] = [{'key': K(r, 'set', 'region', 'service'), 'v': num(r['volume']), 'type': r['type']} for r in rec(d.get_fcas_requirements())]
        elif n == 'costs':
            c['rows'] = [{'key': K(r, 'set'), 'v': num(r['cost'])} for r in rec(d.get_violation_costs())]


def one(t):
    import nemde
    from nempy.historical_inputs import xml_cache, loaders
    d = tempfile.mkdtemp(prefix='network')
    try:
        for x in {x['when']: x for x in t.get('before', []) + [t]}.values():
            name = case_name(x['when'])
            nemde.write(d, name.replace('.loaded', '_OCD.loaded') if x['ocd'] else name, build(x))
        xml = xml_cache.XMLCacheManager(d)
        load = loaders.RawInputsLoader(xml, database(t))
        for x in t.get('before', []):
            try:
                load.set_interval(x['when'])
            except Exception:
                continue
            kept = {}
            for c in x['calls']:
                try:
                    call(x, dict(c), load, xml, kept)
                except Exception:
                    pass
        kept, ready = {}, False
        for c in t['calls']:
            c['err'], c['rows'], c['points'] = 'none', [], []
            try:
                if not ready:
                    load.set_interval(t['when'])
                    ready = True
                call(t, c, load, xml, kept)
            except Exception as e:
                c['err'] = type(e).__name__
                c['msg'] = str(e)[:100]
                if os.environ.get('VP_TB'):
                    import traceback
                    c['msg'] = " | ".join(l.strip() for l in traceback.format_exc().split("\n") if "nempy" in l or "Error" in l)[-500:]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return t


def drive(src, dst):
    from multiprocessing import Pool
    rows = [json.loads(l) for l in open(src)]
    with Pool(8, initializer=_init) as p:
        res = p.map(one, rows, chunksize=2)
    with open(dst, 'w') as g:
        for x in res:
            g.write(json.dumps({k: v for k, v in x.items() if k != 'before'}) + '\n')


# ---- the check ----------------------------------------------------------------------------------------------------------
def judge(ctx, rows):
    w = ctx.work
    os.makedirs(w + '/nv', exist_ok=True)
    pipeline.write_nd(w + '/net_s.ndjson', rows)
    pipeline.sh([pipeline.PY, 'network_part.py', w + '/net_s.ndjson', w + '/net_t.ndjson'], w + '/net.log')
    _, st, di = pipeline.tlc('NetworkTrace', 'NetworkTrace.cfg', w, {'VP_TRACE': w + '/net_t.ndjson', 'VP_OUT': w + '/nv'})
    ctx.states += di
    ctx.transitions += st - len(rows)
    ctx.traces += len(rows)
    tr = pipeline.read_nd(w + '/net_t.ndjson')
    before = {t['id']: t['before'] for t in rows if 'before' in t}
    ctx.count('loaders_moved', len(before))
    for t in tr:
        v = json.load(open(w + '/nv/v_%s.json' % t['id']))
        ctx.count('tables_judged', len(t['calls']))
        ctx.count('links', v['links'])
        ctx.count('constraints_in_force', v['active'])
        for x in v['fails']:
            c = t['calls'][x['at'] - 1]
            ctx.fail('network', x['cl'], '%s %s' % (t['id'], x['wh']), 'got %s want %s %s' % (x['got'][:300], x['want'][:200], c.get('msg', '')), dict(t, calls=t['calls'][:x['at']], **({'before': before[t['id']]} if t['id'] in before else {})))
    ctx.samples.append({'when': tr[-1]['when'], 'ics': tr[-1]['ics'][:1], 'cons': tr[-1]['cons'][:2], 'calls': [dict(c, rows=c['rows'][:1], points=c['points'][:1]) for c in tr[-1]['calls'][:3]]})


CALLS = ['demand', 'defs', 'loss', 'rhs', 'rhs_generic', 'unit_lhs', 'region_lhs', 'inter_lhs', 'fcas', 'costs', 'prices', 'violations', 'services', 'run']
REGIONS = ['NSW1', 'VIC1', 'QLD1', 'SA1', 'TAS1']


def case(r, id_):
    when = r.choice(sorted(WHEN))
    regs = [{'id': x, 'demand': r.randint(-200, 40000), 'supply': r.randint(-100, 2400), 'forecast': r.randint(-200, 200)} for x in r.sample(REGIONS, r.randint(2, 5))]
    ids = [x['id'] for x in regs]
    ics = []
    for n in range(r.randint(2, 5)):
        a, b = r.sample(ids, 2)
        mnsp = r.random() < .35
        i = {'id': 'T-V-MNSP1' if mnsp and n == 0 else 'I%d' % n, 'from': a, 'to': b, 'imp': r.randint(0, 2000), 'exp': r.randint(0, 2000), 'share': r.randint(0, 16), 'k': r.randint(40, 80),
             'a': r.choice([0, 1, 2, 3]), 'type': 'MNSP' if mnsp else 'REGULATED', 'present': r.random() < .9, 'dc': [], 'links': []}
        i['dc'] = [{'region': x, 'n': r.randint(-8, 8)} for x in r.sample(REGIONS, r.randint(0, 3))]
        i['bps'] = [{'seg': j + 1, 'mw': x} for j, x in enumerate(sorted(r.sample(range(-2000, 2000), r.randint(2, 9))))]
        r.shuffle(i['bps'])
        if mnsp:
            i['links'] = [{'id': 'L%dA' % n, 'from': a, 'to': b, 'f': 1}, {'id': 'L%dB' % n, 'from': b, 'to': a, 'f': -1}]
            for l in i['links']:
                l.update(ftlf=r.randint(12, 20), ttlf=r.randint(12, 20), cap=r.randint(0, 2000), avail=r.randint(0, 2000))
            if r.random() < .5:
                i['links'].reverse()
        ics.append(i)
    cons = []
    for n in range(r.randint(2, 9)):
        terms = lambda xs, tys, k: [{'u': u, 'ty': ty, 'n': r.choice([16, -16, r.randint(-40, 40)])} for u, ty in r.sample([(u, ty) for u in xs for ty in tys], k)]
        kind = r.random()
        c = {'id': 'C%d' % n, 'type': r.choice(['LE', 'GE', 'EQ']), 'rhs': r.randint(-4000, 4000), 'solved': r.random() < .9, 'price': r.randint(0, 40000), 'unit': [], 'region': [], 'inter': []}
        if kind < .35:
            c['region'] = terms(ids, r.sample(FCAS, r.randint(1, 2)), r.randint(1, 2))
        elif kind < .9:
            c['unit'] = terms(['U%d' % j for j in range(6)], ['ENOF', 'R6SE', 'L5RE', 'BDOF'] if r.random() < .5 else ['ENOF'], r.choice([0, 1, 1, 2, 4]))
            if len({(x['u'], x['ty'] in ('ENOF', 'BDOF') or x['ty']) for x in c['unit']}) < len(c['unit']):
                c['unit'] = c['unit'][:1]
            c['inter'] = terms([i['id'] for i in ics], ['ENOF'], r.choice([0, 0, 1, 2]))
        if kind > .8 and r.random() < .5:
            c['region'] = terms(ids, ['R60S'], 1)
        cons.append(c)
    for c in cons[:2]:          # a case with a single constraint is not a case
        c['solved'] = True
    iv = r.random() < .3
    t = {'id': id_, 'when': when, 'regions': regs, 'ics': ics, 'cons': cons, 'intervention': iv, 'ocd': r.random() < .3, 'flip': r.random() < .5, 'decoys': r.randint(0, 1), 'both': r.random() < .5,
         'prices': [{'id': x, 'v': r.randint(1, 400000)} for x in NAMES], 'viols': [{'id': x, 'v': r.choice([0, 0, r.randint(1, 4000)])} for x in VIOL],
         'services': [] if iv else [{'region': x, 'service': s, 'v': r.randint(-4000, 60000)} for x in ids for s in SERVICE], 'calls': []}
    for c in r.sample(CALLS, len(CALLS)) + r.sample(CALLS, 2):
        c = {'c': c}
        if c['c'] == 'services' and iv:
            continue
        if c['c'] == 'loss':
            c['flows'], c['again'] = [r.randint(-500, 500) for _ in range(4)] + [0], r.random() < .5
        t['calls'].append(c)
    return t


def moved(r, t):
    """the loader was elsewhere before: at another interval of the same network"""
    a = case(r, '')
    while a['when'] == t['when']:
        a = case(r, '')
    a['regions'] = [{'id': x['id'], 'demand': r.randint(-200, 40000), 'supply': r.randint(-100, 2400), 'forecast': r.randint(-200, 200)} for x in t['regions']]
    a['ics'] = [dict(i, present=r.random() < .8, links=[dict(l, avail=r.randint(0, 2000)) for l in i['links']]) for i in t['ics']]
    ids, was = [x['id'] for x in t['regions']], {}
    for c in a['cons']:          # its constraints and prices are about the same regions and interconnectors
        for x in c['region']:
            x['u'] = r.choice(ids)
        c['region'] = list({(x['u'], x['ty']): x for x in c['region']}.values())
        for x in c['inter']:
            x['u'] = r.choice(t['ics'])['id']
        c['inter'] = list({x['u']: x for x in c['inter']}.values())
    a['services'] = [] if a['intervention'] else [{'region': x, 'service': s, 'v': r.randint(-4000, 60000)} for x in ids for s in SERVICE]
    t['before'] = [a]
    if r.random() < .5:
        t['before'].insert(0, {k: v for k, v in t.items() if k != 'before'})
    return t


def part(ctx):
    r = random.Random('network/%s' % ctx.seed)
    ts = [dict(case(r, 'n%d' % i), keep=r.random() < .5) for i in range(ctx.n(300))]
    judge(ctx, [moved(r, t) if r.random() < .3 else t for t in ts])


def replay(ctx, rec):
    judge(ctx, [rec['case']])


if __name__ == '__main__':
    drive(*sys.argv[1:3])
