"""Right hand sides: equations enumerated by MCRhs.tla and random ones, evaluated by the real calculator, judged by RhsTrace.tla."""
import json, os, random, re, sys, tempfile, shutil
import pipeline

SCADA = ['A', 'S', 'R', 'I', 'W']


# ---- on the real code (under /opt/venv) ---------------------------------------------------------------------------------
def flatten(terms, group=None, ids=None):
    import nemde
    ids = ids if ids is not None else [0]
    out = []
    for t in terms:
        ids[0] += 1
        x = {'@TermID': str(ids[0]), '@SpdID': t['id'], '@SpdType': t['ty'], '@Multiplier': nemde.num(t['m']), '@Default': nemde.num(t['df'])}
        if t['op']:
            x['@Operation'] = t['op']
        if group:
            x['@GroupTerm'] = group
        if t['ty'] == 'G':
            mem = flatten(t['body'], x['@TermID'], ids)
            out += mem + [x] if t['lay'] == 'after' else [x] + mem
        else:
            out.append(x)
    return out


def build(t):
    import nemde
    by = {}
    for d in t['data']:
        by.setdefault(d['ty'], []).append(d)
    scada = []
    for ty in SCADA:
        good, bad = [], []
        for i, d in enumerate(by.get(ty, [])):
            for j, v in enumerate(d['v']):
                (bad if (len(d['id']) + i + j) % 3 == 2 else good).append({'@SpdID': d['id'], '@Value': nemde.num(v), '@EMS_ID': 'E%d' % j})
        if not good:
            good = [{'@SpdID': 'FILLER', '@Value': '77'}]
        e = {'@SpdType': ty, 'ScadaValuesCollection': {'ScadaValues': good if len(good) > 1 else good[0]}}
        if bad:
            e['BadScadaValuesCollection'] = {'ScadaValues': bad if len(bad) > 1 else bad[0]}
        scada.append(e)
    one = lambda d: nemde.num(d['v'][0])
    links = sorted({d['id'] for d in by.get('M', []) + by.get('N', [])})
    val = {(d['ty'], d['id']): one(d) for d in t['data'] if len(d['v']) == 1}
    inter = [{'@InterconnectorID': 'REG', '@MNSP': '0', '@FromRegion': 'V', '@ToRegion': 'N'}]
    for i, l in enumerate(links):
        offers = [{'@RegionID': 'V', '@MaxAvail': val.get(('M', l), '0')}, {'@RegionID': 'T', '@MaxAvail': val.get(('N', l), '0')}]
        inter.append({'@InterconnectorID': l, '@MNSP': '1', '@FromRegion': 'V', '@ToRegion': 'T',
                      'MNSPOfferCollection': {'MNSPOffer': offers if i % 2 else offers[::-1]}})
    eq = lambda terms: {'RHSTermCollection': {'RHSTerm': (lambda z: z if len(z) > 1 else z[0])(flatten(terms))}}
    cons = [dict({'@ConstraintID': e['id']}, **eq(e['terms'])) for e in t['eqs']] + [{'@ConstraintID': 'NO_EQUATION'}, {'@ConstraintID': 'NO_EQUATION_2'}]
    return nemde.case_file(
        traders=[nemde.trader(d['id'], one(d)) for d in by.get('T', [])] + [nemde.trader('FILLER', 77), nemde.trader('FILLER2', 78)],
        entered=[{'@SpdID': d['id'], '@Value': one(d)} for d in by.get('E', [])] + [{'@SpdID': 'FILLER', '@Value': '77'}, {'@SpdID': 'F2', '@Value': '7'}],
        interconnectors=inter, scada=scada, constraints=cons,
        equations=[dict({'@EquationID': k}, **eq(v)) for k, v in t['fns'].items()] + [{'@EquationID': 'EMPTY'}, {'@EquationID': 'EMPTY2'}],
        constraint_solution=[{'@ConstraintID': e['id'], '@Intervention': '0', '@RHS': nemde.num(e['nemde'])} for e in t['eqs'] if 'nemde' in e]
        + [{'@ConstraintID': e['id'], '@Intervention': '1', '@RHS': '-12345'} for e in t['eqs'] if 'nemde' in e]
        + [{'@ConstraintID': 'NO_EQUATION', '@Intervention': '0', '@RHS': '1'}, {'@ConstraintID': 'NO_EQUATION_2', '@Intervention': '0', '@RHS': '1'}])


def frac(x):
    """a float as a dyadic fraction"""
    from fractions import Fraction
    try:
        f = Fraction(round(float(x) * 65536), 65536)
        if abs(float(f) - float(x)) > 1e-9 * max(1.0, abs(float(x))) or abs(f.numerator) > 2000000000:
            return [0, 0]
        return [f.numerator, f.denominator]
    except Exception:
        return [0, 0]


class Dead:
    def __init__(self, e):
        self.e = e

    def __getattr__(self, name):
        raise self.e


def one(t):
    import nemde
    from nempy.historical_inputs import xml_cache, rhs_calculator
    d = tempfile.mkdtemp(prefix='rhs')
    try:
        nemde.write(d, 'NEMSPDOutputs_2020010100100.loaded', build(t))
        m = xml_cache.XMLCacheManager(d)
        try:
            m.load_interval('2020/01/01 04:05:00')
            calcs = [rhs_calculator.RHSCalc(m) for _ in range(t['calcs'])]
        except Exception as e:          # a file that cannot be opened answers no call
            calcs = [Dead(e)] * t['calcs']
        for c in t['calls']:
            r = calcs[c['calc'] - 1]
            if c['c'] == 'compute':
                c['got'] = []
                if c['many']:
                    try:
                        df = r.compute_constraint_rhs(list(c['ids']))
                        got = list(zip(df['set'], df['rhs']))
                        if [g[0] for g in got] != c['ids']:
                            raise KeyError('sets ' + str([g[0] for g in got]))
                        c['got'] = [dict(zip('nd', frac(x)), st='ok', x=repr(float(x))) for _, x in got]
                    except Exception as e:
                        c['got'] = [{'st': type(e).__name__, 'n': 0, 'd': 0, 'x': str(e)[:90]} for _ in c['ids']]
                else:
                    for i in c['ids']:
                        try:
                            x = r.compute_constraint_rhs(i)
                            c['got'].append(dict(zip('nd', frac(x)), st='ok', x=repr(float(x))))
                        except Exception as e:
                            c['got'].append({'st': type(e).__name__, 'n': 0, 'd': 0, 'x': str(e)[:90]})
                continue
            c['err'] = 'none'
            try:
                if c['c'] == 'update':
                    r.update_spd_id_value(c['id'], c['ty'], nemde.num(c['v']))
                elif c['c'] == 'depends':
                    c['got'] = []
                    c['got'] = list(r.get_rhs_constraint_equations_that_depend_value(c['id'], c['ty']))
                elif c['c'] == 'nemde':
                    c['got'] = [0, 0]
                    c['got'] = frac(r.get_nemde_rhs(c['id']))
            except Exception as e:
                c['err'] = type(e).__name__
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return t


def init():
    sys.path.insert(0, os.environ.get('VP_REPO', '/repo') + '/src')
    import warnings
    warnings.filterwarnings('ignore')
    sys.stdout = open(os.devnull, 'w')


def drive(src, dst):
    from multiprocessing import Pool
    rows = [json.loads(l) for l in open(src)]
    with Pool(8, initializer=init) as p:
        res = p.map(one, rows, chunksize=1)
    with open(dst, 'w') as f:
        for x in res:
            f.write(json.dumps(x) + '\n')


# ---- the check ----------------------------------------------------------------------------------------------------------
def judge(ctx, rows, tag='rhs'):
    w = ctx.work
    os.makedirs(w + '/rv', exist_ok=True)
    pipeline.write_nd(w + '/rhs_s.ndjson', rows)
    pipeline.sh([pipeline.PY, 'rhs_part.py', w + '/rhs_s.ndjson', w + '/rhs_t.ndjson'], w + '/rhs.log')
    tr = pipeline.read_nd(w + '/rhs_t.ndjson')
    _, st, di = pipeline.tlc('RhsTrace', 'RhsTrace.cfg', w, {'VP_TRACE': w + '/rhs_t.ndjson', 'VP_OUT': w + '/rv'})
    ctx.states += di
    ctx.transitions += st - len(rows)
    ctx.traces += len(rows)
    for t in tr:
        v = json.load(open(w + '/rv/v_%s.json' % t['id']))
        ctx.count('calls_judged', v['n'])
        ctx.count('calls_decided', v['dec'])
        for f in v['fails']:
            c = t['calls'][f['at'] - 1]
            case = dict(t, calls=t['calls'][:f['at']])
            eq = next((e['terms'] for e in t['eqs'] if e['id'] == f['wh']), None)
            if t['calcs'] == 1 and len(t['eqs']) > 20 and eq is not None:
                i = c['ids'].index(f['wh'])
                case = dict(t, eqs=[e for e in t['eqs'] if e['id'] == f['wh']] + [x for x in t['eqs'] if x['id'] != f['wh']][:1],
                            calls=[dict(c, ids=[f['wh']], got=[c['got'][i]])])
            ctx.fail('rhs', f['cl'], '%s %s' % (t['id'], f['wh']), 'got %s want %s %s' % (f['got'], f['want'], short(eq) if eq else ''), case)
    if tr:
        ctx.samples.append(dict(tr[-1], eqs=tr[-1]['eqs'][:2], calls=[dict(c, ids=c['ids'][:2], got=c['got'][:2]) if c['c'] == 'compute' else c for c in tr[-1]['calls'][:6]]))


def short(eq):
    return ' '.join('%s%s%s*%s%s' % (t['ty'], t['id'] and ':' + t['id'], t['op'] and '.' + t['op'], t['m'][0] / t['m'][1],
                                     '(' + t['lay'] + ' ' + short(t['body']) + ')' if t['ty'] == 'G' else '') for t in eq)


def chunks(eqs, base, name, size=400):
    for b in range(0, len(eqs), size):
        part = [{'id': 'Q%d' % (b + i), 'terms': e} for i, e in enumerate(eqs[b:b + size])]
        if len(part) == 1:
            part.append(dict(part[0], id='Q_again'))
        ids = [e['id'] for e in part]
        yield {'id': '%s%d' % (name, b // size), 'calcs': 1, 'data': base['data'], 'fns': base['fns'], 'eqs': part,
               'calls': [{'c': 'compute', 'calc': 1, 'many': False, 'ids': ids}]}


def enumerated(ctx):
    out = ctx.work + '/rhs_menu.json'
    ctx.model('MCRhs', 'MCRhs2.cfg', env={'VP_OUT': out}, extra=('-dump', ctx.work + '/rhs'))
    if ctx.tier == 'thorough':
        ctx.model('MCRhs', 'MCRhs3.cfg')
    base = json.load(open(out))
    hs = [[int(x) for x in re.findall(r'\d+', l)] for l in open(ctx.work + '/rhs.dump') if l.startswith('/\\ h = ')]
    os.remove(ctx.work + '/rhs.dump')
    eqs = [[base['menu'][k - 1] for k in h] for h in hs if h]
    ctx.notes['enumerated_equations'] = len(eqs)
    r = random.Random('rhs/%s' % ctx.seed)
    for _ in range(ctx.n(4000, 60000)):
        eqs.append(random_eq(r, base, base['menu']))
    judge(ctx, list(chunks(eqs, base, 'e')))


def deep(ctx):
    out = ctx.work + '/rhs_deep.json'
    ctx.model('MCRhsDeep', 'MCRhsDeep%d.cfg' % ctx.n(2, 3), env={'VP_OUT': out}, extra=('-dump', ctx.work + '/rhsdeep'))
    base = json.load(open(out))
    base['fns'] = {}
    eqs, cur = [], {}
    for l in open(ctx.work + '/rhsdeep.dump'):
        if l.startswith('State') and cur:
            eqs.append(cur)
            cur = {}
        m = re.match(r'/\\ (\w) = (.*)', l)
        if m and m.group(1) in 'khn':
            cur[m.group(1)] = [int(x) for x in re.findall(r'\d+', m.group(2))]
    eqs.append(cur)
    os.remove(ctx.work + '/rhsdeep.dump')
    eqs = [base['pushes'][:c['k'][0]] + [base['menu'][i - 1] for i in c['h']] + [base['last']] * (c['n'][0] - 1) for c in eqs]
    ctx.notes['deep_equations'] = len(eqs)
    r = random.Random('rhs-deep/%s' % ctx.seed)
    for _ in range(ctx.n(1500, 20000)):
        k = r.randint(3, 7)
        eq = [term(r, 'C', 'K', 'PUSH') for _ in range(k)]
        n = k + 1
        for _ in range(r.randint(1, 5)):
            op = r.choice(['EXCH', 'RSD', 'RSU', 'DUP', 'RSD', 'RSU'] + TWO)
            eq.append(term(r, 'U', '', op))
            n += (op == 'DUP') - (op in TWO)
            if n < 3:
                break
        eqs.append(eq + [dict(base['last'], op=r.choice(['ADD', 'ADD', 'SUB', 'MAX'])) for _ in range(n - 1)])
    judge(ctx, list(chunks(eqs, base, 'd')))


def all_histories(ctx):
    rows = []
    for cfg in ctx.n(['A', 'B'], ['A', 'B', 'T']):
        out = ctx.work + '/rhs_hist.json'
        ctx.model('MCRhsHist', 'MCRhsHist%s.cfg' % cfg, env={'VP_OUT': out}, extra=('-dump', ctx.work + '/rhshist'))
        b = json.load(open(out))
        hs = [[int(x) for x in re.findall(r'\d+', l)] for l in open(ctx.work + '/rhshist.dump') if l.startswith('/\\ h = ')]
        os.remove(ctx.work + '/rhshist.dump')
        ids = [e['id'] for e in b['eqs']]
        for i, h in enumerate(hs):
            if cfg == 'A' and len(h) < 3:
                continue
            calls = [dict(b['menu'][k - 1]) for k in h]
            calls += [{'c': 'compute', 'calc': c, 'many': i % 2 == 1, 'ids': ids} for c in range(1, b['calcs'] + 1)]
            if i % 16 == 0:
                calls += [{'c': 'depends', 'calc': 1, 'ty': q[0], 'id': q[1]} for q in b['keys'] if q[0] != 'C']
            rows.append({'id': 'a%s%d' % (cfg, i), 'calcs': b['calcs'], 'data': b['data'], 'fns': b['fns'], 'eqs': b['eqs'], 'calls': calls})
        ctx.notes['enumerated_histories_' + cfg] = len(hs)
    judge(ctx, rows)


TWO = ['ADD', 'SUB', 'MUL', 'DIV', 'MAX', 'MIN']
ONE = ['STEP', 'POW2', 'POW3', 'SQRT', 'ABS', 'NEG']


def term(r, ty, id_, op):
    m = r.choice([[1, 1], [1, 1], [1, 1], [2, 1], [-1, 1], [1, 2], [-3, 1], [4, 1], [3, 4]])
    return {'ty': ty, 'id': id_, 'op': op, 'm': m, 'df': r.choice([[0, 1], [3, 2], [-2, 1]]), 'body': [], 'lay': ''}


def random_eq(r, base, menu, deep=0, xs=True):
    """mostly well formed: the height of the stack is watched"""
    n = r.randint(3, 9) if deep == 0 else r.randint(1, 4)
    out, h = [], 1
    data = base['data']
    while len(out) < n:
        k = r.random()
        d = r.choice(data)
        if k < .30:
            out.append(term(r, d['ty'], d['id'], r.choice(['', '', '', 'PUSH'] + TWO + ONE)))
            h += out[-1]['op'] == 'PUSH'
        elif k < .38:
            out.append(term(r, 'C', 'K', r.choice(['', '', 'PUSH', 'PUSH'] + TWO + ONE[1:])))
            h += out[-1]['op'] == 'PUSH'
        elif k < .50 and h > 1:
            out.append(term(r, 'U', '', r.choice(TWO)))
            h -= 1
        elif k < .62 and h > 1:
            out.append(term(r, 'U', '', r.choice(['EXCH', 'RSD', 'RSU', 'DUP'])))
            h += out[-1]['op'] == 'DUP'
        elif k < .70 and h > 1:
            if h > 2 and r.random() < .5:
                out.append(term(r, 'U', '', 'POP'))
                h -= 1
            else:
                out.append(term(r, d['ty'], d['id'], 'POP'))
            if r.random() < .8:
                out.append(term(r, 'U', '', 'EXLEZ'))
        elif k < .78:
            out.append(term(r, 'U', '', r.choice([''] + ONE + ['DUP'])))
            h += out[-1]['op'] == 'DUP'
        elif k < .84 and xs:
            out.append(term(r, 'X', r.choice(sorted(base['fns'])), r.choice(['', '', 'PUSH'] + TWO + ONE)))
            h += out[-1]['op'] == 'PUSH'
        elif k < .97 and deep < 2:
            g = term(r, 'G', 'GRP', r.choice(['', '', 'PUSH'] + TWO + ONE))
            g['lay'] = 'after' if deep == 0 and r.random() < .5 else 'before'
            g['body'] = random_eq(r, base, menu, 2 if g['lay'] == 'after' else deep + 1, xs)
            if deep == 1 and len(out) == n - 1:      # a group inside a group is not put last: see DESIGN.md
                continue
            out.append(g)
            h += g['op'] == 'PUSH'
        elif k >= .97 and deep == 0:
            out.append(term(r, 'U', '', r.choice(TWO + ['EXCH', 'RSD', 'RSU', 'EXLEZ'])) if r.random() < .7 else term(r, 'B', 'BR', ''))
    return out


def histories(ctx):
    r = random.Random('rhs-hist/%s' % ctx.seed)
    rows = []
    for i in range(ctx.n(250, 4000)):
        val = lambda: [r.choice([-8, -3, -1, 0, 0, 1, 2, 5, 9, 16]), r.choice([1, 1, 2])]
        data = [{'ty': ty, 'id': '%s%d' % (r.choice(['P', 'Q']) if r.random() < .3 else ty, j), 'v': [val() for _ in range(r.choice([1, 1, 1, 2, 3]) if ty in SCADA else 1)]}
                for ty in SCADA + ['T', 'E', 'M', 'N'] for j in range(r.randint(1, 2))]
        data = list({(d['ty'], d['id']): d for d in data}.values())
        # every market link has an availability at both ends
        links = {d['id'] for d in data if d['ty'] in 'MN'}
        for ty in 'MN':
            data += [{'ty': ty, 'id': l, 'v': [val()]} for l in sorted(links) if (ty, l) not in {(d['ty'], d['id']) for d in data}]
        base = {'data': data, 'fns': {}}
        fns = {'X%d' % j: random_eq(r, base, None, 1, False) for j in range(r.randint(1, 3))}
        base['fns'] = fns
        eqs = [{'id': 'Q%d' % j, 'terms': random_eq(r, base, None, r.choice([0, 1, 1])), 'nemde': val()} for j in range(r.randint(2, 5))]
        calcs = r.choice([1, 1, 2])
        calls = []
        ids = [e['id'] for e in eqs]
        for _ in range(r.randint(3, 12)):
            c = {'calc': r.randint(1, calcs)}
            k = r.random()
            d = r.choice(data)
            ty, id_ = (d['ty'], d['id']) if r.random() < .85 else r.choice([('C', 'K'), ('X', 'X0'), ('T', 'NONE'), ('E', 'NONE'), ('M', 'NONE'), ('U', ''), ('T', d['id'])])
            if k < .45:
                c.update(c='update', ty=ty, id=id_, v=val())
            elif k < .6:
                c.update(c='depends', ty=ty, id=id_)
            elif k < .65:
                e = r.choice(eqs)
                c.update(c='nemde', id=e['id'], want=e['nemde'])
            else:
                c.update(c='compute', many=r.random() < .3, ids=[r.choice(ids) for _ in range(r.randint(1, 4))])
                if c['many']:
                    c['ids'] = sorted(set(c['ids']))
            calls.append(c)
        calls.append({'calc': r.randint(1, calcs), 'c': 'compute', 'many': False, 'ids': ids})
        for e in eqs:      # reduced
            g = __import__('fractions').Fraction(*e['nemde'])
            e['nemde'] = [g.numerator, g.denominator]
        for c in calls:
            if c['c'] == 'nemde':
                g = __import__('fractions').Fraction(*c['want'])
                c['want'] = [g.numerator, g.denominator]
        rows.append({'id': 'h%d' % i, 'calcs': calcs, 'data': data, 'fns': fns, 'eqs': eqs, 'calls': calls})
    judge(ctx, rows)


def replay(ctx, rec):
    judge(ctx, [rec['case']])


if __name__ == '__main__':
    drive(*sys.argv[1:3])
