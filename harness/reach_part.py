"""Units enumerated by TLC (MCReach.tla), packed many to a market, dispatched by the real code and compared with
where the specification says the unit ends up."""
import copy, json, os, random, tempfile
import pipeline

DISP = {'ev': 'dispatch', 'ocd': {'on': False, 'ceil': 0, 'floor': 0, 'fceil': 0}, 'chkprice': False, 'summary': False, 'avail': False}
PACK = 60
TOL = 150                                  # 1e-5 MW


def pack(cases, way):
    """one market holding every unit of the cases; units do not interact (unlimited slack in the region)"""
    out, seen = [], set()
    for i, x in enumerate(cases):
        ren = {'U': 'U%d' % i}
        for n, e in enumerate(copy.deepcopy(x['calls'][way])):
            if i == 0:
                out.append(dict(e))
                for k in ('rows', 'info', 'scada', 'fs'):
                    if k in e:
                        out[n][k] = []
            for k in ('rows', 'info', 'scada', 'fs'):
                for r in e.get(k, []):
                    if r.get('u', 'U') == 'U' and 'u' in r:
                        out[n][k].append(dict(r, u=ren['U']))
                    else:
                        key = (n, k, json.dumps(r, sort_keys=True))
                        if key not in seen:
                            seen.add(key)
                            out[n][k].append(r)
    return out + [DISP]


def reported(c, i, out):
    """what the unit does, in the units of Reach.tla times 100000 / unit"""
    q = lambda sv, dt: sum(d['q'] for d in out['disp'] if d['u'] == 'U%d' % i and d['sv'] == sv and dt in (None, d['dt']))
    e = q('energy', 'generator') - q('energy', 'load') if c['dt'] == 'bdu' else q('energy', c['dt'])
    return {'e': e, 'rr': q('raise_reg', None) if c['k'] != 'ereg' else 0, 'lr': q('lower_reg', None) if c['k'] != 'ereg' else 0, 'f': q(c['sv'], None) if c['k'] in ('trap', 'ereg') else 0}


def wanted(x, way):
    c, w = x['c'], x['want']
    if c['k'] in ('ramp', 'fast'):
        return {'e': (w['hi'] if way == 0 else w['lo']) * 10000}
    return {'e': w['e'] * 100000, 'rr': w['rr'] * 100000, 'lr': w['lr'] * 100000, 'f': int(round(w['f'] * 100000 / 60.0))}


def judge(ctx, jobs):
    w = tempfile.mkdtemp(prefix='reach', dir=ctx.work)
    pipeline.write_nd(w + '/s.ndjson', [{'id': 'r%d' % n, 'seed': j['seed'], 'ev': pack(j['cases'], j['way'])} for n, j in enumerate(jobs)])
    pipeline.sh([pipeline.PY, 'driver.py', w + '/s.ndjson', w + '/t.ndjson'], w + '/drive.log')
    again = []
    for j, t in zip(jobs, pipeline.read_nd(w + '/t.ndjson')):
        if 'machinery' in t:
            raise pipeline.Machinery(t['machinery'])
        o = t['ev'][-1]['out']
        if o['st'] != 'ok':
            if len(j['cases']) > 1:        # find the unit that is refused
                h = len(j['cases']) // 2
                again += [dict(j, cases=j['cases'][:h]), dict(j, cases=j['cases'][h:])]
            else:
                ctx.traces += 1
                ctx.fail('reach', 'refused-feasible-market', name(j['cases'][0]), o['msg'], j)
            continue
        ctx.traces += len(j['cases'])
        for i, x in enumerate(j['cases']):
            got, want = reported(x['c'], i, o), wanted(x, j['way'])
            for k in want:
                if abs(got[k] - want[k]) > TOL:
                    ctx.fail('reach', 'reach:' + k, name(x), 'got %s want %s' % (got[k], want[k]), dict(j, cases=[x]))
    if again:
        if len(again) > 400:
            again = again[:400]
        judge(ctx, again)


def name(x):
    return ' '.join('%s=%s' % z for z in sorted(x['c'].items()))


def enumerated(which, quick):
    def part(ctx):
        out = ctx.work + '/reach%s.json' % which
        ctx.model('MCReach', 'MCReach%s%s.cfg' % (which, 'T' if ctx.tier == 'thorough' else 'Q'), env={'VP_OUT': out})
        cs = json.load(open(out))['cases']
        r = random.Random('reach/%s' % ctx.seed)
        cs.sort(key=lambda x: json.dumps(x['c'], sort_keys=True))
        pick = cs if len(cs) <= ctx.n(quick) else r.sample(cs, ctx.n(quick))
        ctx.notes['enumerated_units_' + which] = len(cs)
        ctx.notes['enumerated_units_replayed_' + which] = len(pick)
        groups = {}
        for x in pick:
            groups.setdefault((x['c']['k'], x['c']['iv'], x['c']['run']), []).append(x)
        jobs = []
        for k in sorted(groups):
            g = groups[k]
            r.shuffle(g)
            for way in range(len(g[0]['calls'])):
                jobs += [{'cases': g[a:a + PACK], 'way': way, 'seed': r.randrange(1 << 30)} for a in range(0, len(g), PACK)]
        judge(ctx, jobs)
    return part


def replay(ctx, rec):
    judge(ctx, [rec['case']])
