"""Markets enumerated by TLC over small grids (MCGrid.tla), dispatched by the real market, judged by brute force."""
import json, os, random, tempfile
import pipeline

DISP = {'ev': 'dispatch', 'ocd': {'on': False, 'ceil': 0, 'floor': 0, 'fceil': 0}, 'chkprice': True, 'summary': False, 'avail': False}


def report(kind, out):
    """what a caller reads, in the units of Grid.tla"""
    o = {'st': out['st'], 'msg': out.get('msg', ''), 'obj': 0, 'p': [0, 0]}
    if out['st'] == 'ok':
        o['obj'] = int(round(out['obj']['d'] * 100 + out['obj']['f'] / 1000.0))
        ep = {x['r']: x['p'] for x in out['ep']}
        fp = {(x['r'], x['sv']): x['p'] for x in out['fp']}
        miss = 2000000000
        two = ep.get('S', miss) if kind == 'net' else fp.get(('N', 'raise_6s'), miss)
        o['p'] = [int(round(ep.get('N', miss) / 100.0)), int(round(two / 100.0))]
    return o


def judge(ctx, scs, clauses):
    w = tempfile.mkdtemp(prefix='grid', dir=ctx.work)
    os.mkdir(w + '/v')
    pipeline.write_nd(w + '/s.ndjson', scs)
    pipeline.sh([pipeline.PY, 'driver.py', w + '/s.ndjson', w + '/t.ndjson'], w + '/drive.log')
    tr = pipeline.read_nd(w + '/t.ndjson')
    for t in tr:
        if 'machinery' in t:
            raise pipeline.Machinery(t['machinery'])
        t['o'] = report(t['c']['k'], t['ev'][-1]['out'])
    pipeline.write_nd(w + '/j.ndjson', [{'id': t['id'], 'c': t['c'], 'o': t['o']} for t in tr])
    _, st, di = pipeline.tlc('GridTrace', 'GridTrace.cfg', w, {'VP_TRACE': w + '/j.ndjson', 'VP_OUT': w + '/v'})
    ctx.states += di
    ctx.transitions += st - len(tr)
    ctx.traces += len(tr)
    for t in tr:
        ctx.count('grid_' + t['o']['st'])
        for f in json.load(open(w + '/v/v_%s.json' % t['id']))['fails']:
            if f['cl'] in clauses:
                ctx.fail('grid', f['cl'], '%s %s' % (t['id'], f['wh']), 'got %s want %s' % (f['got'], f['want']), {'scenario': t, 'clauses': list(clauses)})
            else:
                ctx.count('other_clause_' + f['cl'])


def enumerated(kind, quick, clauses):
    def part(ctx):
        out = ctx.work + '/grid.json'
        ctx.model('MCGrid', 'MCGrid%s%s.cfg' % (kind, 'T' if ctx.tier == 'thorough' else 'Q'), env={'VP_OUT': out})
        cs = json.load(open(out))['cases']
        r = random.Random('grid/%s' % ctx.seed)
        pick = cs if len(cs) <= ctx.n(quick) else r.sample(cs, ctx.n(quick))
        ctx.notes['enumerated_grid_markets'] = len(cs)
        ctx.notes['enumerated_grid_markets_replayed'] = len(pick)
        judge(ctx, [{'id': 'g%d' % i, 'seed': r.randrange(1 << 30), 'c': x['c'], 'ev': x['ev'] + [DISP]} for i, x in enumerate(pick)], clauses)
    return part


def replay(ctx, rec):
    s = rec['case']['scenario']
    for e in s['ev']:
        for k in ('out', 'tb'):
            e.pop(k, None)
    s.pop('o', None)
    judge(ctx, [s], rec['case']['clauses'])
