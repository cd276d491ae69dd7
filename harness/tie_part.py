"""Tie breaking: enumerated and random cases on the real market, judged by TieBreak.tla."""
import json, os, random, sys
import pipeline

Q = 100000


def rand_case(r):
    regs = ['N', 'S'][:r.choice([1, 1, 2])]
    ladder = r.sample([16, 20, 24, 40, 60, 80, 100], 3)
    units, dem = [], []
    near = r.random() < .4          # prices that almost tie, in eighths of a dollar
    if near:
        ladder = [8 * ladder[0], 8 * ladder[0] + r.choice([2, 4]), 8 * ladder[0] + r.choice([6, 800])]
    for g in regs:
        n = r.randint(2, 5)
        for k in range(n):
            lf = r.choice([100, 50] if near else [100, 100, 100, 125, 50])
            nb = r.randint(1, 3)
            pr = sorted(r.choice(ladder) for _ in range(nb))
            if r.random() < 0.7:
                pr = sorted(set(pr))
            units.append({'u': '%s%d' % (g, k), 'r': g, 'dt': 'load' if k > 1 and r.random() < 0.25 else 'generator', 'lf': lf,
                          'b': [r.choice([5, 10, 20, 30, 50, 7]) for _ in pr], 'p': [p * lf // 100 for p in pr]})
        sup = sum(sum(u['b']) for u in units if u['r'] == g and u['dt'] == 'generator')
        dem.append({'r': g, 'd': r.randint(1, max(1, sup - 1))})
    r.shuffle(units)
    return {'units': units, 'dem': dem, 'scale': 8 if near else 1}


def events(c, r):
    us = c['units']
    new = {'ev': 'new', 'iv': 5, 'regions': sorted({d['r'] for d in c['dem']}), 'nodt': all(u['dt'] == 'generator' for u in us) and r.random() < .5,
           'shuffle': r.random() < .7, 'nolf': all(u['lf'] == 100 for u in us) and r.random() < .5, 'noserv': r.random() < .5,
           'info': [{'u': u['u'], 'r': u['r'], 'dt': u['dt'], 'lf': u['lf'] * 10000} for u in us]}
    vol = {'ev': 'vol', 'rows': [{'u': u['u'], 'sv': 'energy', 'dt': u['dt'], 'b': [b * Q for b in u['b']]} for u in us]}
    prc = {'ev': 'price', 'rows': [{'u': u['u'], 'sv': 'energy', 'dt': u['dt'], 'p': [p * Q // c.get('scale', 1) for p in u['p']]} for u in us]}
    dem = {'ev': 'demand', 'rows': [{'r': d['r'], 'd': d['d'] * Q} for d in c['dem']], 'el': {'k': 'none'}}
    tie = {'ev': 'tie', 'cost': r.choice([50, 1, 1e-1, 1e-2, 1e-3]) * Q}
    ev = [new, vol, prc, tie, dem] if r.random() < .5 else [new, vol, prc, dem, tie]
    if r.random() < .2:
        ev.append(dict(tie))
    return ev + [{'ev': 'dispatch', 'ocd': {'on': False}}]


def drive(src, dst):
    import driver
    from multiprocessing import Pool
    rows = [json.loads(l) for l in open(src)]
    with Pool(8, initializer=driver.worker_init) as p:
        res = p.map(one, rows, chunksize=4)
    with open(dst, 'w') as f:
        for x in res:
            f.write(json.dumps(x) + '\n')


def one(t):
    import driver
    s = driver.run({'id': t['id'], 'seed': t['seed'], 'ev': events(t['c'], random.Random(t['seed']))})[0]
    out = s['ev'][-1]['out']
    t = dict(t, st=out['st'], msg=out['msg'], q=[])
    if out['st'] == 'ok':
        d = {x['u']: x['q'] // 100 for x in out['disp']}
        t['q'] = [d.get(u['u'], -1) for u in t['c']['units']]
    return t


def judge(ctx, rows):
    w = ctx.work
    os.makedirs(w + '/tv', exist_ok=True)
    pipeline.write_nd(w + '/tie_s.ndjson', rows)
    pipeline.sh([pipeline.PY, 'tie_part.py', w + '/tie_s.ndjson', w + '/tie_t.ndjson'], w + '/tie.log')
    tr = pipeline.read_nd(w + '/tie_t.ndjson')
    _, st, di = pipeline.tlc('TieTrace', 'TieTrace.cfg', w, {'VP_TRACE': w + '/tie_t.ndjson', 'VP_OUT': w + '/tv'})
    ctx.states += di
    ctx.transitions += st - len(rows)
    ctx.traces += len(rows)
    for t in tr:
        for f in json.load(open(w + '/tv/v_%s.json' % t['id']))['fails']:
            ctx.fail('tie', f['cl'], t['id'] + ' ' + f['wh'], 'got %s want %s (1/1000 MW)' % (f['got'], f['want']), t)
    ctx.samples += tr[:2]


def feasible(c):
    for d in c['dem']:
        ld = sum(sum(u['b']) for u in c['units'] if u['r'] == d['r'] and u['dt'] == 'load')
        gen = sum(sum(u['b']) for u in c['units'] if u['r'] == d['r'] and u['dt'] == 'generator')
        if not (0 <= d['d'] + ld and d['d'] <= gen):
            return False
    return True


def part(ctx):
    out = ctx.work + '/tie_cases.json'
    ctx.model('MCTie', 'MCTie.cfg', env={'VP_OUT': out})
    cs = json.load(open(out))['cases']
    r = random.Random('tie/%s' % ctx.seed)
    ctx.notes['enumerated_cases'] = len(cs)
    if ctx.tier == 'quick':
        cs = r.sample(cs, min(200, len(cs)))
    rows = [{'id': 'e%d' % k, 'seed': r.randrange(1 << 30), 'c': c} for k, c in enumerate(cs)]
    n = 0
    while n < ctx.n(300, 3000):
        c = rand_case(r)
        if feasible(c):
            rows.append({'id': 'r%d' % n, 'seed': r.randrange(1 << 30), 'c': c})
            n += 1
    judge(ctx, rows)


def replay(ctx, rec):
    judge(ctx, [{k: rec['case'][k] for k in ('id', 'seed', 'c')}])


if __name__ == '__main__':
    drive(*sys.argv[1:3])
