"""Random histories of the market, driven on the real code and judged by MarketTrace.tla."""
import json
import pipeline, gen_market
from families import F


def wanted(cl, clauses):
    return any(cl == c or (c.endswith(':') and cl.startswith(c)) for c in clauses)


def absorb(ctx, res, st, clauses, keep=lambda s: True):
    ctx.states += st['distinct']
    ctx.transitions += st['states'] - len(res)
    ctx.traces += len(res)
    for s, v in res:
        for e in s['ev']:
            if e['ev'] == 'dispatch':
                ctx.count('dispatches_' + e['out']['st'])
        for f in v['fails']:
            if f['cl'].startswith('?'):
                ctx.count('undecided_' + f['cl'][1:])
            elif wanted(f['cl'], clauses):
                ctx.fail('market', f['cl'], '%s %s' % (s['id'], f['wh']), 'got %s want %s' % (f['got'], f['want']),
                         {'scenario': s['origin'], 'verdict': v, 'clauses': list(clauses)})
            else:
                ctx.count('other_clause_' + f['cl'])
    if res and len(ctx.samples) < 3:
        ctx.samples.append(json.loads(json.dumps([{k: x for k, x in e.items() if k != 'cert'} for e in res[0][0]['ev']])))


def families(fams, clauses):
    def part(ctx):
        scs = []
        for fam, n in fams.items():
            for k in range(ctx.n(n)):
                s = gen_market.make('%s/%s' % (fam, ctx.seed), k, F[fam])
                s['id'] = '%s_%s' % (fam, s['id'])
                scs.append(s)
        res, st = pipeline.market(scs, ctx.work)
        absorb(ctx, res, st, clauses)
    return part


def replay(ctx, rec):
    s = rec['case']['scenario']
    res, st = pipeline.market([s], ctx.work)
    absorb(ctx, res, st, rec['case']['clauses'])
