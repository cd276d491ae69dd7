"""Markets that share tables: histories enumerated by MCShare.tla and random pairs of markets, run in one program, judged one market at a time."""
import copy, json, os, random
import pipeline, market_part, gen_market, tlaval
from families import F

DISP = {'ev': 'dispatch', 'ocd': {'on': False, 'ceil': 0, 'floor': 0, 'fceil': 0}, 'chkprice': True, 'summary': True, 'avail': False}


def enumerated(quick, clauses):
    def part(ctx):
        out, dump = ctx.work + '/share.json', ctx.work + '/share'
        ctx.model('MCShare', 'MCShare3.cfg', env={'VP_OUT': out}, extra=('-dump', dump))
        if ctx.tier == 'thorough':
            ctx.model('MCShare', 'MCShare4.cfg')
        parts = json.load(open(out))
        hs = [s for s in tlaval.states(dump + '.dump', {'x', 'n', 'log'}) if s['n'] == 3]
        os.remove(dump + '.dump')
        ctx.notes['enumerated_shared_histories'] = len(hs)
        r = random.Random('share/%s' % ctx.seed)
        pick = hs if ctx.n(quick, len(hs)) >= len(hs) else r.sample(hs, ctx.n(quick, len(hs)))
        ctx.notes['enumerated_shared_histories_replayed'] = len(pick)
        scs = []
        for k, h in enumerate(pick):
            mine = copy.deepcopy({p: parts[p] for p in ('info', 'bids', 'dem', h['x'])})
            style = {'nodt': r.random() < .5, 'reread': .5}
            for v in (0, 1):
                mine['info'][v][0].update(style, nolf=v == 0 and r.random() < .5)
            log = h['log'] + [['dispatch', m, '', 0] for m in sorted({x[1] for x in h['log']} - {0})]
            scs.append({'id': 'sh%d' % k, 'seed': r.randrange(1 << 30), 'parts': mine, 'log': log, 'disp': DISP})
        res, st = pipeline.market(scs, ctx.work)
        market_part.absorb(ctx, res, st, clauses)
    return part


def pairs(counts, clauses):
    """two markets of the same tables but for a few, step by step in turns; or one whose owner writes over tables once they were handed over"""
    def part(ctx):
        scs = []
        for fam, n in counts.items():
            for k in range(ctx.n(n)):
                a = gen_market.make('share%s/%s' % (fam, ctx.seed), k, F[fam])
                r = random.Random('pair%s/%s/%d' % (fam, ctx.seed, k))
                a['ev'][0].update(reread=.5)
                if r.random() < .5:
                    a['ev'][0].update(spoils=.8)
                    scs.append(dict(a, id='%s_spoil%d' % (fam, k)))
                    continue
                a['ev'][0]['shuffle'] = False
                b = copy.deepcopy(a)
                for e in b['ev']:
                    if e['ev'] == 'demand' and r.random() < .8:
                        e['rows'] = [dict(x, d=int(x['d'] * r.choice([5, 8, 9]) / 10)) for x in e['rows']]
                scs.append({'id': '%s_pair%d' % (fam, k), 'seed': r.randrange(1 << 30), 'pair': [a, dict(b, seed=a['seed'] + 1)]})
        res, st = pipeline.market(scs, ctx.work)
        market_part.absorb(ctx, res, st, clauses)
    return part
