"""Histories enumerated by TLC (MCHistory.tla), replayed on the real market."""
import json, os, random, re
import pipeline, market_part

DISP = {'ev': 'dispatch', 'ocd': {'on': False, 'ceil': 0, 'floor': 0, 'fceil': 0}, 'chkprice': True, 'summary': False, 'avail': False}


def enumerated(quick, clauses):
    def part(ctx):
        out = ctx.work + '/menu.json'
        ctx.model('MCHistory', 'MCHistory3.cfg', env={'VP_OUT': out}, extra=('-dump', ctx.work + '/hist'))
        if ctx.tier == 'thorough':
            ctx.model('MCHistory', 'MCHistory4.cfg')
        menu = json.load(open(out))
        hs = []
        for l in open(ctx.work + '/hist.dump'):
            if l.startswith('/\\ h = '):
                hs.append([int(x) for x in re.findall(r'\d+', l)])
        os.remove(ctx.work + '/hist.dump')
        r = random.Random('hist/%s' % ctx.seed)
        n = ctx.n(quick, len(hs))
        short = [h for h in hs if len(h) <= 1]
        pick = short + r.sample([h for h in hs if len(h) > 1], max(0, min(n, len(hs)) - len(short)))
        scs = []
        for h in pick:
            ev = [dict(e) for e in menu['base']]
            for k in h:
                if r.random() < 0.3:
                    ev.append(dict(DISP))
                ev.append(dict(menu['menu'][k - 1]))
            ev.append(dict(DISP))
            scs.append({'id': 'h' + '_'.join(map(str, h)), 'seed': r.randrange(1 << 30), 'ev': ev})
        res, st = pipeline.market(scs, ctx.work)
        ctx.notes['enumerated_histories'] = len(hs)
        ctx.notes['enumerated_histories_replayed'] = len(scs)
        if n >= len(hs):
            ctx.exhaustive = True
        market_part.absorb(ctx, res, st, clauses)
    return part
