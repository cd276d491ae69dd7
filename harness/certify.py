"""Untrusted certificate finder (python3-vt, HiGHS).

Reads the optimisation problems the specification derived from each history and
attaches to every dispatch event: multipliers (ys), an alternative dispatch (alt),
multipliers agreeing with the reported prices (pc) and the same for the
over-constrained re-run (po, poalt).  TLC re-checks all of it.
usage: certify.py traces.ndjson lpdir out.ndjson
"""
import sys, json, itertools
import numpy as np
from scipy.optimize import linprog
from multiprocessing import Pool

Q, P, K = 1e5, 1e5, 1e6
YMAX = 9900.0


class LP:
    def __init__(self, d):
        self.v = d['v']
        self.r = d['r']
        n, m = len(self.v), len(self.r)
        self.n, self.m = n, m
        self.lb = np.array([v['lb'] / Q for v in self.v])
        self.ub = np.array([v['ub'] / Q for v in self.v])
        self.c = np.array([v['c'] / P for v in self.v])
        A = np.zeros((m, n))
        for i, r in enumerate(self.r):
            for j, a in r['t']:
                A[i, j - 1] += a / K
        self.A = A
        self.b = np.array([r['b'] / Q for r in self.r])
        self.s = [r['s'] for r in self.r]
        self.ec = [r['ec'] / P if r['ec'] >= 0 else None for r in self.r]
        self.wl = d['wl']
        self.sg = d['sg']
        self.fl = d['fl']

    def picks(self, cap=400):
        """choices; on = for interconnector links at most one per interconnector."""
        segs = [range(1, s + 1) for s in self.sg]
        flows = [self.v[j - 1] for j in self.fl]
        groups = {}
        for k, f in enumerate(flows):
            if f['i'] != f['l']:
                groups.setdefault(f['i'], []).append(k)
        opts = [[None] + g for g in groups.values()]
        out = []
        for sg in itertools.product(*segs):
            for sel in itertools.product(*opts):
                on = [f['i'] == f['l'] for f in flows]
                for k in sel:
                    if k is not None:
                        on[k] = True
                out.append({'sg': list(sg), 'on': on})
                if len(out) >= cap:
                    return out
        return out

    def allowed(self, pick):
        al = np.ones(self.n, bool)
        for z, ws in enumerate(self.wl):
            for p, j in enumerate(ws):
                if p + 1 not in (pick['sg'][z], pick['sg'][z] + 1):
                    al[j - 1] = False
        for k, j in enumerate(self.fl):
            if not pick['on'][k]:
                al[j - 1] = False
        return al

    def ybounds(self, zero=False):
        bs = []
        for s, ec in zip(self.s, self.ec):
            m = YMAX if ec is None else min(ec, YMAX)
            if zero:
                m = 1.0 if ec is None else 0.0
            lo, hi = -m, m
            if s == '<=':
                hi = 0.0
            if s == '>=':
                lo = 0.0
            bs.append((lo, hi))
        return bs

    def dual(self, al, zero=False, fix=None, match=None):
        """best multipliers.  fix: {row: price}; match: [(rows, price)] -> lexicographic."""
        n, m = self.n, self.m
        idx = np.where(al)[0]
        k = len(idx)
        c = np.zeros(k) if zero else self.c[idx]
        lb, ub = self.lb[idx], self.ub[idx]
        obj = -np.concatenate([self.b, lb, -ub])
        Aeq = np.hstack([self.A[:, idx].T, np.eye(k), -np.eye(k)])
        beq = c
        bnds = self.ybounds(zero) + [(0, None)] * (2 * k)
        if fix:
            for i, p in fix.items():
                lo, hi = bnds[i]
                p2 = min(max(p, lo), hi)
                bnds[i] = (p2, p2)
        if match:
            q = len(match)
            E = np.zeros((q, m + 2 * k))
            for t, (rows, p) in enumerate(match):
                for i, cnt in rows.items():
                    E[t, i] += cnt
            pv = np.array([p for _, p in match])
            A1 = np.vstack([np.hstack([Aeq, np.zeros((k, 2 * q))]), np.hstack([E, np.eye(q), -np.eye(q)])])
            b1 = np.concatenate([beq, pv])
            o1 = np.concatenate([np.zeros(m + 2 * k), np.ones(2 * q)])
            r1 = linprog(o1, A_eq=A1, b_eq=b1, bounds=bnds + [(0, None)] * (2 * q), method='highs')
            if r1.status != 0:
                return None
            dev = max(0.0, r1.fun)
            A2 = A1
            o2 = np.concatenate([obj, np.zeros(2 * q)])
            r2 = linprog(o2, A_eq=A2, b_eq=b1, A_ub=o1.reshape(1, -1), b_ub=[dev + 1e-7],
                         bounds=bnds + [(0, None)] * (2 * q), method='highs')
            if r2.status != 0:
                return None
            return r2.x[:m]
        r = linprog(obj, A_eq=Aeq, b_eq=beq, bounds=bnds, method='highs')
        if r.status != 0:
            return None
        return r.x[:m]

    def bound(self, al, y, zero=False):
        rc = (0 if zero else self.c) - self.A.T @ y
        t = np.minimum(rc * self.lb, rc * self.ub)
        return float(self.b @ y + t[al].sum())

    def primal(self, al, shifts=()):
        """least cost; shifts: [({row: count}, price)] free changes of right-hand sides paid at the given price."""
        n, m = self.n, self.m
        cost = list(self.c)
        extra = []
        for i in range(m):
            ec = self.ec[i]
            if ec is not None:
                extra.append((i, 1.0, ec))
                extra.append((i, -1.0, ec))
        E = np.zeros((m, len(extra)))
        for t, (i, s, ec) in enumerate(extra):
            E[i, t] = s
            cost.append(ec)
        A = np.hstack([self.A, E])
        if shifts:
            S = np.zeros((m, len(shifts)))
            for t, (rows, price) in enumerate(shifts):
                for i, cnt in rows.items():
                    S[i, t] = -cnt
                cost.append(-price)
            A = np.hstack([A, S])
        le = [i for i in range(m) if self.s[i] == '<=']
        ge = [i for i in range(m) if self.s[i] == '>=']
        eq = [i for i in range(m) if self.s[i] == '=']
        Aub = np.vstack([A[le], -A[ge]]) if le or ge else None
        bub = np.concatenate([self.b[le], -self.b[ge]]) if le or ge else None
        bnds = [((0, 0) if not al[j] else (self.lb[j], self.ub[j])) for j in range(n)] + [(0, None)] * len(extra) + [(-2000, 2000)] * len(shifts)
        r = linprog(cost, A_ub=Aub, b_ub=bub, A_eq=A[eq] if eq else None, b_eq=self.b[eq] if eq else None,
                    bounds=bnds, method='highs')
        if r.status != 0:
            return None
        return r.fun, r.x[:n], r.x[len(r.x) - len(shifts):] if shifts else []


def as_out(lp, x):
    disp, flows, loss = {}, {}, {}
    for j, v in enumerate(lp.v):
        if v['k'] == 'bid':
            k = (v['u'], v['sv'], v['dt'])
            disp[k] = disp.get(k, 0.0) + x[j]
        elif v['k'] == 'flow':
            flows[(v['i'], v['l'])] = x[j]
        else:
            k = (v['i'], v['l'])
            loss[k] = loss.get(k, 0.0) + x[j] * v['py'] / Q
    i = lambda z: int(round(z * 1e5))
    return {'disp': [{'u': k[0], 'sv': k[1], 'dt': k[2], 'q': i(q)} for k, q in disp.items()],
            'flows': [{'i': k[0], 'l': k[1], 'q': i(q), 'ls': i(loss.get(k, 0.0))} for k, q in flows.items()]}


def yi(y):
    return [int(round(v * P)) for v in y]


def fits(lp, pick, out):
    fl = {(f['i'], f['l']): f['q'] / Q for f in out['flows']}
    for z, ws in enumerate(lp.wl):
        v = lp.v[ws[0] - 1]
        f = fl.get((v['i'], v['l']), 0.0)
        a = lp.v[ws[pick['sg'][z] - 1] - 1]['px'] / Q
        b = lp.v[ws[pick['sg'][z]] - 1]['px'] / Q
        if not (a - 0.0015 <= f <= b + 0.0015):
            return False
    for k, j in enumerate(lp.fl):
        v = lp.v[j - 1]
        if abs(fl.get((v['i'], v['l']), 0.0)) > 0.0015 and not pick['on'][k]:
            return False
    return True


def price_cert(lp, out, pick):
    al = lp.allowed(pick)
    fix, match = {}, []
    ep = {p['r']: p['p'] / P for p in out['ep']}
    for i, r in enumerate(lp.r):
        if r['g'] == 'demand' and r['n'] in ep:
            fix[i] = ep[r['n']]
    for p in out['fp']:
        rows = {}
        for i, r in enumerate(lp.r):
            if r['g'] == 'fcas':
                cnt = sum(1 for c in r['cov'] if c == [p['r'], p['sv']])
                if cnt:
                    rows[i] = cnt
        if rows:
            match.append((rows, p['p'] / P))
    y = lp.dual(al, fix=fix, match=match)
    if y is None:
        return None
    b = lp.bound(al, y)
    return b, {'y': yi(y), 'ch': pick}


def witness(lp, out, pick, best):
    """a dispatch of a market with other requirements that costs less than the prices say it must"""
    shifts, names = [], []
    for p in out['ep']:
        rows = {i: 1 for i, r in enumerate(lp.r) if r['g'] == 'demand' and r['n'] == p['r']}
        if rows:
            shifts.append((rows, p['p'] / P))
            names.append(('d', p['r'], ''))
    for p in out['fp']:
        rows = {}
        for i, r in enumerate(lp.r):
            if r['g'] == 'fcas':
                cnt = sum(1 for c in r['cov'] if c == [p['r'], p['sv']])
                if cnt:
                    rows[i] = cnt
        if rows:
            shifts.append((rows, p['p'] / P))
            names.append(('f', p['r'], p['sv']))
    r = lp.primal(lp.allowed(pick), shifts)
    if r is None or r[0] > best - 0.02:
        return None
    sh = [{'r': nm[1], 'sv': 'energy' if nm[0] == 'd' else nm[2], 'q': int(round(d * Q))} for nm, d in zip(names, r[2])]
    return {'ch': pick, 'alt': as_out(lp, r[1]), 'sh': sh}


def price_part(lp, out, picks):
    """(agreeing multipliers, contradicting witnesses), one of the two lists is useful"""
    cands = [p for p in picks if fits(lp, p, out)]
    got = [g for g in (price_cert(lp, out, p) for p in cands) if g]
    pc = [max(got, key=lambda g: g[0])[1]] if got else []
    return pc, cands


def certify(args):
    sc, lps = args
    k = 0
    for e in sc['ev']:
        if e['ev'] != 'dispatch':
            continue
        cert = {'ys': [], 'alt': [], 'pc': [], 'po': [], 'poalt': [], 'gw': [], 'gwo': [], 'yso': []}
        e['cert'] = cert
        out = e['out']
        lp = LP(lps[k])
        k += 1
        if out['st'] == 'error':
            continue
        picks = lp.picks()
        als = [lp.allowed(p) for p in picks]
        best = None
        vals = []
        for al in als:
            r = lp.primal(al)
            vals.append(None if r is None else r[0])
            if r is not None and (best is None or r[0] < best[0]):
                best = r
        if best is not None:
            cert['alt'] = [as_out(lp, best[1])]
        ys = []
        if out['st'] == 'infeasible' or best is None:
            for al in als:
                if any(lp.bound(al, y, True) > 0.01 for y in ys):
                    continue
                y = lp.dual(al, zero=True)
                if y is not None:
                    ys.append(y)
        else:
            goal = best[0] - 1e-3
            y0 = lp.dual(np.ones(lp.n, bool))
            if y0 is not None:
                ys.append(y0)
            for al, v in zip(als, vals):
                if any(lp.bound(al, y) >= goal for y in ys):
                    continue
                y = lp.dual(al)
                if y is not None:
                    ys.append(y)
        cert['ys'] = [yi(y) for y in ys]
        if e['chkprice'] and out['st'] == 'ok' and best is not None:
            cert['pc'], cands = price_part(lp, out, picks)
            cert['gw'] = [w for w in (witness(lp, out, p, best[0]) for p in cands) if w]
            if e['ocd']['on']:
                lq = relaxed(lp, out)
                pr = lq.primal(als[0])
                if pr:
                    cert['po'], cands = price_part(lq, out, picks)
                    cert['poalt'] = [as_out(lq, pr[1])]
                    cert['gwo'] = [w for w in (witness(lq, out, p, pr[0]) for p in cands) if w]
                    y0 = lq.dual(np.ones(lq.n, bool))
                    cert['yso'] = [yi(y0)] if y0 is not None else []
    return sc


def relaxed(lp, out):
    import copy
    x = np.zeros(lp.n)
    # totals -> activity needs bands; use proportional split (rows only see totals per side)
    tot = {(d['u'], d['sv'], d['dt']): d['q'] / Q for d in out['disp']}
    left = dict(tot)
    fl = {(f['i'], f['l']): f for f in out['flows']}
    for j, v in enumerate(lp.v):
        if v['k'] == 'bid':
            kk = (v['u'], v['sv'], v['dt'])
            t = min(left.get(kk, 0.0), lp.ub[j])
            x[j] = t
            left[kk] = left.get(kk, 0.0) - t
        elif v['k'] == 'flow':
            x[j] = fl.get((v['i'], v['l']), {'q': 0})['q'] / Q
    lq = copy.copy(lp)
    lq.b = lp.b.copy()
    for i, r in enumerate(lp.r):
        if r['g'] in ('generic', 'fcas') and lp.ec[i] is not None:
            a = lp.A[i] @ x
            d = a - lp.b[i]
            miss = max(d, 0) if lp.s[i] == '<=' else max(-d, 0) if lp.s[i] == '>=' else abs(d)
            if miss > 5e-6:
                lq.b[i] += (miss + 0.01) if d > 0 else -(miss + 0.01)
    return lq


def main(src, lpdir, dst):
    scs = [json.loads(l) for l in open(src)]
    jobs = []
    for s in scs:
        try:
            lps = json.load(open('%s/lp_%s.json' % (lpdir, s['id'])))['lps']
        except FileNotFoundError:
            lps = []
        jobs.append((s, lps))
    with Pool(8) as p:
        res = p.map(certify, jobs, chunksize=4)
    with open(dst, 'w') as f:
        for r in res:
            f.write(json.dumps(r) + '\n')


if __name__ == '__main__':
    main(*sys.argv[1:4])
