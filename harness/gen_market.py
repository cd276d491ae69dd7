"""Seeded generator of market histories (scaled-integer events)."""
import random

Q = 100000
K = 1000000
CONT = ['raise_6s', 'lower_6s', 'raise_60s', 'lower_60s', 'raise_5min', 'lower_5min', 'raise_1s', 'lower_1s']
REG = ['raise_reg', 'lower_reg']
NONE = {'k': 'none'}
NOOCD = {'on': False, 'ceil': 0, 'floor': 0, 'fceil': 0}

REGION_NAMES = ['NSW', 'VIC', 'SA', 'QLD', 'N', 'A B']
UNIT_NAMES = ['N', 'A', 'B', 'AB', 'BA', 'X', 'XY', 'YZ', 'Z', 'unit 1', 'u2', 'HORNSDALE', 'G', 'L', 'GL']


class G:
    def __init__(self, rng, feat):
        self.r = rng
        self.f = feat

    def p(self, name, default=0.0):
        return self.r.random() < self.f.get(name, default)

    def edge(self, p=None):
        """an unusual value is called for"""
        return self.r.random() < (self.f.get('edge', 0.07) if p is None else p)

    def mw(self, lo, hi, step=None):
        step = step or self.r.choice([1.0, 1.0, 0.5, 0.1, 10.0])
        v = lo + (hi - lo) * self.r.random()
        return int(round(round(v / step) * step * Q))

    def el(self, name):
        r = self.r
        if not self.p('el_' + name, self.f.get('el', 0.0)):
            return NONE
        if self.p('el_low', 0.08):
            return {'k': 'num', 'c': r.choice([5, 20, 60]) * Q}
        return {'k': 'num', 'c': r.choice([500, 1000, 2000, 3000]) * Q}

    # ------------------------------------------------------------------ market
    def market(self):
        r, f = self.r, self.f
        nr = r.randint(*f.get('nregions', (1, 2)))
        names = REGION_NAMES[:]
        r.shuffle(names)
        self.regions = names[:nr]
        nu = max(nr, r.randint(*f.get('nunits', (2, 4))))
        if self.edge():
            nu = r.randint(nu, 9)
        self.size = r.choice([0.02, 0.1, 3.0, 8.0]) if self.edge(0.06) else 1.0
        un = UNIT_NAMES[:]
        r.shuffle(un)
        un = un[:nu]
        self.info, self.bdu, self.sides = [], set(), []
        self.lfneq = self.p('lf', 0.4)
        for k, u in enumerate(un):
            reg = self.regions[k % nr] if k < nr else r.choice(self.regions)
            lf = lambda: int(round(r.choice([0.9, 0.95, 0.98, 1.0, 1.02, 1.05, 0.8, 1.25]) * K)) if self.lfneq else K
            x = r.random()
            if x < f.get('bdu', 0.0):
                self.bdu.add(u)
                self.info.append({'u': u, 'r': reg, 'dt': 'generator', 'lf': lf()})
                self.info.append({'u': u, 'r': reg, 'dt': 'load', 'lf': lf()})
            elif k >= nr and x < f.get('bdu', 0.0) + f.get('load', 0.15):
                self.info.append({'u': u, 'r': reg, 'dt': 'load', 'lf': lf()})
            else:
                self.info.append({'u': u, 'r': reg, 'dt': 'generator', 'lf': lf()})
        nodt = all(i['dt'] == 'generator' for i in self.info) and self.p('nodt', 0.3)
        self.tie = self.p('tie', 0.06)
        self.iv = f.get('iv') or r.choice([5, 5, 5, 5, 30, 15, 60, 10, 1])
        self.new = {'ev': 'new', 'iv': self.iv, 'regions': self.regions, 'info': self.info, 'nodt': nodt,
                    'shuffle': self.p('shuffle', 0.5), 'nolf': (not self.lfneq) and self.p('nolf', 0.3),
                    'index': 'twice' if self.p('twice', 0.2) else 'plain', 'reread': 1.0 if self.p('reread', 0.2) else 0.0}

    def bands(self):
        if self.edge(0.03):
            return self.r.randint(6, 10)
        return self.r.randint(*self.f.get('bands', (1, 3)))

    def prices(self, n, dt, sv):
        r = self.r
        lo, hi = self.f.get('price', (0, 120))
        if sv != 'energy':
            lo, hi = 0, self.f.get('fcasprice', 40)
        ps = sorted(r.choice([r.randint(lo, hi), round(r.uniform(lo, hi), 2)]) for _ in range(n))
        if self.f.get('distinct', True):
            for i in range(1, n):
                if ps[i] <= ps[i - 1]:
                    ps[i] = ps[i - 1] + 1
        if self.tie and sv == 'energy':                # equal offers, for tie breaking to act on
            ps = [20.0 * (x // 20) + 20.0 * k for k, x in enumerate(ps)]
        return [int(round(x * Q)) for x in ps]

    def relabel(self, svs):
        """the contingency services are alike but for their direction: any of the four of each"""
        r = self.r
        name = {}
        for way in ('raise', 'lower'):
            pool = [s for s in CONT if s.startswith(way)]
            r.shuffle(pool)
            name.update(zip([s for s in svs if s in CONT and s.startswith(way)], pool))
        return [name.get(s, s) for s in svs]

    def bids(self):
        r, f = self.r, self.f
        vol, prc = [], []
        self.cap = {}
        used = set()
        for i in self.info:
            n = self.bands()
            b = [self.mw(5 * self.size, 60 * self.size, r.choice([1.0, 5.0, 0.5]) * min(1.0, self.size)) for _ in range(n)]
            if self.p('zeroband', 0.1):
                b[r.randrange(n)] = 0
            if self.edge(0.12):
                b[r.randrange(n)] = r.choice([1000, 25000, 60000, 99000])
            if sum(b) == 0:
                b[0] = 10 * Q
            if i['u'] in self.bdu:
                # bands over both sides ordered so that charging never pays for discharging
                p = self.prices(n, i['dt'], 'energy')
                if i['dt'] == 'load':
                    p = [x - 200 * Q for x in p] if self.p('bdu_cheap', 0.3) else [x // 2 for x in p]
                    p.sort()
            else:
                p = self.prices(n, i['dt'], 'energy')
            vol.append({'u': i['u'], 'sv': 'energy', 'dt': i['dt'], 'b': b})
            prc.append({'u': i['u'], 'sv': 'energy', 'dt': i['dt'], 'p': p})
            self.cap[(i['u'], i['dt'])] = sum(b)
        self.fcas_sides = []
        svs = self.relabel(f.get('services', []))
        for sv in svs:
            for i in self.info:
                if r.random() < f.get('fcasbid', 0.6):
                    n = r.randint(1, 2)
                    b = [self.mw(2, 25, r.choice([1.0, 0.5])) for _ in range(n)]
                    if self.edge(0.08):
                        b[r.randrange(n)] = r.choice([0, 1000, 30000, 75000])
                    if sum(b) == 0:
                        b[0] = 5 * Q
                    vol.append({'u': i['u'], 'sv': sv, 'dt': i['dt'], 'b': b})
                    prc.append({'u': i['u'], 'sv': sv, 'dt': i['dt'], 'p': self.prices(n, i['dt'], sv)})
                    self.fcas_sides.append((i['u'], sv, i['dt'], sum(b)))
        self.vol = {'ev': 'vol', 'rows': vol}
        self.prc = {'ev': 'price', 'rows': prc}
        self.new['noserv'] = (not svs) and self.p('noserv', 0.4)

    def supply(self, reg=None):
        return sum(c for (u, dt), c in self.cap.items() if dt == 'generator' and
                   (reg is None or any(i['u'] == u and i['dt'] == dt and i['r'] == reg for i in self.info)))

    def demand(self):
        r = self.r
        rows = []
        for g in self.regions:
            s = self.supply(g) / Q
            lo, hi = self.f.get('load_factor', (0.2, 0.85))
            rows.append({'r': g, 'd': self.mw(lo * s, hi * s, r.choice([1.0, 0.5, 0.1]))})
            if self.edge(0.05):
                rows[-1]['d'] = r.choice([0, 0, int(s * Q), -5 * Q, 12345])
        return {'ev': 'demand', 'rows': rows, 'el': self.el('demand')}

    # ------------------------------------------------------------- unit limits
    def cap_ev(self):
        rows = []
        for i in self.info:
            if self.p('cap_each', 0.7):
                c = self.cap[(i['u'], i['dt'])] / Q
                rows.append({'u': i['u'], 'dt': i['dt'], 'q': self.mw(0.3 * c, 1.1 * c, 0.5 * min(1, self.size))})
                if self.edge():
                    rows[-1]['q'] = self.r.choice([0, int(c * Q), 50000, 1])
        return {'ev': 'cap', 'rows': rows, 'el': self.el('cap')} if rows else None

    def uigf_ev(self):
        rows = [{'u': i['u'], 'q': self.mw(0.3 * self.cap[(i['u'], 'generator')] / Q, 1.1 * self.cap[(i['u'], 'generator')] / Q, 0.5)}
                for i in self.info if i['dt'] == 'generator' and i['u'] not in self.bdu and self.p('uigf_each', 0.5)]
        for x in rows:
            if self.edge():
                x['q'] = self.r.choice([0, self.cap[(x['u'], 'generator')], 40000])
        return {'ev': 'uigf', 'rows': rows, 'el': self.el('uigf')} if rows else None

    def rate(self, c):
        # MW per hour giving 0.05..0.8 of capacity per interval, a multiple of 12 so interval moves are exact
        if self.edge(0.06):
            return self.r.choice([0, 0, 60 * Q, 9000 * Q])
        m = max(1, int(self.r.uniform(0.05, 0.8) * c))
        return min(9000 * Q, int(m * (60 // self.iv) * Q) if self.r.random() < 0.7 else int(m * 6) * Q)

    def ramp_ev(self, run='no_fast_start_units', fs=None):
        r = self.r
        rows, scada = [], []
        inits = {}
        for i in self.info:
            u, dt = i['u'], i['dt']
            c = self.cap[(u, dt)] / Q
            if u in self.bdu:
                if u not in inits:
                    if not self.p('ramp_each', 0.85):
                        inits[u] = None
                    else:
                        inits[u] = self.mw(-self.cap[(u, 'load')] / Q, self.cap[(u, 'generator')] / Q, 1.0)
                        if r.random() < 0.12:
                            inits[u] = r.choice([0, -self.cap[(u, 'load')], self.cap[(u, 'generator')], -Q, Q // 2])
                if inits[u] is None:
                    continue
                rows.append({'u': u, 'dt': dt, 'init': inits[u], 'up': self.rate(c), 'dn': self.rate(c)})
            elif self.p('ramp_each', 0.85):
                rows.append({'u': u, 'dt': dt, 'init': self.mw(0.0, c, min(1.0, self.size)), 'up': self.rate(c), 'dn': self.rate(c)})
                if self.edge(0.1):
                    rows[-1]['init'] = r.choice([0, self.cap[(u, dt)], self.cap[(u, dt)] + 10 * Q, 50000])
        if not rows:
            return None
        self.inits = {x['u']: x['init'] for x in rows}
        if self.p('scada', 0.4):
            for u in sorted({x['u'] for x in rows}):
                if r.random() < 0.7:
                    c = max(self.cap.get((u, 'generator'), 0), self.cap.get((u, 'load'), 0)) / Q
                    scada.append({'u': u, 'up': self.rate(c) if r.random() < 0.8 else -1, 'dn': self.rate(c) if r.random() < 0.8 else -1})
        return {'ev': 'ramp', 'rows': rows, 'scada': scada, 'fs': fs or [], 'run': run, 'el': self.el('ramp')}

    # --------------------------------------------------------------------- fcas
    def fcas_ev(self):
        r = self.r
        rows = []
        svs = sorted({s[1] for s in self.fcas_sides})
        k = 0
        self.fcas_sets = []
        for sv in svs:
            for _ in range(r.randint(1, self.f.get('nsets', 2))):
                regs = [g for g in self.regions if r.random() < 0.7] or [r.choice(self.regions)]
                have = sum(x[3] for x in self.fcas_sides if x[1] == sv and
                           any(i['u'] == x[0] and i['dt'] == x[2] and i['r'] in regs for i in self.info))
                if have == 0:
                    continue
                k += 1
                s = 'F_%s_%d' % (sv, k) if r.random() < 0.7 else 'set%d' % k
                if self.edge(0.1):
                    s = ([x for x in self.regions + [sv, 'F', 'demand'] if x not in self.fcas_sets] or [s])[0]
                q = self.mw(0.1 * have / Q, self.f.get('fcas_tight', 0.8) * have / Q, 0.5)
                if self.edge(0.04):
                    q = r.choice([0, have, 30000])
                ty = r.choices(['>=', '=', '<='], self.f.get('fcas_types', (0.8, 0.15, 0.05)))[0]
                for g in regs:
                    rows.append({'s': s, 'r': g, 'sv': sv, 'q': q, 'ty': ty})
                    if self.p('twoservices', 0.0):
                        o = r.choice([x for x in svs])
                        if o != sv:
                            rows.append({'s': s, 'r': g, 'sv': o, 'q': q, 'ty': ty})
                self.fcas_sets.append(s)
        if not rows:
            return None
        notype = all(x['ty'] == '=' for x in rows) and r.random() < 0.5
        el = self.el('fcas')
        if el['k'] == 'num' and self.p('el_sets', 0.25):
            ss = [s for s in self.fcas_sets if r.random() < 0.7]
            el = {'k': 'sets', 'cs': [{'s': s, 'c': r.choice([500, 1000, 3000]) * Q} for s in ss]} if ss else NONE
        return {'ev': 'fcas', 'rows': rows, 'el': el, 'notype': notype}

    def maxav_ev(self):
        rows = [{'u': u, 'sv': sv, 'dt': dt, 'q': self.mw(0.3 * c / Q, 1.1 * c / Q, 0.5)} for (u, sv, dt, c) in self.fcas_sides
                if self.p('maxav_each', 0.7)]
        for x in rows:
            if self.edge():
                x['q'] = self.r.choice([0, 20000, 50 * Q])
        return {'ev': 'maxav', 'rows': rows, 'el': self.el('maxav')} if rows else None

    def trap(self, u, sv, dt, c):
        r = self.r
        ma = r.choice([4, 5, 10, 20, 25, 2, 8])
        cap = self.cap.get((u, dt), 20 * Q) / Q
        up = r.choice([0.0, 0.5, 1.0, 1.0, 1.5, 2.0])
        lo = r.choice([0.0, 0.0, 0.5, 1.0, 1.0, 2.0])
        emin = r.choice([0.0, 0.0, round(0.2 * cap)])
        if u in self.bdu and dt == 'generator' and self.p('bdu_traps', 0.5):
            # one trapezium over both sides: from charging to discharging
            emin = -round(r.uniform(0.2, 1.1) * self.cap.get((u, 'load'), 20 * Q) / Q)
        lb = emin + lo * ma
        hb = max(lb, round(r.uniform(0.5, 1.0) * cap))
        emax = hb + up * ma
        if self.edge(0.08):
            emin, lb = r.choice([(0.5, 0.5), (1.0, 1.0 + ma / 4), (0.0, 0.0)])
            hb = max(hb, lb)
            emax = max(emax, hb)
        i = lambda x: int(round(x * Q))
        return {'u': u, 'sv': sv, 'dt': dt, 'ma': i(ma), 'emin': i(emin), 'lb': i(lb), 'hb': i(hb), 'emax': i(emax)}

    def jcap_ev(self):
        rows = [self.trap(*s) for s in self.fcas_sides if s[1] in CONT and self.p('trap_each', 0.8)]
        return {'ev': 'jcap', 'rows': rows, 'el': self.el('jcap')} if rows else None

    def ereg_ev(self):
        rows = [self.trap(*s) for s in self.fcas_sides if s[1] in REG and self.p('trap_each', 0.8)]
        return {'ev': 'ereg', 'rows': rows, 'el': self.el('ereg')} if rows else None

    def jramp_ev(self, run='no_fast_start_units', fs=None):
        r = self.r
        rows = []
        for u in sorted({i['u'] for i in self.info}):
            if not self.p('jramp_each', 0.85):
                continue
            g = self.cap.get((u, 'generator'), 0) / Q
            l = self.cap.get((u, 'load'), 0) / Q
            init = getattr(self, 'inits', {}).get(u)
            if init is None or r.random() < 0.3:
                init = self.mw(-l if u in self.bdu else 0, g if (g or u in self.bdu) else l, 1.0)
            rows.append({'u': u, 'init': init, 'up': self.rate(max(g, l)), 'dn': self.rate(max(g, l))})
        regs = {s[0] for s in self.fcas_sides if s[1] in REG}
        if not any(x['u'] in regs for x in rows):
            return None
        return {'ev': 'jramp', 'rows': rows, 'fs': fs or [], 'run': run, 'el': self.el('jramp')}

    # -------------------------------------------------------------- fast start
    def fs_rows(self):
        r = self.r
        us = [i['u'] for i in self.info if i['u'] not in self.bdu]
        pick = [u for u in us if r.random() < self.f.get('fs_each', 0.6)]
        prof, fs = [], []
        for u in pick:
            dt = next(i['dt'] for i in self.info if i['u'] == u)
            c = self.cap[(u, dt)] / Q
            ml = self.mw(0.1 * c, 0.5 * c, 1.0)
            t2 = r.choice([2, 4, 5, 8, 10]) * 10
            t4 = r.choice([2, 4, 5, 8, 10]) * 10
            em = r.choice([0, 0, 1, 2, 2, 3, 3, 4, 4, 5])
            t = {2: r.randint(0, t2 // 10), 4: r.randint(0, t4 // 10)}.get(em, r.randint(0, 8)) * 10
            prof.append({'u': u, 'em': em, 't': t, 't2': t2, 't4': t4, 'ml': ml})
            cm = r.choice([0, 1, 2, 3, 4, 5])
            t2e = -1
            if em in (3, 4, 5) and r.random() < 0.6:
                t2e = r.choice([10, 20, 30, 40])
            fs.append({'u': u, 'cm': cm, 'em': em, 't2e': t2e, 'ml': ml})
        return prof, fs

    # ------------------------------------------------------------ interconnectors
    def inter_evs(self):
        r, f = self.r, self.f
        if len(self.regions) < 2:
            return []
        pairs = [(a, b) for a in self.regions for b in self.regions if a < b]
        r.shuffle(pairs)
        n = r.randint(1, min(len(pairs), f.get('ninter', 2)))
        if f.get('parallel') and r.random() < 0.3:
            pairs = [pairs[0]] * 2 + pairs[1:]
            n = max(n, 2)
        rows, loss = [], []
        lossy = self.p('loss', 0.5)
        for k in range(n):
            a, b = pairs[k]
            if r.random() < 0.5:
                a, b = b, a
            name = 'I%d' % k if r.random() < 0.6 else 'Inter-%s-%d' % (a, k)
            if self.edge(0.15):                        # a name that means something else as well
                other = [x for x in self.regions + [i['u'] for i in self.info] + ['I'] if x not in [y['i'] for y in rows]]
                name = r.choice(other)
            fac = lambda: int(round(r.choice([0.9, 0.95, 0.98, 1.0, 1.02, 1.05]) * K)) if self.p('ilf', 0.4) else K
            if self.p('links', 0.0) and lossy:
                mx = self.mw(10, 80, 5.0) or 10 * Q
                la, lb = r.choice([(name + 'a', name + 'b'), ('a', 'b'), ('forward', 'backward')])
                two = [{'i': name, 'l': la, 'to': a, 'fr': b, 'mx': mx, 'mn': 0, 'tlf': fac(), 'flf': fac(), 'gf': 1},
                       {'i': name, 'l': lb, 'to': b, 'fr': a, 'mx': self.mw(10, 80, 5.0) or 10 * Q, 'mn': 0, 'tlf': fac(),
                        'flf': fac(), 'gf': -1}]
                rows += two
                for z in two:
                    loss.append(self.lossrow(z['i'], z['l'], 0, z['mx']))
            else:
                mx = self.mw(5, 100, 5.0)
                mn = -self.mw(0, 100, 5.0)
                if self.edge(0.05):
                    mx, mn = r.choice([(0, mn), (mx, 0), (250 * Q, -300 * Q), (7 * Q + 50000, mn), (30 * Q, -200 * Q)])
                    mn = min(mn, mx)
                if r.random() < 0.05:
                    mn = mx - 5 * Q
                rows.append({'i': name, 'l': name, 'to': a, 'fr': b, 'mx': mx, 'mn': mn, 'tlf': fac(), 'flf': fac(), 'gf': 1})
                if lossy:
                    loss.append(self.lossrow(name, name, mn, mx))
        out = [{'ev': 'inter', 'rows': rows, 'cols': r.random() < 0.4}]
        self.inter = rows
        if lossy:
            out.append({'ev': 'loss', 'rows': loss, 'seg0': r.choice([0, 1, 1, -3])})
        return out

    def lossrow(self, i, l, mn, mx):
        r = self.r
        lo, hi = min(mn, 0) / Q, max(mx, 10 * Q) / Q
        lo = 10 * int(lo // 10) - (10 if r.random() < 0.4 or lo == 0 and l == i else 0)
        hi = 10 * int(hi // 10) + (10 if hi % 10 or r.random() < 0.4 else 0)
        inner = [x + (r.choice([0.5, 2.5, -3.75, 0.8]) if self.edge(0.15) else 0) for x in range(lo + 10, hi, 10)]
        r.shuffle(inner)
        n = r.randint(0, self.f.get('nbreak', 3))
        xs = sorted([lo, hi] + ([0] if lo < 0 and r.random() < 0.7 else []) + inner[:n])
        xs = sorted(set(xs))
        a = r.choice([0.0002, 0.0005, 0.001])
        b = r.choice([0.0, 0.0, 0.01, -0.01, 0.02])
        ys = [a * x * x + b * x for x in xs]
        if self.p('nonconvex', 0.0):
            ys = [y + r.choice([0, 0.3, 0.6]) if 0 < k < len(xs) - 1 else y for k, y in enumerate(ys)]
        return {'i': i, 'l': l, 'sh': int(round(r.choice([0.0, 0.25, 0.5, 0.5, 0.6, 1.0]) * K)),
                'pts': [{'x': int(round(x * Q)), 'y': int(round(y * Q))} for x, y in zip(xs, ys)]}

    # ------------------------------------------------------------------ generic
    def generic_evs(self):
        r, f = self.r, self.f
        n = r.randint(1, 3)
        rows, gu, gr, gi = [], [], [], []
        svs = ['energy'] + sorted({s[1] for s in self.fcas_sides})
        for k in range(n):
            s = 'GC%d' % k if r.random() < 0.8 else ['GC', self.regions[0], self.info[0]['u']][k]
            scale = 0.0
            if r.random() < 0.7:
                for u in sorted({i['u'] for i in self.info}):
                    if r.random() < 0.5:
                        sv = r.choice(svs) if r.random() < 0.3 else 'energy'
                        a = r.choice([1.0, 1.0, 0.5, 2.0, -1.0, -0.5, 0.1, 3.0, -0.25] + ([0.0] if self.edge() else []))
                        gu.append({'s': s, 'u': u, 'sv': sv, 'a': int(a * K)})
                        scale += max(0, a) * sum(v for (uu, dt), v in self.cap.items() if uu == u) / Q
            if r.random() < 0.35:
                for g in ([r.choice(self.regions)] if r.random() < 0.6 else self.regions):
                    sv = r.choice(svs)
                    a = r.choice([1.0, 0.5, -1.0])
                    gr.append({'s': s, 'r': g, 'sv': sv, 'a': int(a * K)})
                    scale += max(0, a) * self.supply(g) / Q
            if getattr(self, 'inter', None) and r.random() < 0.6:
                for i in sorted({x['i'] for x in self.inter}):
                    a = r.choice([1.0, -1.0, 0.5])
                    gi.append({'s': s, 'i': i, 'a': int(a * K)})
                    scale += 20
            if r.random() < 0.05:
                pass
            ty = r.choices(['<=', '>=', '='], f.get('gen_types', (0.55, 0.3, 0.15)))[0]
            rhs = self.mw(0.1 * scale, 0.8 * scale, 0.5) if ty != '>=' else self.mw(-5, 0.5 * scale, 0.5)
            rows.append({'s': s, 'ty': ty, 'rhs': rhs})
        if self.p('stray', 0.3):                      # terms for a set that is not in force
            gu.append({'s': 'UNUSED', 'u': self.info[0]['u'], 'sv': 'energy', 'a': K})
        for s in getattr(self, 'fcas_sets', []):
            if r.random() < f.get('fcaslink', 0.25):
                u = r.choice(self.info)['u']
                if not any(x['s'] == s and x['u'] == u for x in gu):
                    gu.append({'s': s, 'u': u, 'sv': 'energy', 'a': r.choice([-K, K // 2, K // 4])})
        el = self.el('generic')
        if el['k'] == 'num' and self.p('el_sets', 0.4):
            ss = [x['s'] for x in rows if r.random() < 0.7]
            el = {'k': 'sets', 'cs': [{'s': s, 'c': r.choice([300, 1000, 5000]) * Q} for s in ss]} if ss else NONE
        ev = [{'ev': 'gen', 'rows': rows, 'el': el}]
        if gu:
            ev.append({'ev': 'gunit', 'rows': gu})
        if gr:
            ev.append({'ev': 'gregion', 'rows': gr})
        if gi:
            ev.append({'ev': 'ginter', 'rows': gi})
        return ev

    # ----------------------------------------------------------------- assembly
    def dispatch(self, **kw):
        e = {'ev': 'dispatch', 'ocd': NOOCD, 'chkprice': bool(self.f.get('chkprice')), 'summary': bool(self.f.get('summary')),
             'avail': bool(self.f.get('avail'))}
        e.update(kw)
        return e

    def body(self):
        """all set-up events after the bids, in a random admissible order"""
        r = self.r
        evs = []
        add = lambda e: evs.extend([e] if isinstance(e, dict) else (e or []))
        add(self.demand())
        if self.p('cap'):
            add(self.cap_ev())
        if self.p('uigf'):
            add(self.uigf_ev())
        run, fs, prof = 'no_fast_start_units', [], []
        if self.p('fs'):
            prof, fs = self.fs_rows()
            run = r.choice(['fast_start_first_run', 'fast_start_second_run', 'fast_start_second_run', 'no_fast_start_units'])
            if not fs:
                run = 'no_fast_start_units'
            if prof and r.random() < 0.8:
                add({'ev': 'fast', 'rows': prof, 'el': self.el('fast')})
        self.run_args = (run, fs)
        if self.p('ramp'):
            add(self.ramp_ev(run, fs if run != 'no_fast_start_units' else []))
        if self.fcas_sides:
            if self.p('fcasreq', 1.0):
                add(self.fcas_ev())
            if self.p('maxav'):
                add(self.maxav_ev())
            if self.p('jcap'):
                add(self.jcap_ev())
            if self.p('ereg'):
                add(self.ereg_ev())
            if self.p('jramp'):
                add(self.jramp_ev(run, fs if run != 'no_fast_start_units' else []))
        if self.tie:
            add({'ev': 'tie', 'nano': 1000})
        tail = []
        if self.p('inter'):
            tail += self.inter_evs()
        if self.p('generic'):
            evs += self.generic_evs()
        r.shuffle(evs)
        # interconnectors anywhere, losses after them
        pos = sorted(r.randint(0, len(evs)) for _ in tail)
        for k, (p, e) in enumerate(zip(pos, tail)):
            evs.insert(p + k, e)
        if self.p('el_later', 0.1):
            for e in list(evs):
                if e['ev'] in ('demand', 'fcas', 'cap', 'gen') and e['el']['k'] == 'num':
                    key = {'demand': 'demand', 'fcas': 'fcas', 'cap': 'unit_bid_capacity', 'gen': 'generic'}[e['ev']]
                    el = e['el']
                    e['el'] = NONE
                    evs.append({'ev': 'elastic', 'key': key, 'el': el})
        return evs

    def scenario(self):
        self.market()
        self.bids()
        evs = self.body()
        pre = [e for e in evs if e['ev'] in ('demand', 'fcas', 'gen', 'gunit', 'gregion', 'ginter', 'fast') and self.r.random() < 0.2
               and not any(x['ev'] == 'elastic' for x in evs)]
        post = [e for e in evs if not any(e is x for x in pre)]
        return [self.new] + pre + [self.vol, self.prc] + post + self.runs()

    # ------------------------------------------------------------------ sequences
    def rates_rows(self, each=0.85):
        return [{'u': i['u'], 'dt': i['dt'], 'up': self.rate(self.cap[(i['u'], i['dt'])] / Q), 'dn': self.rate(self.cap[(i['u'], i['dt'])] / Q)}
                for i in self.info if self.r.random() < each]

    def sequence(self):
        """several intervals of a time sequential model, with the same market object or a new one each interval"""
        r = self.r
        self.market()
        self.bids()
        evs = []
        fresh = r.random() < 0.5
        rates = self.rates_rows(1.0)
        for k in range(r.randint(2, 4)):
            vol, prc = self.vol, self.prc
            if k == 0 and r.random() < 0.5 and len(self.info) > 1:        # a unit that only bids later
                gone = r.choice(self.info)['u']
                if any(i['u'] != gone and i['r'] == next(j['r'] for j in self.info if j['u'] == gone) and i['dt'] == 'generator' for i in self.info):
                    reserve = r.random() < 0.5                            # or offers reserve only
                    stays = lambda x: x['u'] != gone or (reserve and x['sv'] != 'energy')
                    vol = dict(vol, rows=[x for x in vol['rows'] if stays(x)])
                    prc = dict(prc, rows=[x for x in prc['rows'] if stays(x)])
            if k == 0 or fresh:
                evs.append(self.new)
            if k == 0 or fresh or r.random() < 0.6 or vol is not self.vol or k == 1:
                evs += [vol, prc]
            have = {x['u'] for x in vol['rows'] if x['sv'] == 'energy'}
            rr = [x for x in rates if x['u'] in have and (r.random() < 0.95)]
            mid = [self.demand()]
            if k == 0 and rr:
                if r.random() < 0.6:
                    hist = [{'u': x['u'], 'init': self.mw(0, self.cap[(x['u'], x['dt'])] / Q, 1.0)} for x in rr if r.random() < 0.9]
                    if hist:
                        mid.append({'ev': 'seed', 'hist': hist, 'rows': rr, 'el': self.el('ramp')})
            elif rr:
                mid.append({'ev': 'chain', 'rows': rr, 'el': self.el('ramp'), 'noserv': r.random() < 0.2})
            if self.fcas_sides and (k == 0 or fresh) and r.random() < 0.7:
                f = self.fcas_ev()
                mid += [f] if f and all(any(y['sv'] == x['sv'] for y in vol['rows']) for x in f['rows']) else []
            r.shuffle(mid)
            evs += mid + [self.dispatch()]
        return evs

    def rebid(self):
        """the same offers with new volumes and prices"""
        r = self.r
        vol, prc = [], []
        for v, p in zip(self.vol['rows'], self.prc['rows']):
            b = [int(max(1, round(x / Q * r.choice([0.5, 0.8, 1.0, 1.2, 1.5]))) * Q) if x else 0 for x in v['b']]
            vol.append(dict(v, b=b))
            prc.append(dict(p, p=[x + 2 * Q for x in p['p']] if r.random() < 0.5 else p['p']))
        self.vol = {'ev': 'vol', 'rows': vol}
        self.prc = {'ev': 'price', 'rows': prc}
        return [self.vol, self.prc]

    def history(self):
        """dispatch, redefine some of what is in force, dispatch again"""
        r = self.r
        evs = self.scenario()
        for _ in range(r.randint(1, 3)):
            now = {e['ev'] for e in evs}
            new = self.body()
            again = []
            if r.random() < 0.3:
                again += self.rebid()
                if r.random() < 0.5:
                    again = again[1:] if r.random() < 0.5 else again
            redo_inter = r.random() < 0.4 and any(e['ev'] == 'inter' for e in new) and any(e['ev'] == 'loss' for e in new) >= ('loss' in now)
            for e in new:
                if e['ev'] in ('inter', 'loss'):
                    if redo_inter:
                        again.append(e)
                elif e['ev'] == 'elastic':
                    if any(x['ev'] in ('gen', 'demand', 'fcas', 'cap') and {'demand': 'demand', 'fcas': 'fcas', 'cap': 'unit_bid_capacity', 'gen': 'generic'}[x['ev']] == e['key'] for x in again):
                        again.append(e)
                elif r.random() < 0.45:
                    again.append(e)
            if any(e['ev'] == 'vol' for e in again):
                if not any(e['ev'] == 'price' for e in again):
                    again.insert(1, self.prc)
                if 'jramp' in now and not any(e['ev'] == 'jramp' for e in again):
                    j = self.jramp_ev()
                    if j:
                        again.append(j)
                    else:
                        again = [e for e in again if e['ev'] not in ('vol', 'price')]
                if 'tie' in now and not any(e['ev'] == 'tie' for e in again):
                    again.append({'ev': 'tie', 'nano': 1000})
            if now & {'gen', 'fcas'} and self.p('el_again', 0.1):
                e = r.choice([x for x in evs + again if x['ev'] in ('gen', 'fcas')])
                key = {'gen': 'generic', 'fcas': 'fcas'}[e['ev']]
                ss = sorted({x['s'] for x in e['rows'] if r.random() < 0.3}) or ['UNUSED']
                again.append({'ev': 'elastic', 'key': key, 'el': {'k': 'sets', 'cs': [{'s': s, 'c': r.choice([300, 1000, 5000]) * Q} for s in ss]}})
            if 'fast' in now and r.random() < 0.3:
                again.append({'ev': 'unfast'})
            evs += again + self.runs()
        return evs

    def runs(self):
        r = self.r
        if not self.f.get('ocd'):
            return [self.dispatch()]
        out = [self.dispatch()]
        for _ in range(r.randint(1, 2)):
            o = {'on': True, 'ceil': r.choice([40, 100, 300, 700, 1500, 5000, 15000]) * Q, 'floor': -r.choice([0, 40, 300, 1000, 5000]) * Q,
                 'fceil': r.choice([15, 60, 400, 900, 1500, 5000, 15000]) * Q}
            if r.random() < 0.4:                      # a threshold exactly at the price, the others out of reach
                o = {'on': True, 'ceil': 15000 * Q, 'floor': -9000 * Q, 'fceil': 15000 * Q, 'at': r.choice(['ceil', 'floor', 'fceil'])}
            out.append(self.dispatch(ocd=o))
            if r.random() < 0.3:
                out.append(self.dispatch())
        return out


def make(seed, k, feat):
    rng = random.Random('%s/%s' % (seed, k))
    g = G(rng, feat)
    return {'id': 's%d' % k, 'seed': rng.randrange(1 << 30), 'ev': getattr(g, feat.get('shape', 'scenario'))()}
