"""Entry point of every check:  check.py <property> [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Exit 2: the machinery failed.
"""
import argparse, collections, json, os, shutil, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import pipeline                                             # noqa: E402


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.violations = []          # dicts: clause, where, detail, case
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes = [], collections.OrderedDict()
        self.assumptions = []
        self.exhaustive = False

    def n(self, quick, thorough=None):
        return quick if self.tier == 'quick' else (thorough or quick * 8)

    def fail(self, kind, clause, where, detail, case):
        self.violations.append({'kind': kind, 'clause': clause, 'where': where, 'detail': detail, 'case': case})

    def count(self, key, k=1):
        self.notes[key] = self.notes.get(key, 0) + k

    def model(self, module, cfg, **kw):
        """check a model exhaustively; a broken model is a machinery failure, not a violation of the code"""
        txt, st, di = pipeline.tlc(module, cfg, self.work, **kw)
        self.states += di
        self.transitions += st
        self.notes.setdefault('models', []).append('%s/%s: %d distinct states' % (module, cfg, di))
        return txt


def known():
    """entries 'known: property=<id> <substring that identifies the failing case>'"""
    out = collections.defaultdict(list)
    f = os.path.join(ROOT, 'known-findings.txt')
    for l in open(f) if os.path.exists(f) else ():
        if l.startswith('known: property='):
            pid, what = l[len('known: property='):].strip().split(' ', 1)
            out[pid].append(what)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    import registry
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vp_%s_' % a.prop)
    ctx = Ctx(a.prop, a.tier if a.tier in ('quick', 'thorough') else 'quick', a.seed, work)
    try:
        if a.replay:
            registry.replay(ctx, json.load(open(a.replay)))
        else:
            registry.run(ctx)
    except Exception:
        traceback.print_exc()
        print('MACHINERY: the check for %s could not run' % a.prop)
        return 2
    finally:
        os.chdir('/')
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    kn = known()[a.prop]
    fresh = []
    for v in ctx.violations:
        sig = '%s %s %s' % (v['clause'], v['where'], v['detail'])
        hit = [k for k in kn if k in sig]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, hit[0]))
        else:
            fresh.append(v)
    ev = os.path.join(ROOT, 'evidence')
    os.makedirs(ev, exist_ok=True)
    cov = {'states': ctx.states, 'transitions': ctx.transitions, 'traces_validated_against_impl': ctx.traces,
           'samples': ctx.samples[:3], 'exhaustive': ctx.exhaustive}
    cov.update(ctx.notes)
    rec = {'property': a.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': 'model_checking', 'coverage': cov,
           'assumptions': ctx.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    if not a.replay:
        with open(os.path.join(ev, a.prop + '.json'), 'w') as f:
            json.dump(rec, f, indent=1)
    if fresh:
        rd = os.path.join(ev, 'replays')
        os.makedirs(rd, exist_ok=True)
        seen = collections.Counter(v['clause'] for v in fresh)
        v = fresh[0]
        path = os.path.join(rd, '%s.json' % a.prop)
        with open(path, 'w') as f:
            json.dump(dict(v, property=a.prop), f, indent=1)
        for c, k in seen.most_common(8):
            w = next(x for x in fresh if x['clause'] == c)
            print('  %d x %s: %s %s' % (k, c, w['where'], w['detail']))
        print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    print('OK property=%s tier=%s seed=%d traces=%d states=%d %.1fs' % (a.prop, ctx.tier, ctx.seed, ctx.traces, ctx.states, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
