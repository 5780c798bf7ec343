"""check.py PROPERTY TIER: one property against /repo's tree. Exit 0 held, 1 violated, 2 no verdict."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vp
from plan import PLAN
from vp import ROOT, CheckError, Scratch


def known(prop):
    """findings recorded for this property: (key, text); fixed ones suppress nothing"""
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            w = line.strip().split(None, 3)
            if len(w) >= 3 and w[0] == 'finding:' and w[1] == 'property=' + prop:
                out.append((w[2], w[3] if len(w) > 3 else ''))
    return out


class Ctx:
    def __init__(self, prop, tier, seed, tmp):
        self.prop, self.tier, self.seed, self.tmp = prop, tier, seed, tmp
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        cases_executed=0, cases_nontrivial=0, model_checking=[], sources=[])
        self.violations = []  # (clause, record line, how)
        self._drv = {}
        self._tool = None

    def drv(self, race=False):
        if race not in self._drv:
            self._drv[race] = vp.build_driver(self.tmp, race)
        return self._drv[race]

    def tool(self):
        if not self._tool:
            self._tool = vp.build_tool(self.tmp)
        return self._tool

    def tally(self, r):
        self.cov['states'] += r['distinct']
        self.cov['transitions'] += r['generated']
        self.cov['traces_validated_against_impl'] += r['judged']


def sample(line):
    return json.loads(line) if len(line) < 1500 else line[:1200] + '...'


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    if prop == 'setup':
        with Scratch() as tmp:
            vp.build_driver(tmp)
            vp.build_tool(tmp)
        print('setup done')
        return 0
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = PLAN[prop]
    with Scratch() as tmp:
        ctx = Ctx(prop, tier, seed, tmp)
        for mod, cfg, tiers in spec.get('mc', []):
            if tier in tiers:
                r = vp.model_check(tmp, mod, cfg)
                ctx.cov['model_checking'].append(r)
                ctx.cov['states'] += r['states']
                ctx.cov['transitions'] += r['transitions']
        for src in spec['src']:
            src.run(ctx)
            if len(ctx.violations) >= 5:
                break
        kn = dict(known(prop))
        seen, new = set(), []
        for clause, line, how in ctx.violations:
            key = how.get('key')
            if key in kn:
                if key not in seen:
                    print('KNOWN-FINDING: property=%s %s' % (prop, kn[key]))
                seen.add(key)
            else:
                new.append((clause, line, how))
    for key, text in kn.items():
        if key not in seen:
            print('KNOWN-FINDING: property=%s %s' % (prop, text))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'model_checking'), coverage=ctx.cov,
              wall_s=round(time.time() - t0, 1), violations=len(new),
              assumptions=spec.get('assume', []))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    c = ctx.cov
    print('%s %s seed=%d: %d cases run (%d non-trivial), %d behaviours judged, %d states, %d transitions, %.0f s'
          % (prop, tier, seed, c['cases_executed'], c['cases_nontrivial'], c['traces_validated_against_impl'],
             c['states'], c['transitions'], time.time() - t0))
    if not new:
        return 0
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
    for k, (clause, line, how) in enumerate(new[:5]):
        path = os.path.join(ROOT, 'replays', '%s_%d.json' % (prop, k))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, clause=clause, replay=how, record=json.loads(line)), f, indent=1)
        print('  %s: %s' % (clause, json.dumps(how)[:300]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


if __name__ == '__main__':
    try:
        rc = main()
    except CheckError as e:
        print('ERROR', e)
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
