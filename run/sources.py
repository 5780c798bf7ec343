"""Sources of recorded behaviours for the checks."""
import json, os, subprocess
import vp
from vp import CheckError


def one(ctx, fam, seed, idx, race=False, timeout=60, env=None):
    """runs one case again; returns (line, None) or (None, 'panic'|'hang', message)"""
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run([ctx.drv(race), 'one', fam, str(seed), str(idx)], capture_output=True, text=True,
                           timeout=timeout, env=e)
    except subprocess.TimeoutExpired:
        return None, 'hang', 'no answer in %d s' % timeout
    if r.returncode == 3:
        raise CheckError(r.stderr[-1000:])
    if r.returncode != 0:
        return None, 'panic', r.stderr[:1500]
    return r.stdout.strip() + '\n', None, ''


def world_size(drv, fam):
    return int(subprocess.run([drv, 'size', fam], capture_output=True, text=True, check=True).stdout)


class Families:
    """random cases of some families, run on the real code, judged by a trace specification"""

    def __init__(self, fams, module, quick, keep, thorough=None, tkeep=None, race=False, total=True, env=None,
                 procs=None, rerun=True, hang_s=30, accept=False, tool=False, whole=False, most=None):
        self.fams, self.module, self.quick, self.keep = fams, module, quick, keep
        self.thorough, self.tkeep = thorough or quick * 20, tkeep or keep * 15
        self.race, self.total, self.env, self.procs, self.rerun, self.hang_s = race, total, dict(env or {}), procs, rerun, hang_s
        self.accept, self.tool = accept, tool
        self.most = most  # records judged: doubtful and short ones first
        self.whole = whole  # thorough: every case of these families
        if race:
            self.env['GORACE'] = 'halt_on_error=1 exitcode=66'

    def run(self, ctx):
        th = ctx.tier == 'thorough'
        count, keep = (self.thorough, self.tkeep) if th else (self.quick, self.keep)
        n = len(self.fams)
        drv = ctx.drv(self.race)
        if self.tool:
            self.env['VP_TOOL'] = ctx.tool()
        # in rounds, so that memory and disk stay bounded in the thorough tier
        rounds = max(1, (keep + 15999) // 16000)
        stats = {f: dict(family=f, executed=0, nontrivial=0, judged=0, abnormal=0, rejected=0) for f in self.fams}
        found = 0
        for k in range(rounds):
            lines = []
            for fam in self.fams:
                per = count // n // rounds
                if th and self.whole:
                    per = world_size(drv, fam) // rounds + 1
                r = vp.run_family(drv, ctx.tmp, fam, ctx.seed, per, keep // n // rounds, [ctx.prop], env=self.env,
                                  procs=self.procs or vp.CPUS, hang_s=self.hang_s, base=k * per)
                ctx.cov['cases_executed'] += r['executed']
                ctx.cov['cases_nontrivial'] += r['nontrivial']
                ls = vp.records(r['files'])
                if self.most and len(ls) > self.most:
                    mark = '"susp":["'
                    ls = sorted(ls, key=lambda l: (mark not in l, len(l)))[:self.most]
                for f in r['files']:
                    os.remove(f)
                st = stats[fam]
                st['executed'] += r['executed']
                st['nontrivial'] += r['nontrivial']
                st['abnormal'] += len(r['bad'])
                st['judged'] += len(ls)
                lines += [(fam, l) for l in ls]
                if ls and len(ctx.cov['samples']) < 3:
                    ctx.cov['samples'].append(sample(ls[len(ls) // 2]))
                if self.total:
                    for idx, what, msg in r['bad'][:2]:
                        found += self.confirm_bad(ctx, fam, idx, what, msg)
                elif r['bad']:
                    print('note: %d cases of %s did not return (%s); see C24' % (len(r['bad']), fam, r['bad'][0][1]))
            if self.module:
                j = vp.judge(ctx.tmp, self.module, [l for _, l in lines], [ctx.prop], accept=self.accept)
                ctx.tally(j)
                done = {}
                for i, p, cl in j['rejects']:
                    if p != ctx.prop or i in done:
                        continue
                    stats[lines[i][0]]['rejected'] += 1
                    done[i] = cl
                for i in list(done)[:4]:
                    self.confirm(ctx, lines[i][0], lines[i][1], done[i])
                    found += 1
            if found >= 4:
                break
        ctx.cov['sources'] += list(stats.values())

    def confirm(self, ctx, fam, line, clause):
        rec = json.loads(line)
        how = dict(family=fam, seed=ctx.seed, idx=rec['idx'],
                   cmd='vdrv one %s %d %d' % (fam, ctx.seed, rec['idx']))
        if self.rerun:
            again, bad, msg = one(ctx, fam, ctx.seed, rec['idx'], self.race, env=self.env)
            if again is None:
                how['again'] = bad
            else:
                j = vp.judge(ctx.tmp, self.module, [again], [ctx.prop], tag='c', accept=self.accept)
                ok = [x for x in j['rejects'] if x[1] == ctx.prop]
                if ok:
                    line, clause = again, ok[0][2]
                else:  # what was recorded did happen; it depends on the schedule
                    how['again'] = 'not every run'
        else:
            j = vp.judge(ctx.tmp, self.module, [line], [ctx.prop], tag='c', accept=self.accept)
            if not [x for x in j['rejects'] if x[1] == ctx.prop]:
                raise CheckError('the rejection of %s %d did not recur' % (fam, rec['idx']))
        ctx.violations.append((clause, line, how))

    def confirm_bad(self, ctx, fam, idx, what, msg):
        r = subprocess.run([ctx.drv(False), 'input', fam, str(ctx.seed), str(idx)], capture_output=True, text=True)
        if r.returncode != 0:
            raise CheckError('no input for %s %d: %s' % (fam, idx, r.stderr[-500:]))
        rec = json.loads(r.stdout)
        rec['outcome'] = 'race' if 'DATA RACE' in msg else what
        again, bad, msg2 = one(ctx, fam, ctx.seed, idx, self.race, env=self.env)
        if again is not None and what == 'hang': # slow, once
            print('note: %s %d took long once and then returned' % (fam, idx))
            return 0
        line = json.dumps(rec) + '\n'
        mod = self.module if self.module and 'outcome' in json.loads(r.stdout) else 'Total'
        j = vp.judge(ctx.tmp, mod, [line], [ctx.prop], tag='c', accept=self.accept)
        ctx.tally(j)
        for _, p, cl in j['rejects']:
            ctx.violations.append((cl, line, dict(family=fam, seed=ctx.seed, idx=idx, outcome=what, message=(msg2 or msg)[:800],
                                                  cmd='vdrv one %s %d %d' % (fam, ctx.seed, idx))))
            return 1
        return 0


def sample(line):
    return json.loads(line) if len(line) < 1500 else line[:1200] + '...'
