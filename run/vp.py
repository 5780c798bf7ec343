"""Runs the driver (real code, from /repo) and TLC (verdicts); see DESIGN.md."""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CPUS = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """the check itself failed: no verdict"""


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix='vp_')
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def go_env():
    env = dict(os.environ)
    return env


def build_driver(tmp, race=False):
    out = os.path.join(tmp, 'vdrv_race' if race else 'vdrv')
    cmd = ['go', 'build', '-trimpath'] + (['-race'] if race else []) + ['-o', out, '.']
    src = os.path.join(ROOT, 'driver')
    if REPO != '/repo':  # against a scratch copy of the code under check (development only)
        src = os.path.join(tmp, 'driver_src')
        if not os.path.isdir(src):
            shutil.copytree(os.path.join(ROOT, 'driver'), src)
            p = os.path.join(src, 'go.mod')
            s = open(p).read().replace('=> /repo', '=> ' + REPO)
            open(p, 'w').write(s)
    r = subprocess.run(cmd, cwd=src, env=go_env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('driver does not build against the code under check:\n' + r.stderr[-3000:])
    return out


def build_tool(tmp):
    out = os.path.join(tmp, 'toposimplify')
    r = subprocess.run(['go', 'build', '-trimpath', '-o', out, '.'], cwd=REPO, env=go_env(),
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise CheckError('the command line tool does not build:\n' + r.stderr[-3000:])
    return out


# ---------------------------------------------------------------- driver runs
def _read_progress(path):
    try:
        s = open(path).read(24)
        return int(s[:12]), int(s[12:24] or 0)
    except (OSError, ValueError):
        return None, 0


def run_chunk(drv, fam, seed, lo, hi, out, prog, quota, watch, hang_s=30, env=None, max_bad=40):
    """cases lo..hi-1; returns (executed, nontrivial, [(idx, 'panic'|'hang', message)])"""
    bad, nontriv, done, at = [], 0, 0, lo
    e = dict(os.environ)
    e.update(env or {})
    while at < hi:
        if os.path.exists(prog):
            os.remove(prog)
        err = open(prog + '.err', 'w+')
        p = subprocess.Popen([drv, 'run', fam, str(seed), str(at), str(hi), out, prog, str(quota), watch],
                             stderr=err, stdout=subprocess.DEVNULL, env=e)
        last, since, hung = None, time.time(), False
        while True:
            try:
                p.wait(timeout=0.5 if last is not None else 0.1)
                break
            except subprocess.TimeoutExpired:
                idx, _ = _read_progress(prog)
                if idx != last:
                    last, since = idx, time.time()
                elif time.time() - since > hang_s:
                    hung = True
                    p.kill()
                    p.wait()
                    break
        idx, nt = _read_progress(prog)
        nontriv += nt
        err.seek(0)
        msg = err.read()
        err.close()
        if p.returncode == 0 and not hung:
            done += hi - at
            break
        if p.returncode == 3 or idx is None:
            raise CheckError('driver failed: ' + fam + ' ' + msg[-2000:])
        if p.returncode == -9 and not hung:
            raise CheckError('driver was killed (out of memory?) in %s %d' % (fam, idx))
        bad.append((idx, 'hang' if hung else 'panic', msg[:1500]))
        done += idx - at
        at = idx + 1
        if len(bad) >= (4 if hung else max_bad):
            break
    return done, nontriv, bad


def run_family(drv, tmp, fam, seed, count, keep, watch, tag='', procs=CPUS, env=None, hang_s=30, base=0):
    """runs `count` cases of the family on all cores; returns dict with the record files"""
    per = (count + procs - 1) // procs
    jobs = []
    for k in range(procs):
        lo, hi = base + k * per, base + min(count, (k + 1) * per)
        if lo >= hi:
            continue
        o = os.path.join(tmp, 'r_%s%s_%d.nd' % (fam, tag, k))
        jobs.append((lo, hi, o, o + '.prog'))
    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(lambda j: run_chunk(drv, fam, seed, j[0], j[1], j[2], j[3],
                                              max(1, keep // len(jobs)), ','.join(watch), env=env, hang_s=hang_s), jobs))
    files = [j[2] for j in jobs if os.path.exists(j[2])]
    return dict(fam=fam, files=files, executed=sum(r[0] for r in res), nontrivial=sum(r[1] for r in res),
                bad=[b for r in res for b in r[2]])


def records(files):
    out = []
    for f in files:
        with open(f) as fh:
            out += [l for l in fh if l.strip()]
    return out


# ---------------------------------------------------------------------- TLC
STAT = re.compile(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found')
REJ = re.compile(r'"REJECT (\S+) (\d+) ([^"]*)"')


def tlc(tmp, module, cfg=None, env=None, workers=1, timeout=800, heap='3g', extra=(), name='x', short=False):
    e = dict(os.environ)
    e.update(env or {})
    meta = os.path.join(tmp, 'tlc_' + name)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xss512m', '-Xmx' + heap]
    cmd += ['-XX:TieredStopAtLevel=1'] if short else []
    cmd += ['-cp', JAR, 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', meta, '-workers', str(workers),
           '-config', os.path.join(SPEC, (cfg or module) + '.cfg')] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=tmp, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC did not finish %s in %d s' % (cfg or module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in STAT.finditer(r.stdout):
        pass
    gen, dist = (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)
    return dict(rc=r.returncode, out=r.stdout, err=r.stderr, generated=gen, distinct=dist)


ACC = re.compile(r'"(ACCEPT \S+|WIDE) (\d+)"')


def judge(tmp, module, lines, props, shards=CPUS, tag='j', timeout=800, accept=False):
    """verdicts of the specification on the records: list of (line index, property, clause)
    accept: a record is rejected unless the specification says it accepts it"""
    if not lines:
        return dict(rejects=[], generated=0, distinct=0, judged=0)
    pf = os.path.join(tmp, 'props_%s.json' % tag)
    with open(pf, 'w') as f:
        f.write(json.dumps(dict(props=list(props))) + '\n')
    # deal the records to the shards by size
    order = sorted(range(len(lines)), key=lambda i: -len(lines[i]))
    n = max(1, min(shards, (len(lines) + 39) // 40))
    parts = [[] for _ in range(n)]
    for pos, i in enumerate(order):
        k = pos % (2 * n)
        parts[k if k < n else 2 * n - 1 - k].append(i)

    def one(k):
        tf = os.path.join(tmp, 'trace_%s_%d.nd' % (tag, k))
        with open(tf, 'w') as f:
            f.writelines(lines[i] if lines[i].endswith('\n') else lines[i] + '\n' for i in parts[k])
        r = tlc(tmp, module, env=dict(VP_TRACE=tf, VP_PROPS=pf), name='%s_%d' % (tag, k), timeout=timeout,
                short=len(parts[k]) < 1200)
        rej = [(parts[k][int(m.group(2)) - 1], m.group(1), m.group(3)) for m in REJ.finditer(r['out'])]
        if r['rc'] != 0:
            raise CheckError('TLC failed on %s (exit %d):\n%s' % (module, r['rc'], r['out'][-3000:] + r['err'][-500:]))
        if accept:
            got = {int(m.group(2)) - 1 for m in ACC.finditer(r['out'])}
            rej += [(i, props[0], 'no-order') for pos, i in enumerate(parts[k]) if pos not in got]
        os.remove(tf)
        return rej, r

    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(n)))
    return dict(rejects=[x for r in res for x in r[0]], generated=sum(r[1]['generated'] for r in res),
                distinct=sum(r[1]['distinct'] for r in res), judged=len(lines))


def model_check(tmp, module, cfg, workers=CPUS, timeout=800, heap='12g'):
    """design-level model checking: the specification itself keeps its invariants"""
    r = tlc(tmp, module, cfg, workers=workers, timeout=timeout, heap=heap, name='mc_' + cfg)
    if r['rc'] != 0:
        raise CheckError('model checking %s failed (exit %d): the specification is wrong\n%s'
                         % (cfg, r['rc'], r['out'][-3000:]))
    return dict(config=cfg, states=r['distinct'], transitions=r['generated'])
