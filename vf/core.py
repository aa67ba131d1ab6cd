"""Case runner, verdicts, known findings, evidence."""
import os, sys, json, time, random, shutil, tempfile, hashlib, traceback, multiprocessing as mp, importlib, signal
from . import env

KF = os.path.join(env.VERIF, 'known-findings.txt')
SOFT = {'quick': 560, 'thorough': 780}


def known(pid):
    out = []
    if os.path.exists(KF):
        for l in open(KF):
            if l.startswith('finding: '):
                p = l.split(None, 3)
                if p[1] == 'property=' + pid:
                    out.append((p[2].split('=', 1)[1], p[3].strip()))
    return out


class Case:
    """What one case did: collected in the worker, sent to the parent."""

    def __init__(self, ctx, spec):
        self.ctx = ctx
        self.spec = spec
        self.rng = random.Random('%s:%s:%s' % (ctx.seed, ctx.pid, json.dumps(spec)))
        self.evals = 0
        self.nontriv = set()
        self.stats = {}
        self.samples = []
        self.viol = []
        self.incon = []
        self.dir = None

    def h(self, *a):
        return hashlib.md5(repr(a).encode()).hexdigest()[:12]

    def saw(self, *key):
        """Count a distinct nontrivial case."""
        self.nontriv.add(self.h(*key))

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def sample(self, s):
        if len(self.samples) < 1:
            self.samples.append(s if isinstance(s, str) and len(s) < 1500 else str(s)[:1500])

    def violation(self, key, msg, files=None):
        self.viol.append(dict(key=key, msg=msg[:6000], files={k: (v if isinstance(v, str) else v.decode('latin-1'))
                                                               for k, v in (files or {}).items()}))

    def inconclusive(self, why):
        self.incon.append(str(why)[:300])

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def write(self, name, text):
        if isinstance(text, str):
            text = text.encode('latin-1')
        with open(self.path(name), 'wb') as f:
            f.write(text)
        return self.path(name)


class Ctx:
    def __init__(self, pid, tier, seed, scratch, mod):
        self.pid, self.tier, self.seed, self.scratch, self.mod = pid, tier, seed, scratch, mod
        self.thorough = tier == 'thorough'
        self.tools = None
        self.deadline = None

    def tool(self, n):
        return self.tools.path(n)


_ctx = None


def _work(spec):
    ctx = _ctx
    c = Case(ctx, spec)
    if time.time() > ctx.deadline:
        return ('skipped', spec, None)
    c.dir = tempfile.mkdtemp(prefix='c', dir=ctx.scratch)
    try:
        ctx.mod.case(ctx, c)
        return ('ok', spec, (c.evals, c.nontriv, c.stats, c.samples, c.viol, c.incon))
    except Exception:
        return ('error', spec, traceback.format_exc() + '\n' + '; '.join(v['msg'][:300] for v in c.viol))
    finally:
        shutil.rmtree(c.dir, ignore_errors=True)


def _init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 and not argv[1].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--case' in argv:
        only = json.loads(argv[argv.index('--case') + 1])
    limit = int(argv[argv.index('--limit') + 1]) if '--limit' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('vf.checks.' + pid.lower())
    scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid, dir=os.environ.get('VF_TMP', '/tmp'))
    os.chmod(scratch, 0o755)
    global _ctx
    ctx = _ctx = Ctx(pid, tier, seed, scratch, mod)
    ctx.deadline = t0 + SOFT[tier]
    try:
        try:
            ctx.tools = env.Tools(scratch, mod.TOOLS)
            if hasattr(mod, 'setup'):
                mod.setup(ctx)
        except env.BuildError as e:
            print('ERROR: %s' % e)
            return 3
        cases = [only] if only is not None else mod.plan(ctx)
        if limit:
            cases = cases[:limit]
        tot = dict(evals=0, viol=[], incon=[], errors=[], skipped=0, done=0)
        nontriv = set()
        stats = {}
        samples = []
        kf = known(pid)
        kfkeys = {k for k, _ in kf}
        seen_kf = set()
        stop = False

        def take(res):
            nonlocal stop
            st, spec, r = res
            if st == 'skipped':
                tot['skipped'] += 1
            elif st == 'error':
                tot['errors'].append((spec, r))
            else:
                tot['done'] += 1
                ev, nt, s, sm, vi, inc = r
                tot['evals'] += ev
                nontriv.update(nt)
                for k, v in s.items():
                    stats[k] = stats.get(k, 0) + v
                if len(samples) < 6:
                    samples.extend(sm)
                tot['incon'] += inc
                for v in vi:
                    v['spec'] = spec
                    if v['key'] in kfkeys:
                        seen_kf.add(v['key'])
                        stats['known:' + v['key']] = stats.get('known:' + v['key'], 0) + 1
                    else:
                        tot['viol'].append(v)
                if len(tot['viol']) >= 25:
                    stop = True
        if only is not None or limit == 1:
            for s in cases:
                take(_work(s))
        else:
            with mp.get_context('fork').Pool(min(env.NCPU, max(1, len(cases))), initializer=_init) as pool:
                for r in pool.imap_unordered(_work, cases, chunksize=1):
                    take(r)
                    if stop:
                        pool.terminate()
                        break
        for k in sorted(stats):
            print('  %s: %s' % (k, stats[k]))
        for k, txt in kf:
            if k in seen_kf:
                print('KNOWN-FINDING: property=%s %s' % (pid, txt))
        out = os.path.join(env.VERIF, 'out', pid)
        shutil.rmtree(out, ignore_errors=True)
        rc = 0
        if tot['viol']:
            rc = 1
            for i, v in enumerate(tot['viol'][:10]):
                d = os.path.join(out, str(i))
                os.makedirs(d, exist_ok=True)
                for n, t in v['files'].items():
                    with open(os.path.join(d, os.path.basename(n)), 'wb') as f:
                        f.write(t.encode('latin-1', 'replace'))
                with open(os.path.join(d, 'README'), 'w') as f:
                    f.write('property=%s key=%s\n%s\n\nreplay: VERIF_SEED=%d python3 run.py %s %s --case %r\n'
                            % (pid, v['key'], v['msg'], seed, pid, tier, json.dumps(v['spec'])))
                print('VIOLATION property=%s replay=%s' % (pid, d))
                print('   [%s] %s' % (v['key'], v['msg'][:1200 if i < 3 else 150].replace('\n', '\n   ')))
        ncases = len(cases)
        if tot['errors']:
            print('%d harness errors, first: %s\n%s' % (len(tot['errors']), tot['errors'][0][0], tot['errors'][0][1]))
            if rc == 0:
                rc = 2
        if rc == 0 and only is None and (tot['evals'] == 0 or tot['done'] < ncases * 0.3):
            print('ERROR: too little observed: %d of %d cases, %d evaluations' % (tot['done'], ncases, tot['evals']))
            rc = 2
        if rc == 0 and tot['incon'] and len(tot['incon']) > 0.2 * max(5, ncases):
            print('ERROR: inconclusive: %s' % tot['incon'][:5])
            rc = 2
        if only is None:
            ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
                      coverage=dict(evaluations=tot['evals'], distinct_nontrivial=len(nontriv), rule=mod.RULE,
                                    samples=samples[:6] or ['none'], cases=ncases, cases_done=tot['done'],
                                    cases_skipped_for_time=tot['skipped'], inconclusive=len(tot['incon']), observed=stats),
                      assumptions=getattr(mod, 'ASSUMES', []), wall_s=round(time.time() - t0, 2), violations=len(tot['viol']))
            os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(env.VERIF, 'evidence', pid + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print('%s %s: %d cases (%d skipped), %d evaluations, %d distinct nontrivial, %d violations, %d inconclusive, %.1f s'
              % (pid, tier, tot['done'], tot['skipped'], tot['evals'], len(nontriv), len(tot['viol']), len(tot['incon']), time.time() - t0))
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
