"""L01: lemon parsers recognise exactly the language of a conflict-free grammar."""
import random, re
from .. import env, gen, by, le, oracle, huge
from ..lr import LALR, lemon_table, earley

TECH = 'runtime event monitor: generated parsers under ASan/UBSan against a reference LALR(1)/Earley oracle'
NOTE = 'Held on the executions observed: the event log of each generated parser is compared with an independent automaton.'
TOOLS = ['lemon-san']
RULE = ('one evaluation = one token sequence fed to a parser that lemon generated for a random or structured conflict-free grammar '
        '(varying options, random rules without code), its event log (Parse calls, reductions with operands, %syntax_error with '
        'its token, %parse_accept) compared with an independent LALR(1) automaton and, sampled, with an Earley recogniser; '
        'distinct nontrivial = distinct (grammar, input) with at least two tokens or a syntax error after a shift')
ASSUMES = ['the reference automaton (vf/lr.py), cross-checked by setup_cmd against canonical LR(1) merging and Earley']


def plan(ctx):
    n = dict(tiny=50, small=90, null=70, unit=70, medium=36, gadget=22, mix=28, expr=24, kw=30, long=24, large=20, nullrun=30, nullset=16, ctx=40, sized=24)
    k = 6 if ctx.thorough else 1
    out = [[cls, i] for cls in n for i in range(n[cls] * k)]
    random.Random(ctx.seed).shuffle(out)
    return [['edge', i] for i in range(28 * k)] + out


def measures(c, r):
    """What decides the types of the tables, from the generated file and the statistics."""
    t = open(c.path('g.c'), errors='replace').read()
    d = {k: int(v) for k, v in re.findall(r'(?m)^#define (YY\w+) +\(?(-?\d+)\)?$', t)}
    look = re.search(r'lookahead table entries\.+ +(\d+)', r.text + r.etext)
    return dict(action=d['YY_MAX_REDUCE'], symbols=d['YYNOCODE'], offset=int(look.group(1)), reduce=d.get('YY_REDUCE_MAX', 0)), t


def sized(ctx, c):
    """Tables whose largest entry is just below, at or above the limit of a type."""
    rng = c.rng
    x = c.spec[1]
    what = ['action', 'symbols', 'offset', 'reduce'][x % 4]
    hi = rng.random() < (0.7 if what != 'reduce' else 0)
    target = (255 if hi or what == 'symbols' else 127) + rng.choice([-1, 0, 0, 1, 1, 2, 3])
    big = huge.Big(rng, max(4, {'action': target // 4, 'symbols': 8, 'offset': target // 3, 'reduce': target // 3}[what] - rng.randint(2, 9)), rng.choice([2, 3, 5]))
    opts = ['-s'] + [o for o in ('-l',) if rng.random() < 0.5]
    last = None
    for _ in range(14):
        text = big.build().lemon()
        c.write('g.y', text)
        r = le.run_lemon(c, opts, cpu=25)
        files = {'cmd': 'lemon ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err[:3000]}
        if len(text) < 300000:
            files['g.y'] = text
        if r.slow:
            return c.inconclusive('generator slow')
        if r.bad() or r.rc != 0:
            return c.violation('generator', 'lemon on %d rules: %s (exit %s)\n%s' % (len(big.rules), r.bad(), r.rc, r.etext[:500]), files)
        m, ctext = measures(c, r)
        d = target - m[what]
        if d == 0:
            c.count('reached the wanted size')
            break
        if what == 'symbols':
            big.units = max(0, big.units + d)
        elif what == 'action':
            if d % 2 and big.threes == 0 and d >= 3:
                big.threes, d = 1, d - 3
            big.units = max(0, big.units + int(d / 2))
        else:
            q = int(d / 2) or (1 if d > 0 else -1)
            if d < 0 and big.units + q < 0:
                big.n = max(4, big.n + q)
            else:
                big.units = max(0, big.units + q)
        if (big.n, big.units, big.threes) == last:
            break
        last = (big.n, big.units, big.threes)
    c.count('%s %s the limit of a type' % (what, 'at' if abs(m[what] - target) <= 3 else 'away from'))
    # gcc tells about initialisers that do not fit their type
    rc, msg = env.compile_c(['g.c'], 'p', ['-Woverflow', '-Werror=overflow'], san=True, cwd=c.dir)
    if rc:
        return c.violation('compile', 'tables of %s do not fit or do not compile:\n%s' % (m, msg[:1500]), files)
    huge.check(c, big, 'lemon %s, %s' % (' '.join(opts), m), files, env.run)


def case(ctx, c):
    if c.spec[0] == 'edge':
        return sized(ctx, c)
    cls, i = c.spec
    rng = c.rng
    g = le.start_ok(gen.conflict_free(rng, cls))
    a = LALR(g, augmented=False)
    t = lemon_table(a)
    if t.conf:
        raise env.HarnessError('conflicts in a conflict-free grammar')
    opts = [o for o in ('-c', '-l', '-q', '-s', '-r', '-p') if rng.random() < 0.2]
    if cls == 'kw' or cls == 'long':
        opts = [o for o in opts if o != '-r']
    silent = frozenset(j for j in range(len(g.rules)) if rng.random() < rng.choice([0, 0.15, 0.4]))
    sp = le.Spell(g)
    text = le.emit_plain(g, sp, rng, silent, stack=rng.choice([None, 0, 400]))
    c.write('g.y', text)
    r = le.run_lemon(c, opts)
    files = {'g.y': text, 'cmd': 'lemon ' + ' '.join(opts) + ' g.y\n', 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc != 0:
        return c.violation('generator', 'lemon %s on a conflict-free grammar: %s (exit %s)\n%s' % (
            opts, r.bad() or 'fails', r.rc, r.etext[:1500]), files)
    if le.conflicts(r.etext):
        return c.violation('conflicts', '%d conflicts reported for a conflict-free grammar' % le.conflicts(r.etext), files)
    rc, msg = env.compile_c(['g.c'], 'p', cwd=c.dir, flags=['-DNDEBUG'] if rng.random() < 0.3 else [])
    if rc:
        return c.violation('compile', 'the generated parser does not compile:\n' + msg[:2000], files)
    I = gen.Inputs(g, a, rng)
    inputs = [x for x in I.many(t, cover=500 if ctx.thorough else 260) if len(x) < 380 or True]
    ref = {}
    lines = by.drive(c, './p', inputs, 'lemon ' + ' '.join(opts), files)
    if lines is None:
        return
    earl = set(rng.sample(range(len(inputs)), min(len(inputs), 25)))
    for k, (toks, line) in enumerate(zip(inputs, lines)):
        ob = le.parse_line(line)
        if ob['over']:
            c.count('overflow')
            continue
        c.evals += 1
        o = dict(acc=ob['acc'] is not None, err=ob['errs'][0][0] if ob['errs'] else None, reds=ob['reds'])
        m, status, pos = oracle.judge(a, t, toks, o, silent, first_default=False)
        if not m:
            if status == 'acc' and (ob['acc'] != len(toks) or ob['fail'] or ob['tok'] != len(toks) + 1):
                m = 'accepted at token %s of %d%s' % (ob['acc'], len(toks), ' and failed' if ob['fail'] else '')
            elif status == 'err':
                want = (pos, toks[pos] if pos < len(toks) else 0, pos + 1 if pos < len(toks) else 0)
                if len(ob['errs']) != 1:
                    m = '%%syntax_error called %d times' % len(ob['errs'])
                elif ob['errs'][0] != want:
                    m = '%%syntax_error got (position, token, value) %s, expected %s' % (ob['errs'][0], want)
                elif ob['fail'] != (pos == len(toks)):
                    m = '%%parse_failure %s' % ('called' if ob['fail'] else 'not called')
        if not m and k in earl and len(toks) <= 60:
            e = earley(g, toks)
            c.count('earley')
            if e != ((True, len(toks)) if status == 'acc' else (False, pos)):
                raise env.HarnessError('oracles disagree: earley %s, LALR %s %s' % (e, status, pos))
        if m:
            f = dict(files)
            f['input'] = by.feed([toks])
            f['events'] = line
            return c.violation('language', 'lemon %s: %s\ninput: %s\nevents:%s' % (
                opts, m, ' '.join(g.name(x) for x in toks), line[:1500]), f)
        c.count('accepted' if status == 'acc' else 'rejected')
        if len(toks) >= 2 or (status != 'acc' and pos > 0):
            c.saw(g.rules, tuple(toks))
        if status == 'acc' and len(toks) > 3:
            c.sample(dict(grammar=g.text()[:600], input=[g.name(x) for x in toks], events=line[:300]))
    c.count('grammars')
    c.count('states', a.nstates)
    c.count('reductions', sum(x.count(' r') for x in lines))
    for o in opts:
        c.count('option ' + o)
