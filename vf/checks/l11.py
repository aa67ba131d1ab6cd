"""L11: lemon -S writes valid SQL that describes exactly the grammar."""
import random, sqlite3
from .. import le, bplain, lplain

TECH = 'runtime output monitor: the SQL written by the sanitized generator is loaded into SQLite and its tables are compared with the grammar that was written'
NOTE = 'Held on the runs observed; the comparison is complete for each grammar (symbols, fallbacks, precedences, rules, right-hand sides, marks, directives).'
TOOLS = ['lemon-san']
RULE = 'one evaluation = one symbol, precedence, fallback, rule or right-hand side position compared with the grammar; distinct nontrivial = distinct grammar texts compared'
ASSUMES = ['the sqlite3 library of Python decides what is valid SQL']


def plan(ctx):
    out = [[i] for i in range(700 * (10 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


def case(ctx, c):
    rng = c.rng
    g = lplain.grammar(rng)
    text, want = lplain.emit(g, rng)
    mode = rng.choice(['', '', '', '', '-u', '-z'])
    c.write('g.y', text)
    opts = ['-S', '-q'] + ([mode] if mode else []) + [o for o in ('-c', '-l', '-r', '-s', '-b') if rng.random() < 0.1]
    r = le.run_lemon(c, opts)
    files = {'g.y': text, 'cmd': 'lemon %s g.y\n' % ' '.join(opts), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    conf = le.conflicts(r.etext + r.text)
    if r.bad() or r.rc not in (0, 1):
        return c.violation('generator', '%s: %s (exit %s)' % (opts, r.bad() or 'fails', r.rc), files)
    try:
        files['g.sql'] = sql = open(c.path('g.sql'), 'rb').read()
    except OSError:
        return c.violation('generator', '%s: no g.sql (exit %s)\n%s' % (opts, r.rc, r.etext[:500]), files)
    if mode == '-u':
        want = dict(want, prec={}, rules=[(l, r_, None) for l, r_, _ in want['rules']])
    try:
        db = bplain.load_sql(sql.decode('latin-1'))
        got = lplain.parse_sql(db)
        if mode == '-u' and want['noprec'] <= got['terms'] <= want['terms']:
            want['terms'] = got['terms']
        msg = lplain.diff(got, want)
        nts = set(x for x, _, _ in want['rules']) | set(x for _, r_, _ in want['rules'] for x in r_ if isinstance(x, str)) | {'error'}
        if not msg and got['nts'] | {'error'} != nts:
            msg = 'nonterminals are %s' % sorted(got['nts'] ^ nts)
        view = [x[0] for x in db.execute('SELECT * FROM grammar_view').fetchall()]
    except (sqlite3.Error, sqlite3.Warning) as e:
        return c.violation('invalid-sql', 'SQLite says %s' % e, files)
    except (bplain.Bad, KeyError, TypeError) as e:
        return c.violation('tables', '%r' % e, files)
    if msg:
        return c.violation('tables', msg, files)
    files['view.y'] = view = '\n'.join(x for x in view if x is not None) + '\n'
    try:
        v = lplain.parse_g(view)
        if not v['terms'] - want['terms']:
            v['terms'] = want['terms']
        msg = lplain.diff(v, want)
    except (bplain.Bad, IndexError, ValueError) as e:
        msg = repr(e)
    if msg:
        return c.violation('view', 'grammar_view: ' + msg, files)
    c.write('v.y', view)
    r2 = le.run_lemon(c, ['-q', '-S'] + ([mode] if mode else []), 'v.y')
    if r2.slow:
        return c.inconclusive('generator slow')
    if r2.bad() or not want['single'] and (r2.rc != r.rc or le.conflicts(r2.etext) != conf):
        return c.violation('view', 'lemon on grammar_view: exit %s, %s, %d conflicts; on the grammar exit %s, %d conflicts\n%s' % (
            r2.rc, r2.bad(), le.conflicts(r2.etext), r.rc, conf, r2.etext[:400]), files)
    c.count('grammars with conflicts', int(conf > 0))
    c.evals += len(got['terms']) + len(got['nts']) + len(got['prec']) + len(got['fallback']) + sum(1 + len(x[1]) for x in got['rules']) + 3
    c.count('fallbacks', len(got['fallback']))
    c.count('classes', sum(1 for x in got['rules'] for p in x[1] if isinstance(p, tuple) and len(p) > 1))
    c.count('wildcards', int(got['wild'] is not None))
    c.count('explicit marks', sum(1 for x in got['rules'] if x[2]))
    c.count('rules', len(got['rules']))
    c.saw(text)
