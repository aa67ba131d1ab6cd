"""B13: byacc -S writes valid SQL that describes exactly the grammar."""
import random, sqlite3
from .. import by, bplain

TECH = 'runtime output monitor: the SQL written by the sanitized generator is loaded into SQLite, its tables are compared with the grammar that was written, and its grammar_view is run through the generator again'
NOTE = 'Held on the runs observed; the comparison is complete for each grammar (symbols, precedences, rules, right-hand sides, marks, start symbol).'
TOOLS = ['byacc-san', 'nbyacc-san']
RULE = 'one evaluation = one row (symbol, precedence, rule or right-hand side position) compared with the grammar; distinct nontrivial = distinct (grammar, spelling) compared'
ASSUMES = ['the sqlite3 library of Python decides what is valid SQL']


def plan(ctx):
    out = [[i] for i in range(600 * (10 if ctx.thorough else 1))]
    random.Random(ctx.seed).shuffle(out)
    return out


def case(ctx, c):
    rng = c.rng
    g = bplain.grammar(rng)
    nm = bplain.Names(g, rng)
    variant = 'byacc' if rng.random() < 0.6 else 'nbyacc'
    text, bare, mids = bplain.emit(g, nm, rng, btyacc=variant == 'byacc')
    mode = rng.choice(['', '', '', '', '-u', '-z'])
    c.write('g.y', text.encode('latin-1'))
    c.write('bare.y', bare.encode('latin-1'))
    opts = ['-S'] + ([mode] if mode else []) + [o for o in ('-d', '-v', '-l', '-t') if rng.random() < 0.1]
    r = by.run_byacc(c, variant, opts)
    files = {'g.y': text.encode('latin-1'), 'cmd': '%s %s g.y\n' % (variant, ' '.join(opts)), 'stderr': r.err}
    if r.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc:
        return c.violation('generator', '%s %s: %s (exit %s)\n%s' % (variant, opts, r.bad() or 'fails', r.rc, r.etext[:500]), files)
    sql = open(c.path('y.sql'), 'rb').read()
    files['y.sql'] = sql
    want = bplain.model(g, nm)
    try:
        db = bplain.load_sql(sql.decode('latin-1'))
        got = bplain.parse_sql(db)
        c.evals += sum(len(r) + 1 for _, r, _ in got[2]) + len(got[0]) + len(got[1]) + len(got[4])
        msg = bplain.diff(got, want, mode)
        if not msg and got[4] != set(nm.key[n] for n in range(g.T, g.T + g.N)):
            msg = 'nonterminals are %s' % got[4]
        view = '\n'.join(x[0] for x in db.execute('SELECT * FROM grammar_view').fetchall()) + '\n'
    except (sqlite3.Error, sqlite3.Warning) as e:
        return c.violation('invalid-sql', 'SQLite says %s' % e, files)
    except (bplain.Bad, KeyError, TypeError) as e:
        return c.violation('tables', '%r' % e, files)
    if msg:
        return c.violation('tables', msg, files)
    # the view as a grammar
    files.update({'view.y': view.encode('latin-1'), 'bare.y': bare.encode('latin-1')})
    c.write('view.y', files['view.y'])
    try:
        msg = bplain.diff(bplain.parse_plain(view), want, mode)
    except bplain.Bad as e:
        msg = str(e)
    if msg:
        return c.violation('view', 'grammar_view: ' + msg, files)
    o2 = ['-S', '-b', 'v'] + ([mode] if mode else [])
    r = by.run_byacc(c, variant, o2, 'view.y')
    r0 = by.run_byacc(c, variant, ['-b', 'w'] + ([mode] if mode else []), 'bare.y')
    if r.slow or r0.slow:
        return c.inconclusive('generator slow')
    if r.bad() or r.rc or r0.rc:
        return c.violation('view', 'byacc on grammar_view: exit %s, %s\n%s' % (r.rc, r.bad(), r.etext[:500]), files)
    if by.conflicts(r.etext) != by.conflicts(r0.etext):
        return c.violation('view', 'grammar_view has conflicts %s, the grammar without actions %s' % (by.conflicts(r.etext), by.conflicts(r0.etext)), files)
    db2 = bplain.load_sql(open(c.path('v.sql'), 'rb').read().decode('latin-1'))
    msg = bplain.diff(bplain.parse_sql(db2), want, mode)
    if msg:
        return c.violation('view', 'exported grammar_view: ' + msg, files)
    c.count('mid-rule actions', mids)
    c.count('string tokens', sum(1 for k in nm.key.values() if k[0] == 's'))
    c.count('literals', sum(1 for k in nm.key.values() if k[0] == 'c'))
    c.count('rules', len(g.rules))
    c.count('grammars with conflicts', int(by.conflicts(r.etext) != (0, 0)))
    c.saw(text)
