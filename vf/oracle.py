"""Judging observed parses against the reference automaton."""


def ref_run(a, t, toks, silent=frozenset(), first_default=True, limit=100000, node0=100001):
    """LR run with values.  Returns (status, reds, pos, stack); reds = [(rule, args, pos)] for all rules.

    Token k (1-based) has value k; the n-th non-silent reduction makes node node0 + n - 1; a silent
    rule's value is that of its first symbol, or None (unknown).
    status: 'acc', 'err' (no action), 'na' (%nonassoc error), 'loop'.
    stack = [(state, value)] at the end.
    """
    g = a.g
    st = [0]
    vs = [None]
    pos = 0
    n = len(toks)
    reds = []
    node = node0
    steps = 0
    maxd = 1
    while True:
        steps += 1
        if steps > limit:
            return 'loop', reds, pos, None, maxd
        tok = toks[pos] if pos < n else 0
        ac = t.action[st[-1]].get(tok)
        if ac is None or ac[0] == 'n':
            return ('err' if ac is None else 'na'), reds, pos, list(zip(st, vs)), maxd
        if ac[0] == 's':
            st.append(ac[1])
            pos += 1
            vs.append(pos)
        elif ac[0] == 'a':
            return 'acc', reds, pos, list(zip(st, vs)), maxd
        else:
            i = ac[1]
            l, r = g.rules[i]
            k = len(r)
            args = vs[len(vs) - k:] if k else []
            if k:
                del st[-k:], vs[-k:]
            reds.append((i, args, pos))
            if i in silent:
                v = args[0] if (args and first_default) else None
            else:
                v = node
                node += 1
            if not a.augmented and l == g.start and len(st) == 1:
                return 'acc', reds, pos, [(0, None)], maxd
            st.append(a.trans[st[-1]][l])
            vs.append(v)
        if len(st) > maxd:
            maxd = len(st)


def same_args(ref, obs):
    return len(ref) == len(obs) and all(x is None or x == y for x, y in zip(ref, obs))


def match_reds(ref, obs, silent):
    """Compare visible reference reductions with observed (rule, args, ...) as a prefix; returns (n matched, message)."""
    vis = [x for x in ref if x[0] not in silent]
    for k, x in enumerate(vis):
        if k >= len(obs):
            return k, 'reduction %d (rule %d) missing; observed %d reductions' % (k, x[0], len(obs))
        if x[0] != obs[k][0]:
            return k, 'reduction %d is by rule %d, expected rule %d' % (k, obs[k][0], x[0])
        if not same_args(x[1], obs[k][1]):
            return k, 'reduction %d (rule %d) has operands %s, expected %s' % (k, x[0], obs[k][1], x[1])
    return len(vis), None


def explain_extras(a, stack, obs, silent, first_default, node, depth=0, budget=None):
    """Are the observed extra reductions (done by default before the error was noticed) possible in the LR(0) automaton?"""
    if not obs:
        return True
    if budget is None:
        budget = [3000]
    budget[0] -= 1
    if budget[0] < 0:
        return True
    if depth > 400:
        return True
    g = a.g
    st = stack[-1][0]
    for i in a.reds[st]:
        if i < 0:
            continue
        l, r = g.rules[i]
        k = len(r)
        args = [v for _, v in stack[len(stack) - k:]] if k else []
        base = stack[:len(stack) - k] if k else stack
        if l not in a.trans[base[-1][0]]:
            continue
        if i in silent:
            v = args[0] if args and first_default else None
            if explain_extras(a, base + [(a.trans[base[-1][0]][l], v)], obs, silent, first_default, node, depth + 1, budget):
                return True
        elif i == obs[0][0] and same_args(args, obs[0][1]):
            if explain_extras(a, base + [(a.trans[base[-1][0]][l], node)], obs[1:], silent, first_default, node + 1, depth + 1, budget):
                return True
    return False


def judge(a, t, toks, ob, silent=frozenset(), first_default=True):
    """ob: dict(acc=bool, err=None or position (0-based token index) of first error, reds=[(rule, args, lex)]).

    Returns (message or None, status, errpos)."""
    status, reds, pos, stack, _ = ref_run(a, t, toks, silent, first_default)
    if status == 'loop':
        return None, status, pos
    k, msg = match_reds(reds, ob['reds'], silent)
    nm = lambda i: a.g.name(toks[i]) if i < len(toks) else '$end'
    if status == 'acc':
        if not ob['acc']:
            return 'sentence rejected (error at %s%s)' % (ob['err'], '; ' + msg if msg else ''), status, pos
        if msg:
            return 'sentence accepted but %s' % msg, status, pos
        if len(ob['reds']) != k:
            return 'sentence accepted with %d reductions beyond the derivation' % (len(ob['reds']) - k), status, pos
        if ob['err'] is not None:
            return 'error reported on a sentence', status, pos
        for (r, args, p), o in zip([x for x in reds if x[0] not in silent], ob['reds']):
            if o[2] is not None and o[2] not in (p, p + 1):
                return 'reduction by rule %d with %d tokens requested, expected %d or %d' % (r, o[2], p, p + 1), status, pos
        return None, status, pos
    if ob['acc']:
        return 'non-sentence accepted (no action for token %d, %s)' % (pos, nm(pos)), status, pos
    if msg:
        return 'before the error %s' % msg, status, pos
    if ob['err'] is None:
        return 'rejected without an error report', status, pos
    if ob['err'] != pos:
        return 'error reported at token %d (%s), expected at token %d (%s)' % (ob['err'], nm(ob['err']), pos, nm(pos)), status, pos
    extra = ob['reds'][k:]
    if extra and not explain_extras(a, stack, extra, silent, first_default, 100001 + k):
        return 'impossible reductions before the error: %s' % ([x[:2] for x in extra],), status, pos
    return None, status, pos
