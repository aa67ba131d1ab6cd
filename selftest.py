#!/usr/bin/env python3
"""setup_cmd: the reference automata agree with independent constructions, and the tools the checks need are here."""
import os, sys, random, shutil, subprocess, sqlite3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import gen, oracle, env
from vf.lr import LALR, byacc_table, lemon_table, earley
from vf import ref_lr1


def main():
    for t in ('gcc', 'g++', 'clang', 'git'):
        if not shutil.which(t):
            print('missing tool', t)
            return 1
    rng = random.Random(int(os.environ.get('VERIF_SEED', '1') or 1))
    n = m = k = 0
    for cls in ('tiny', 'small', 'null', 'unit', 'gadget', 'expr', 'kw'):
        for _ in range(12):
            g = gen.conflict_free(rng, cls)
            a = LALR(g)
            ref_lr1.compare(a)
            n += 1
            t = byacc_table(a)
            I = gen.Inputs(g, a, rng)
            gr = g.reduce()
            for toks in I.many(t, 10, 15, 5, 20, 12, 30):
                if len(toks) > 25:
                    continue
                st, _, pos, _, _ = oracle.ref_run(a, t, toks)
                e = earley(g, toks)
                assert e == ((True, len(toks)) if st == 'acc' else (False, pos)), (g.text(), toks, e, st, pos)
                m += 1
    for _ in range(60):
        g = gen.ambiguous(rng)
        ref_lr1.compare(LALR(g))
        k += 1
    print('selftest: %d conflict-free and %d ambiguous grammars agree with canonical LR(1) merging, %d inputs agree with Earley' % (n, k, m))
    return 0


sys.exit(main())
