"""Grammar-aware mutation of generator inputs."""
import os, glob, random
from . import env, gen, by, le

YDICT = [b'%token', b'%left', b'%right', b'%nonassoc', b'%precedence', b'%type', b'%nterm', b'%term', b'%start', b'%union', b'%{', b'%}', b'%%',
         b'%prec', b'%expect', b'%expect-rr', b'%code', b'%code top {', b'%code requires {', b'%code provides {', b'%code imports {',
         b'%debug', b'%define', b'%define api.pure', b'%define api.prefix {', b'%define parse.error verbose', b'%define api.pure full //x',
         b'%destructor {', b'%destructor { free($$); } <*>', b'%destructor { free($$); } <>', b'%destructor { f(@$); } x',
         b'%error-verbose', b'%ident "x"', b'%initial-action { @$.first_line = 1; }', b'%lex-param {int x}', b'%parse-param {char *p}', b'%parse-param {int a[3]} {long b}',
         b'%locations', b'%pure-parser', b'%pure_parser', b'%token-table', b'%yacc', b'%binary', b'%empty', b'%prec A', b'%union { int i; char *s; }', b'%type <i> x',
         b'%type <i> x(<i>, <s>)', b'x($a, $b):', b'x($1, $2)', b'<i>', b'<s>', b'<a.b>', b'$$', b'$1', b'$-1', b'$0', b'$<i>1', b'$<i>-2', b'$<s>$', b'$999', b'$a', b'$<i>a', b'@$', b'@1', b'@-1', b'@99',
         b'{ $$ = $1; }', b'{ $$ = $<i>2; }', b'[ $$ = $1; ]', b'{', b'}', b'[', b']', b'(', b')', b"'a'", b"'\\n'", b"'\\''", b"'\\x41'", b"'\\x'", b"'\\xfff'", b"'\\377'", b"'\\777'", b"'\\8'", b"'ab'", b"''", b"'", b'"', b'"abc"', b'"a\\"b"', b'"\\', b'""',
         b'/*', b'*/', b'//', b'/* x */', b'\n', b'\r\n', b'\r', b'\t', b'\\', b'\0', b'\xff', b'\x80', b'|', b';', b':', b',', b'=', b'<', b'>', b'<>', b'<*>', b'%', b'#', b'#line 1 "x"', b'$', b'@', b'\\<', b'\\>', b'\\2', b'\\=', b'\\%', b'%0', b'%2', b'%<', b'%>',
         b'error', b'$accept', b'$end', b'.x', b'a.b', b'_', b'0', b'1', b'-1', b'255', b'256', b'257', b'300', b'32767', b'::=', b'x: ;', b'x: x ;', b'x: | x A ;', b'\n|', b'\n;', b'\n%%\n', b'error: A;', b'A: B;', b"'a': B;", b'$$1: A;']

LDICT = [b'%name X', b'%include {', b'%include', b'%code {', b'%token_destructor { f($$); }', b'%default_destructor { g($$); }', b'%token_prefix T_', b'%syntax_error {', b'%parse_accept { }', b'%parse_failure { }',
         b'%stack_overflow { }', b'%extra_argument { int *p }', b'%extra_context { int *p }', b'%token_type { int }', b'%default_type { int }', b'%stack_size 10', b'%stack_size 0', b'%stack_size {50}', b'%start_symbol x', b'%left A.', b'%right B C.',
         b'%nonassoc D.', b'%precedence E.', b'%destructor x { f($$); }', b'%type x { int }', b'%type x {char*}', b'%fallback A B C.', b'%fallback B A.', b'%token A B.', b'%wildcard ANY.', b'%token_class tc A|B|C.', b'%token_class tc A B.', b'%ifdef X', b'%ifndef X', b'%if X && !Y', b'%if (X||Y)', b'%if defined(X)',
         b'%else', b'%endif', b'%expect 1', b'%yacc_prec', b'%pure', b'%realloc r', b'%free f', b'%', b'%%', b'%x', b'%left', b'%type', b'%fallback',
         b'::=', b'->', b':', b'=', b'.', b'..', b'(A)', b'(B)', b'(', b')', b'[A]', b'[', b']', b'{', b'}', b'{ A = B; }', b'{ A = B + C; /* } */ }', b'{ @B }', b'{ "}" }', b"{ '}' }", b'{NEVER-REDUCE', b'{ %d }', b'A|B', b'A/B', b'|', b'/', b'//', b'/*', b'*/', b'"', b'"s"', b"'", b'#', b'\n', b'\r\n', b'\\', b'\0', b'\xff', b'\x80',
         b'error', b'error(E)', b'x ::= .', b'x ::= x A.', b'x(A) ::= y(B). { A = B; }', b'x ::= A|B y.', b'X ::= y.', b'$', b'{default}', b'_', b'A1', b'a_b', b'0', b'-1', b'99999', b'x y ::= A.', b'x(A)(B) ::= C.', b'// x\n', b'A B', b'/*A-overwrites-B*/', b'{ /*A-overwrites-B*/ A = B; }']


def base_y():
    out = []
    for f in sorted(glob.glob(os.path.join(env.REPO, 'byacc/test/*.y'))):
        out.append(open(f, 'rb').read())
    return out


LEMON_SEEDS = [b'''%name Calc
%token_type {int}
%type expr {int}
%left PLUS MINUS.
%left TIMES DIVIDE.
%right NOT.
%include { #include <stdio.h> }
%syntax_error { printf("err\\n"); }
%parse_accept { }
%extra_argument { int *res }
%destructor expr { (void)$$; }
program ::= expr(A). { *res = A; }
expr(A) ::= expr(B) PLUS expr(C). { A = B + C; }
expr(A) ::= expr(B) MINUS expr(C). { A = B - C; }
expr(A) ::= LP expr(B) RP. { A = B; }
expr(A) ::= NUM(B). { A = B; }
expr(A) ::= NOT expr(B). [NOT] { A = !B; }
''', b'''%fallback ID ABORT ACTION AFTER.
%wildcard ANY.
%token_class id ID|INDEXED.
%token SEMI.
%stack_size 50
input ::= cmdlist.
cmdlist ::= cmdlist ecmd.
cmdlist ::= ecmd.
ecmd ::= SEMI.
ecmd ::= cmd SEMI.
ecmd ::= error SEMI.
cmd ::= BEGIN|START trans_opt.
trans_opt ::= .
trans_opt ::= TRANSACTION nm.
nm ::= id.
nm ::= STRING|JOIN_KW.
cmd ::= anylist.
anylist ::= .
anylist ::= anylist ANY.
''', b'''%ifdef FOO
a ::= B.
%else
a ::= C D.
%endif
%if !BAR && (X || Y)
a ::= E.
%endif
%ifndef BAR
a ::= F a G.
%endif
%type a {struct node*}
%default_destructor { free($$); }
%token_destructor { free($$); }
%extra_context { int ctx; }
a(X) ::= H(Y) a(Z) I. { X = mk(Y,Z);  /* comment } */ char *s = "}"; }
''', b'''%yacc_prec
%expect 2
%start_symbol s
%token_prefix TK_
%token A B C.
%nonassoc LT GT.
%precedence UM.
s ::= e.
e ::= e LT e.
e ::= e GT e.
e ::= MINUS e. [UM]
e ::= A|B|C.
e ::= e A e.
''']


def gen_y(rng):
    g = gen.error_grammar(rng) if rng.random() < 0.4 else gen.ambiguous(rng)
    f = by.Full()
    if rng.random() < 0.5:
        f.loc = True
    if rng.random() < 0.5:
        g, f.mid, f.midof = by.add_midrules(rng, g, 2)
    if rng.random() < 0.4:
        f.tags = {x: rng.choice(['i', 'p', None]) for x in range(1, g.T + g.N)}
    f.dest = {}
    for x in range(g.T, g.T + g.N):
        if rng.random() < 0.3 and x not in f.midof:
            f.dest[x] = 'n%d' % x
    return by.emit_full(g, by.Spell(g, rng, num=0.1), rng, f).split('static int vf_codes')[0].encode('latin-1')


def gen_l(rng):
    g = le.start_ok(gen.ambiguous(rng, assocs='LRNP'))
    return le.emit_plain(g, le.Spell(g), rng).split('%code')[0].encode('latin-1')


def tokens(b):
    import re
    return re.findall(rb'[A-Za-z_][\w.]*|\d+|\s+|.', b, re.S)


def mutate(rng, b, others, dic):
    b = bytes(b)
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5, 8])):
        k = rng.randrange(16)
        n = len(b)
        if k <= 2:
            i = rng.randrange(n + 1)
            b = b[:i] + rng.choice([b'', b' ', b'\n']) + rng.choice(dic) + rng.choice([b'', b' ', b'\n']) + b[i:]
        elif k == 3 and n:
            t = tokens(b)
            i = rng.randrange(len(t))
            t[i] = rng.choice(dic)
            b = b''.join(t)
        elif k == 4 and n:
            t = tokens(b)
            i = rng.randrange(len(t))
            del t[i:i + rng.choice([1, 1, 2, 5])]
            b = b''.join(t)
        elif k == 5 and n:
            t = tokens(b)
            i, j = rng.randrange(len(t)), rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
            b = b''.join(t)
        elif k == 6 and n:
            ls = b.split(b'\n')
            i = rng.randrange(len(ls))
            del ls[i]
            b = b'\n'.join(ls)
        elif k == 7 and n:
            ls = b.split(b'\n')
            i, j = rng.randrange(len(ls)), rng.randrange(len(ls))
            ls.insert(i, ls[j])
            b = b'\n'.join(ls)
        elif k == 8 and n:
            b = b[:rng.randrange(n + 1)]
        elif k == 9 and n:
            b = b[rng.randrange(n):]
        elif k == 10 and n:
            i = rng.randrange(n)
            b = b[:i] + bytes([rng.randrange(256)]) + b[i + 1:]
        elif k == 11:
            o = rng.choice(others)
            ls, lo = b.split(b'\n'), o.split(b'\n')
            i, j = rng.randrange(len(ls)), rng.randrange(len(lo))
            ls[i:i] = lo[j:j + rng.randint(1, 6)]
            b = b'\n'.join(ls)
        elif k == 12 and n:
            i = rng.randrange(n)
            j = min(n, i + rng.choice([1, 3, 20, 200]))
            b = b[:i] + b[i:j] * rng.choice([2, 3, 10]) + b[j:]
        elif k == 13 and n:
            # stretch a name, string or number
            t = tokens(b)
            c = [i for i, x in enumerate(t) if x[:1].isalpha() or x[:1] in b'"\'']
            if c:
                i = rng.choice(c)
                m = rng.choice([30, 70, 130, 260, 600, 1100, 5000])
                t[i] = t[i][:1] + (rng.choice([b'x', b'Ab_', b'.', b'y9']) * m)[:m] + t[i][1:]
                b = b''.join(t)
        elif k == 14 and n:
            i = rng.randrange(n)
            b = b[:i] + rng.choice([b' ', b'\n', b'\t', b'(', b'{', b'x ', b'"', b"'", b'A ']) * rng.choice([50, 200, 1000, 3000]) + b[i:]
        elif k == 15 and n:
            i = rng.randrange(n)
            b = b[:i] + b[i + rng.choice([1, 1, 2, 10]):]
    return b[:60000]
