"""Inputs for the conformance checks: families of (options, bytes), seeded."""
import itertools
import json
import os
import random
from itertools import chain as chain_

HERE = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(HERE, '../spec/tables.json')))
NAMES = [bytes(n).decode() for n, _ in T['long']]
NAMEOF = {c: bytes(n).decode() for n, c in T['long']}
OPNAMES = [NAMEOF[c] for c, _ in T['ops'] if c in NAMEOF]

DEFAULT = ('N', 'L', 4, 'N', '-')


def opts(rng, flb='NNNCS', conv='LLC', tab=(4, 4, 1, 2, 8), enc='NNB', quirks=('-', '-', 'i', 'f', 'o', 'ifo')):
    return (rng.choice(flb), rng.choice(conv), rng.choice(tab), rng.choice(enc), rng.choice(quirks))


def job(o, b):
    if isinstance(b, str):
        b = b.encode('utf-8', 'surrogatepass')
    return '%s %s %d %s %s %s' % (o[0], o[1], o[2], o[3], o[4], b.hex() or '.')


ASCII_OPS = ':: ::[ := :> : . .. ... = == === =!= _ __ ___ _. < <| << <> <= <-> > >> >>> >= - -> -- -= | |> || |-> ; ;; ! != !! # ## & && / /@ /; /. //. //@ //= // /: /= /* @ @@ @@@ @* + ++ += ~ ~~ ? ?? * *= ** *) ^ ^= ^:= ^: , [ ] { } ( ) (* \' % %% %%%'.split()
ATOMS = ['a', 'b1', 'x`y', '`z', '$a', '1', '0', '23', '1.5', '.5', '2^^101', '16^^fF', '1`3', '1``3.', '1*^3', '1*^-3', '36^^z.z', '"s"', '"a\\"b"', '_', '#', '#1', '#a', '##', '%', '%2', 'a_', 'a_b', '_b', '__', 'a__', '_.', '\\[Alpha]', '\u00e9', '\\:0061', '\\(x\\)', '(*c*)', '(* (* *) *)']
SPACES = [' ', '\t', '\n', '\r\n', '\r', '  ', '\\\n', '\\\r\n ', '\\\r', '\x0c', '\u00a0', '\u2028', '\\[InvisibleSpace]', '\\[IndentingNewLine]']
ERRORS = ['\\', '\\[', '\\[Foo]', '\\[foo]', '\\:00', '\\:00g0', '\\.1', '\\.zz', '\\|0000', '\\|110000', '\\:d800', '\\12', '\\9', '\\a', '*)', '"', '(*', '\\(', '\\)', '\x00', '\x7f', '\x07', '\ufeff', '\ue000', '\uf7c1', '\\!', '\\ ', '\\@', '\\`', '\\<', '\\n', '`', '`1', 'a`', '^:', '~', '\\"', '\\\\', '\\.5c', '\\.22', '\\[RawBackslash]', '\\[RawDoubleQuote]', '\\[RawLeftBracket]', '\\.5b', '\\[CloseCurlyQuote]', '\\[LeftAssociation]', '\\[RightAssociation]', '\\[Integral]', '\\[DifferentialD]', '\\[COMPATIBILITYNoBreak]', '\\[AutoSpace]']
FRAG = ATOMS + ASCII_OPS + SPACES + ERRORS


def words(alphabet, lo, hi):
    for n in range(lo, hi + 1):
        for w in itertools.product(alphabet, repeat=n):
            yield ''.join(w)


def sample(rng, it, n):
    """n elements of an iterable, all of them if there are no more."""
    xs = it if isinstance(it, list) else list(it)
    return xs if len(xs) <= n else rng.sample(xs, n)


def rand_frag(rng, n, frags=FRAG, lo=0, hi=10, bytes_=0.08, names=0.05, **kw):
    for _ in range(n):
        w = []
        for _ in range(rng.randint(lo, hi)):
            r = rng.random()
            w.append('\\[%s]' % rng.choice(NAMES) if r < names else rng.choice(frags))
        b = ''.join(w).encode('utf-8', 'surrogatepass')
        if rng.random() < bytes_:
            i = rng.randint(0, len(b))
            b = b[:i] + bytes([rng.randint(0, 255)]) + b[i:]
        yield job(opts(rng, **kw), b)


def rand_bytes(rng, n, hi=24):
    for _ in range(n):
        b = bytes(rng.choice((rng.randint(0, 255), rng.randint(32, 126), 0xC2 + rng.randint(0, 60), 0x80 + rng.randint(0, 63))) for _ in range(rng.randint(0, hi)))
        yield job(opts(rng), b)


def all_bytes():
    """every byte and every pair of a byte with a boundary byte, alone and after text"""
    for x in range(256):
        yield job(DEFAULT, bytes([x]))
        yield job(DEFAULT, b'a' + bytes([x]) + b'b')
        yield job(('N', 'C', 4, 'N', '-'), b'"' + bytes([x]) + b'"' + bytes([x]))


# ---------------------------------------------------------------- unterminated
LINES = ['', ' ', 'foo[x', '  y_Integer,', '] := 1', 'a = b', 'a=b', ' a = b', 'f[x] := 2', 'f[x] == 2', 'Begin["`P`"]', 'Needs["A`"]', 'EndPackage[]',
         '(* :Name: x *)', '(* ::Package:: *)', '(*:x*)', '(*(*:x*)*)', '(* x *)', '(* : (* *) *)', '\t(* : *)', 'x', '\u00e9\u00e9 = 1', 'a\u00e9[1] := 2', '\ufeffa = 1', '\\', 'a\t= b',
         'Clear[a', 'SetAttributes[f, HoldAll]', 'System`Private`NewContextPath[]', 'Package[', 'Get["x"]', 'BeginPackage [x]', 'Foo[x]=', ']=1', '] = 1', ']; a=1', 'a :=', '\x0b', '1 = 2', '"s" = 2', 'a[b][c]=1', 'a [', '(*', '"']


def unterminated(rng, n, openers=('"', '(*', '\\(', '"a', '(* b', 'x "', 'f[ (*', '\t"', '\u00e9 "', '\\\n"', '"\\(', '(* (* *)', '\\( \\( \\)'), **kw):
    for _ in range(n):
        pre = rng.choice(['', '', 'x\n', ' ', 'a;\r\n', '\t', '\u00e9', 'f[x]\n\n'])
        body = [rng.choice(openers)]
        for _ in range(rng.randint(0, 5)):
            body.append(rng.choice(['\n', '\n', '\r\n', '\r']))
            body.append(rng.choice(LINES))
        yield job(opts(rng, **kw), pre + ''.join(body) + rng.choice(['', '', '\n', '\n\n', ' ', '\r']))


# --------------------------------------------------------------------- numbers
NUMCH = ['1', '0', '7', '.', '`', '^', '*', '+', '-', 'a', 'Z']
NUMFR = ['1', '0', '10', '2', '3', '16', '36', '37', '1000000', '.', '..', '`', '``', '^', '^^', '*', '*^', '+', '-', 'a', 'f', 'Z', 'g', '_', ' ', '\\\n', '/', '=', ',', '(*', '\u00e9', '^=', '\\.31', '**', '@', '`a']


def numbers(rng, n):
    for _ in range(n):
        k = rng.randint(1, 8)
        yield job(opts(rng, flb='N'), ''.join(rng.choice(NUMFR) for _ in range(k)))


def number_grammar(rng, n):
    D = lambda ds, lo=0, hi=3: ''.join(rng.choice(ds) for _ in range(rng.randint(lo, hi)))
    for _ in range(n):
        s = rng.choice(['', '', 'a', '-', 'x ', '#', '%', 'a=', '.', '/', '_'])
        ds = '0123456789'
        if rng.random() < .4:
            s += rng.choice(['2', '16', '36', '10', '1', '0', '37', '016', '00', '99', '100', '8', '02']) + '^^'
            ds = rng.choice(['01', '0123456789abcdefABCDEF', '0189', '0az', 'zZ9', '0123456789'])
        s += D(ds, 0, 4)
        if rng.random() < .5:
            s += '.' + D(ds)
        r = rng.random()
        if r < .4:
            s += '`' + ('`' if rng.random() < .5 else '') + rng.choice(['', '', '+', '-']) + D('0129', 0, 2) + rng.choice(['', '.', '.5', '..', '.a'])
        if rng.random() < .5:
            s += '*' + rng.choice(['^', '^', '', '^^']) + rng.choice(['', '', '+', '-']) + D('0019', 0, 2) + rng.choice(['', '', '.', '.5', '..'])
        s += rng.choice(['', '', 'a', '.', '..', '^', '^^', '`', '_', ' ', '*', '\\\n1', '(*', '"', '=', '\\[Alpha]', ',1'])
        yield job(opts(rng, flb='N'), s)


def base_digits(rng, n=0):
    """every base with every digit: first, after a good one, and in the fraction; and n random ones"""
    al = '0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
    for b in list(range(41)) + [99, 100, 256, 1000, 4294967298, 4294967312, 18446744073709551618]:
        for d in al:
            yield job(DEFAULT, '%d^^%s' % (b, d))
            yield job(DEFAULT, rng.choice(['%d^^1%s', '%d^^1.%s', '%d^^0%s.', '%d^^.%s', '-%d^^%s1', '%d^^%s`5', '%d^^1%s*^2', '%d^^%s..', '%d^^10%sz']) % (b, d))
    for _ in range(n):
        b = rng.randint(2, 36)
        ok = ''.join(c for c in al if int(c, 36) < b)
        s = ''.join(rng.choice(ok) for _ in range(rng.randint(1, 6)))
        k = rng.randint(0, len(s))
        if rng.random() < .6: s = s[:k] + rng.choice(al) + s[k:]
        if rng.random() < .4: k = rng.randint(0, len(s)); s = s[:k] + '.' + s[k:]
        yield job(opts(rng, flb='N'), '%s%d^^%s%s' % (rng.choice(['', '0', '00', '-']), b, s, rng.choice(['', '', '`', '`3', '``2', '*^3', '*^-1', '..', ' ', 'a', '_'])))


# --------------------------------------------------------------------- escapes
def escapes(rng, n):
    H = '0123456789abcdefABCDEF'
    ctx = [('', ''), ('a', 'b'), ('"', '"'), ('(*', '*)'), ('1', '2'), ('\\', ''), ('_', ''), ('#', ''), ('a`', 'b'), ('<<', ''), ('a::', 'b'), ('\\(', '\\)'), ('', '\\\n1')]
    for _ in range(n):
        r = rng.random()
        if r < .3:
            k = rng.choice([2, 4, 6])
            v = rng.choice([rng.randint(0, 0x7f), rng.randint(0, 0xff), rng.randint(0, 0xffff), rng.choice([0xd7ff, 0xd800, 0xdfff, 0xe000, 0xfeff, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xf7c9, 0xf74c, 0x22, 0x5c, 0xa, 0xd, 0x9]),
                            rng.choice(T['ops'])[0], rng.choice(T['long'])[1], rng.choice(T['ws']), rng.choice(T['nl']), rng.choice(T['unint'])])
            h = '%0*x' % (k, max(v, 0))
            h = h[-k:] if rng.random() < .9 else h[:k - 1]
            if rng.random() < .3:
                h = h.upper()
            e = {2: '\\.', 4: '\\:', 6: '\\|'}[k] + h
        elif r < .4:
            e = '\\' + ''.join(rng.choice('01234567') for _ in range(rng.choice([3, 3, 3, 1, 2]))) + rng.choice(['', '8', '7'])
        elif r < .7:
            nm = rng.choice(NAMES)
            if rng.random() < .3:
                nm = rng.choice([nm[:-1], nm + 'x', nm.lower(), nm + '1', nm[0], nm + ' ', nm + '_'])
            e = '\\[' + nm + (']' if rng.random() < .9 else '')
        elif r < .8:
            e = '\\' + chr(rng.randint(32, 126))
        elif r < .9:
            e = rng.choice(['\\.', '\\:', '\\|']) + ''.join(rng.choice(H + 'gG ]') for _ in range(rng.randint(0, 7)))
        else:
            e = rng.choice(ERRORS)
        if rng.random() < .15:
            i = rng.randint(1, len(e))
            e = e[:i] + rng.choice(['\\\n', '\\\r\n', '\n', ' ']) + e[i:]
        a, z = rng.choice(ctx)
        yield job(opts(rng, flb='N'), a + e + z)


def all_names(rng=None, ctx=(('', ''), ('a', 'b'))):
    for n in NAMES:
        for a, z in ctx:
            yield job(DEFAULT, '%s\\[%s]%s' % (a, n, z))


def near_names(rng, n):
    for _ in range(n):
        x = list(rng.choice(NAMES))
        i = rng.randrange(len(x))
        k = rng.random()
        if k < .3: x[i] = rng.choice('ABCXYZabcxyz019')
        elif k < .6: del x[i]
        else: x.insert(i, rng.choice('ABCabc01'))
        yield job(DEFAULT, '\\[%s]' % ''.join(x))


def all_codepoints(rng, n):
    """the characters the tables name, their neighbours, and a sample of the rest"""
    cps = set()
    for c, _ in T['ops']:
        cps |= {c - 1, c, c + 1}
    for _, c in T['long']:
        cps |= {c - 1, c, c + 1}
    for c in T['ws'] + T['nl'] + T['unint'] + T['notstrange'] + [0x279d, 0x29f4, 0xf0000, 0xffffd, 0x100000, 0x10fffd, 0xf8ff, 0xfdd0, 0xfdef, 0x1fffe, 0xfeff]:
        cps |= {c - 1, c, c + 1}
    cps |= set(range(0, 0x180)) | {0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff} | set(range(0xf7b8, 0xf7d4)) | set(range(0x2000, 0x2070))
    cps |= {rng.randint(0x80, 0x10ffff) for _ in range(n)} | {rng.randint(0x80, 0xffff) for _ in range(n)}
    for c in sorted(cps):
        if c < 0 or 0xd800 <= c < 0xe000:
            continue
        yield job(DEFAULT, rng.choice(['a%s1', 'a%s1', 'a%s1', '"%s"', '(*%s*)', '%sx', 'a::%s', '"\\[Alpha]%s', '#%s', '1 + %s']) % chr(c))


# ---------------------------------------------------------------------- UTF-8
def utf8(rng, n):
    L = [0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff]
    C = [0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbb, 0xbe, 0xbf, 0xc0, 0xff, 0x0a, 0x5c]
    two = [bytes([a, b]) for a in range(0xc0, 0x100) for b in [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0]]
    seqs = [bytes([a]) for a in range(256)] + two
    three = [bytes([a]) + bytes(t) for a in L for t in itertools.product(C, repeat=2)]
    four = [bytes([a]) + bytes(t) for a in L if a >= 0xe0 for t in itertools.product(C, repeat=3)]
    seqs += sample(rng, three, n) + sample(rng, four, n)
    for s in seqs:
        a, z = rng.choice([(b'', b''), (b'', b''), (b'a', b'b'), (b'"', b'"'), (b'\xc3\xa9', b'\n'), (b'(*', b'*)'), (b'\\', b''), (b'\\[', b']'), (b'#', b'')])
        yield job(opts(rng, flb='N', tab=(4,)), a + s + z)


# ------------------------------------------------------------------ operators
def op_pairs(rng, n):
    """ASCII operators next to each other and to characters that could extend them"""
    ch = list('a1_.`=<>-|;!#&/@+~?*^:,()[]{}\'%"\\ \n\t\u00e9')
    pairs = [a + b for a in ASCII_OPS for b in ASCII_OPS] + [a + c for a in ASCII_OPS for c in ch] + [a + c + d for a in ASCII_OPS for c in ch for d in ch]
    for w in sample(rng, pairs, n):
        if rng.random() < .15:
            i = rng.randint(1, len(w))
            w = w[:i] + rng.choice(['\\\n', '\\\r\n', '\\\n  ']) + w[i:]
        yield job(opts(rng, flb='N'), rng.choice(['', '', 'a', ' ']) + w + rng.choice(['', '', 'b']))


def positions(rng, n):
    fr = ['a', '\t', '\t\t', ' ', '\n', '\r\n', '\r', '\u00e9', '\u2211', '\U0001d400', '"\t\n\u00e9"', '(*\n\t*)', '(*\r*)', '"\r\n"', '\\\n', '\\\r\n\t', '\\\r', '+', '1', '[', ']', '{', '}', '\\[Alpha]', '_', '#', ',', '\\(\n\\)', '\x00', '\x0b', '\x0c', '::', '<<', '\u2028', '\\[IndentingNewLine]']
    for _ in range(n):
        b = ''.join(rng.choice(fr) for _ in range(rng.randint(1, 14))).encode()
        if rng.random() < .15:
            i = rng.randint(0, len(b)); b = b[:i] + bytes([rng.randint(128, 255)]) + b[i:]
        yield job(opts(rng, conv='LC', tab=(1, 2, 3, 4, 5, 8)), b)


def script(rng, n):
    pre = ['#!', '#', '# !', '#\\\n!', '!#', ' #!', '##!', '#!!', '#a!', '#1', '\n#!', '#!=', '#(**)!', '#\n!', '\ufeff#!', '#!\\\n', '\\[RawNumberSign]!', '\\.23!', '#!\u00e9', '#!/bin/sh "', '#!(*', '#!/a\\']
    for _ in range(n):
        s = rng.choice(pre) + ''.join(rng.choice(FRAG) for _ in range(rng.randint(0, 4))) + rng.choice(['', '\n', '\r\n', '\r', '\\\n', '"\n"', '(*\n*)', '\u2028']) + ''.join(rng.choice(FRAG) for _ in range(rng.randint(0, 5)))
        yield job(opts(rng), s)


SYMFR = ['a', 'B', '$', '1', '0', '`', '``', '\\[Alpha]', '\u00e9', '_', '.', '\\\n', '\\:0061', '\\.31', '\x00', '\x1f', '\x7f', '\\[FormalA]', '\U0001d400', ' ', '\\[DoubleStruckA]', "'", '\\.60', '\\[RawBackquote]']


def symbols(rng, n):
    for _ in range(n):
        yield job(opts(rng, flb='N'), rng.choice(['', '', '#', '##', '%', 'x::', '_']) + ''.join(rng.choice(SYMFR) for _ in range(rng.randint(1, 7))))


STRFR = ['"', '\\"', '\\\\', '\\', 'a', '(*', '*)', '*', ')', '(', '\n', '\r\n', '\\\n', '\\[Alpha]', '\\:0022', '\\.22', '\\.5c', '\\042', '\\(', '\\)', '\\*', '\t', '\u00e9', '\\<', '\\>', ' ', '\\[RawDoubleQuote]', '\\|000022', '\\[RawLeftParenthesis]*', '\\.28*', '(\\.2a']


def strings(rng, n):
    for _ in range(n):
        yield job(opts(rng, flb='N'), ''.join(rng.choice(STRFR) for _ in range(rng.randint(1, 10))))


# ------------------------------------------------------------ trees: operators
_A = {':': 'Colon', ':=': 'ColonEqual', ':>': 'ColonGreater', '.': 'Dot', '..': 'DotDot', '...': 'DotDotDot', '=': 'Equal', '==': 'EqualEqual', '===': 'EqualEqualEqual', '=!=': 'EqualBangEqual',
      '<': 'Less', '<<': 'LessLess', '<>': 'LessGreater', '<=': 'LessEqual', '<->': 'LessMinusGreater', '>': 'Greater', '>>': 'GreaterGreater', '>>>': 'GreaterGreaterGreater', '>=': 'GreaterEqual',
      '-': 'Minus', '->': 'MinusGreater', '--': 'MinusMinus', '-=': 'MinusEqual', '|': 'Bar', '||': 'BarBar', '|->': 'BarMinusGreater', ';': 'Semi', ';;': 'SemiSemi', '!': 'Bang', '!=': 'BangEqual', '!!': 'BangBang',
      '&': 'Amp', '&&': 'AmpAmp', '/': 'Slash', '/@': 'SlashAt', '/;': 'SlashSemi', '/.': 'SlashDot', '//.': 'SlashSlashDot', '//@': 'SlashSlashAt', '//=': 'SlashSlashEqual', '//': 'SlashSlash', '/:': 'SlashColon', '/=': 'SlashEqual', '/*': 'SlashStar',
      '@': 'At', '@@': 'AtAt', '@@@': 'AtAtAt', '@*': 'AtStar', '+': 'Plus', '++': 'PlusPlus', '+=': 'PlusEqual', '~': 'Tilde', '~~': 'TildeTilde', '?': 'Question', '??': 'QuestionQuestion', '*': 'Star', '*=': 'StarEqual', '**': 'StarStar',
      '^': 'Caret', '^=': 'CaretEqual', '^:=': 'CaretColonEqual', ',': 'Comma', "'": 'SingleQuote', '::': 'ColonColon', '\\!': 'LinearSyntax_Bang'}
TEXT = {k: t for t, k in _A.items()}
for c, k in T['ops']:
    if c in NAMEOF:
        TEXT.setdefault(k, '\\[%s]' % NAMEOF[c])
PRE = dict(T['pre'])
INF = dict(T['inf'])
INFIX = sorted(k for k, p in INF.items() if k in TEXT and p[0] not in ('InfixAssertFalseParselet', 'InfixToplevelNewlineParselet', 'InfixImplicitTimesParselet', 'PostfixOperatorParselet', 'CallParselet', 'InfixDifferentialDParselet'))
POSTFIX = sorted(k for k, p in INF.items() if p[0] == 'PostfixOperatorParselet' and k in TEXT)
PREFIX = sorted(k for k, p in PRE.items() if p[0] == 'PrefixOperatorParselet' and k in TEXT)
INTEGRALS = sorted(k for k, p in PRE.items() if p[0] == 'IntegralParselet')
OPENERS = [(a, b) for a, b in T['pairs']]
TEXT.update(OpenParen='(', CloseParen=')', OpenSquare='[', CloseSquare=']', OpenCurly='{', CloseCurly='}', LessBar='<|', BarGreater='|>', ColonColonOpenSquare='::[')
OPENTEXT = [TEXT[a] for a, _ in OPENERS]
CLOSETEXT = sorted({TEXT[b] for _, b in OPENERS})


def rep(kinds, table):
    """one operator of each precedence and rule"""
    seen = {}
    for k in kinds:
        p = table[k]
        seen.setdefault((p[0], p[1] if len(p) > 1 else None), k)
    return sorted(seen.values())


INFREP, POSTREP, PREREP = rep(INFIX, INF), rep(POSTFIX, INF), rep(PREFIX, PRE)


def sp(rng, p=.5, xs=(' ', ' ', '(*c*)', '  ', '\t')):
    return rng.choice(xs) if rng.random() < p else ''


def chain_expr(rng, ops, spaced=True):
    """operands joined by the given operators (kinds), with prefix and postfix operators in between"""
    s = ''
    n = 0
    for k in ops + [None]:
        if rng.random() < .2:
            s += TEXT[rng.choice(PREFIX)] + ' '
        s += 'abcdefgh'[n % 8]
        n += 1
        if rng.random() < .12:
            s += ' ' + TEXT[rng.choice(POSTFIX)]
        if k:
            s += ' ' + TEXT[k] + ' '
    return s


def lines(rng, exprs, per=12, **kw):
    """several expressions per input, one per line"""
    buf = []
    for e in exprs:
        buf.append(e)
        if len(buf) == per:
            yield job(opts(rng, flb='N', **kw), '\n'.join(buf))
            buf = []
    if buf:
        yield job(opts(rng, flb='N', **kw), '\n'.join(buf))


def all_op_pairs(rng, n):
    """a op1 b op2 c for ordered pairs of binary operators: all pairs of representatives of the precedence
    levels, then a sample of all pairs"""
    X = [TEXT[k] for k in INFREP]
    prs = [(x, y) for x in X for y in X]
    al = [TEXT[k] for k in INFIX]
    prs += [(x, rng.choice(X)) for x in al] + [(rng.choice(X), x) for x in al]
    prs += [(rng.choice(al), rng.choice(al)) for _ in range(n)]
    return ('a %s b %s c' % p for p in prs)


def unary_mix(rng, n):
    al = [TEXT[k] for k in INFIX]
    X = [TEXT[k] for k in INFREP]
    pr = [TEXT[k] for k in PREFIX] + [TEXT[k] for k in INTEGRALS]
    po = [TEXT[k] for k in POSTFIX] + ['[x]', '::[x]', '\\[LeftDoubleBracket]x\\[RightDoubleBracket]', '\\[DifferentialD] x']
    for p in pr:
        for x in X:
            yield '%s a %s b' % (p, x)
        for q in po:
            yield '%s a %s' % (p, q)
    for q in po:
        for x in X:
            yield 'a %s b %s' % (x, q)
            yield 'a %s %s b' % (q, x)
    for p in pr:
        for p2 in pr:
            yield '%s %s a' % (p, p2)
    for q in po:
        for q2 in po:
            yield 'a %s %s' % (q, q2)
    for _ in range(n):
        yield rng.choice(['%s a %s b', 'a %s b %s', 'a %s %s b']) % (rng.choice(pr + po), rng.choice(al))


def chains(rng, n, lo=2, hi=7, xs=None):
    xs = xs or INFIX
    for _ in range(n):
        w = [rng.choice(xs if rng.random() < .5 else INFREP) for _ in range(rng.randint(1, 3))]
        yield chain_expr(rng, [rng.choice(w) for _ in range(rng.randint(lo, hi))])


# ---------------------------------------------- trees: grammar with mutations
def grammar(rng, depth=4):
    """tokens of a random expression"""
    g = lambda: grammar(rng, depth - 1)
    r = rng.random()
    if depth <= 0 or r < .18:
        return [rng.choice(['a', 'b', 'x', '1', '2.5', '"s"', '#', '#2', '##', '%', '%3', '_', '__', 'x_', 'x_h', '_h', 'y__', 'z___', '_.', 'x_.', '\\[Pi]', '%%', 'f`g', '#a'])]
    if r < .5:
        k = rng.choice(INFIX if rng.random() < .5 else INFREP)
        t = TEXT[k]
        out = g()
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            if INF[k][0] == 'ColonColonParselet':
                out += [t, rng.choice(['tag', '"tag"'])]
            elif k in ('GreaterGreater', 'GreaterGreaterGreater'):
                out += [t, rng.choice(['file', '"f"', 'a/b.m', 'x`y`', ' f[1]'])]
            else:
                out += [t] + g()
        return out
    if r < .58:
        return [TEXT[rng.choice(PREFIX)]] + g()
    if r < .64:
        return g() + [TEXT[rng.choice(POSTFIX)]]
    if r < .76:
        a, b = rng.choice(OPENERS)
        if rng.random() < .5:
            a, b = rng.choice([('OpenParen', 'CloseParen'), ('OpenCurly', 'CloseCurly'), ('LessBar', 'BarGreater')])
        out = [TEXT[a]]
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            if i:
                out.append(',')
            if rng.random() < .9:
                out += g()
        return out + [TEXT[b]]
    if r < .88:
        a, b = rng.choice([('[', ']'), ('[', ']'), ('[', ']'), ('::[', ']'), ('\\[LeftDoubleBracket]', '\\[RightDoubleBracket]')])
        out = g() + [a]
        if a == '[' and rng.random() < .3:
            return out + ['['] + g() + [']', ']']
        for i in range(rng.choice([0, 1, 1, 2, 3])):
            if i:
                out.append(',')
            if rng.random() < .9:
                out += g()
        return out + [b]
    return rng.choice([lambda: g() + ['~'] + g() + ['~'] + g(), lambda: ['x', ':'] + g() + rng.choice([[], [':'] + g()]), lambda: ['f', '/:'] + g() + [rng.choice(['=', ':='])] + g(),
                       lambda: g() + ['=', '.'], lambda: ['f', '/:'] + g() + ['=', '.'], lambda: g() + [';'] + rng.choice([[], g()]), lambda: rng.choice([[], g()]) + [';;'] + rng.choice([[], g()]) + rng.choice([[], [';;'] + rng.choice([[], g()])]),
                       lambda: [TEXT[rng.choice(INTEGRALS)]] + g() + rng.choice([[], ['\\[DifferentialD]'] + g()]), lambda: ['<<', rng.choice(['f', '"f"', 'a`b`'])], lambda: g() + g(), lambda: ['x_', ':'] + g()])()


TRIV = ['', '', ' ', ' ', '\n', '(*c*)', '\t', '  ', ' \n ', '\\\n', '\r\n', '(* (* *) \n *)', '\\[NoBreak]', '\\[IndentingNewLine]']


def join(rng, toks, triv, p=.5):
    out = ''
    for t in toks:
        sepd = rng.choice(triv) if rng.random() < p else ''
        if not sepd and out and (out[-1].isalnum() or out[-1] in '$`') and (t[0].isalnum() or t[0] in '$`'):
            sepd = ' '
        out += sepd + t
    return out + (rng.choice(triv) if rng.random() < p else '')


def mutate(rng, toks, n):
    toks = list(toks)
    for _ in range(n):
        if not toks:
            break
        i = rng.randrange(len(toks))
        r = rng.random()
        if r < .4:
            del toks[i]
        elif r < .6:
            toks.insert(i, rng.choice(ASCII_OPS + ERRORS + CLOSETEXT + OPENTEXT))
        elif r < .8:
            toks[i] = rng.choice(ASCII_OPS + ATOMS)
        else:
            j = rng.randrange(len(toks))
            toks[i], toks[j] = toks[j], toks[i]
    return toks


def exprs(rng, n, mut=(0, 0, 0, 1, 2), triv=TRIV, p=.4, depth=(1, 2, 3, 4), cap=40, **kw):
    for _ in range(n):
        t = mutate(rng, grammar(rng, rng.choice(depth))[:cap], rng.choice(mut))
        yield job(opts(rng, **kw), join(rng, t, triv, rng.choice([0, p, p, .9])))


def brackets(rng, n, hi=12):
    fr = ['a', ',', '+', ' ', '\n', ';', 'f', '-', '_', '::', ';;', '"s"', '(*c*)', ':', '~', '=', '&']
    for _ in range(n):
        op = [rng.randrange(len(OPENERS)) for _ in range(rng.randint(1, 3))]
        w, stack = '', []
        for _ in range(rng.randint(1, hi)):
            r = rng.random()
            if r < .3:
                k = rng.choice(op); w += TEXT[OPENERS[k][0]]; stack.append(k)
            elif r < .5 and stack:
                w += TEXT[OPENERS[stack.pop()][1]]
            elif r < .62:
                w += TEXT[OPENERS[rng.choice(op)][1]]
            elif r < .66:
                w += rng.choice(CLOSETEXT)
            else:
                w += rng.choice(fr)
        if rng.random() < .5:
            while stack:
                w += TEXT[OPENERS[stack.pop()][1]]
        yield job(opts(rng, flb='N'), w)


def small(rng, alphabet, k, n):
    """all words of length up to k over the alphabet; a sample of n of them if there are more"""
    for w in sample(rng, list(words(alphabet, 1, k)), n):
        yield job(opts(rng, flb='N', conv='LLC', tab=(4,), enc='N', quirks=('-',)), w)


SPAN = ['a', ';;', '\n', ' ', ';', ',', '[', ']', '+']
COLON = ['a', ':', '_', 'a_', '+', '|', '=', ' ', '(', ')', ';;']
MISSING = ['a', '+', '*', '-', ',', ';', ' ', '{', '}', '\n', '!']
FORMS = ['a', '~', '/:', '=', ':=', '.', '::', '<<', '>>', ' ', '\n', '\\[Integral]', '\\[DifferentialD]', '#', '_', '"s"', '1', ':', '-', '[', ']', '%', 'b']
NEWLINES = ['a', '\n', '+', ' ', '(', ')', ';', '-', '*', '(*c*)', '\\\n', '1', "'", '&']


# tokens that the parser treats in a way of their own when they meet another token
MEET = [';;', ';', ',', '\\[InvisibleComma]', ':', '=', '=.', '.', ':=', '^=', '/:', '~', '::', '::[', '<<', '>>', '>>>', '#', '##', '_', '__', '_.', 'a_', '%', '%%', '-', '+', '!', '!!', '++', '[', ']', '(', ')', '{', '}', '<|', '|>',
        '&', "'", '?', '??', '*', '/', '\n', '"s"', '1', 'a', '<', '==', '\\[VectorLess]', '\\[DifferentialD]', '\\[CapitalDifferentialD]', '\\(', '\\)', '\\!', '\\[ImplicitPlus]', '\\[LeftDoubleBracket]', '\\[RightDoubleBracket]', '\\[InvisibleApplication]', '@', '\\', '\\[Foo]'] + sorted(TEXT[k] for k in INTEGRALS if k in TEXT)
AROUND = [('', ''), ('', ' b'), ('a ', ' b'), ('a ', ''), ('{', '}'), ('f[x, ', ', y]'), ('', '\nb'), ('a', 'b')]


def meets(rng, n):
    """pairs of tokens side by side: all pairs of those above, and some of those with any other"""
    every = sorted(set(TEXT.values()))
    for x in MEET:
        for y in MEET:
            for _ in range(1 if n < 8000 else 3):
                a, b = rng.choice(AROUND)
                yield job(opts(rng), a + x + rng.choice(('', '', ' ', '(*c*)', '\n')) + y + b)
    for _ in range(n):
        x, y = rng.choice(MEET), rng.choice(every)
        if rng.random() < .5: x, y = y, x
        a, b = rng.choice(AROUND)
        yield job(opts(rng), a + x + rng.choice(('', ' ')) + y + b)


def frags(rng, n, fr, lo=1, hi=9, **kw):
    for _ in range(n):
        yield job(opts(rng, **kw), ''.join(rng.choice(fr) for _ in range(rng.randint(lo, hi))))


def open_groups(rng, n):
    return unterminated(rng, n, openers=('{', '(', 'f[', '[', '<|', '{a, (b', '(a; {', 'f[x, \\[LeftDoubleBracket]', '\\[LeftCeiling]', '{"s', 'g[ (* c *) 1,', '{ ]', '( } {', '::[', '{\\(', 'f[x_] := {', '\u00e9{', '{;', '{,'))


def big(rng, n):
    """longer inputs: deep nesting and long runs of one or two operators"""
    for _ in range(n):
        k = rng.randint(20, 80)
        o, c = rng.choice([('{', '}'), ('(', ')'), ('f[', ']'), ('<|', '|>'), ('a[[', ']]'), ('f::[', ']'), ('(*', '*)'), ('\\(', '\\)')])
        x = rng.choice(['a + ', 'a ', 'a, ', 'a; ', '-', '!', 'a^', 'a /: ', 'a ~ ', 'a :: ', 'a : ', 'a ;; ', 'a = ', '_ ', '\n', '\\\n', 'f @ ', 'a // ', 'a == b < ', '#', "a'", 'a & ', '\t', '1.', '"s"', '<< ', 'a >> ', '\\[Integral]'])
        y = rng.choice([x, '', 'b '])
        w = rng.choice([o * k, o * k + 'a' + c * k, o * k + 'a' + c * (k - 1), c * k, (x + y) * k, o + (x + y) * k + c, (o + x) * (k // 2), (x + o) * (k // 2) + c * (k // 3)])
        yield job(opts(rng), w)


SIZES = (33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300)
RUNS = ['1', 'a', '0', 'z9', 'a`', '%', ' ', '\t', '\n', '\\\n', '\r\n', 'é', '\u2500', '\\[Alpha]', '\\:03b1', '\\101', '#', "'", '!', '_', '+', '-', '.', ';', ',', '^', '~', '?', '@', '/', '|', '&', '(', ')', '[', ']', '{', '}', '<|', '|>', '"', '\\', '(*', '*)',
        'ab ', 'a+', 'a,', 'a;', 'a\n', '"s"', '"\n"', '(*c*)', 'a b', '1.5 ', 'f@', 'a/', 'a->', '(a)', '[a]', '{b,', '\\[Foo]', '\\(a\\)', '\\!', '\\$', '\x7f', '\xa0', 'a::b ', 'x_', '$', '**', '==', '<>', '>>a\n']
WRAPS = [('', ''), ('', ''), ('a', 'b'), ('"', '"'), ('(*', '*)'), ('1.', ''), ('16^^', ''), ('1*^', ''), ('2`', ''), ('`', ''), ('#', ''), ('%', ''), ('\\[', ']'), ('<<', ''), ('a::', ''), ('f[', ']'), ('{', '}'), ('(', ')'), ('"', ''), ('(*', ''), ('f[', ''), ('\n', '\n'), ('x ', ' y'), ('"a', '\n"'), ('\t', '\t"\n"')]


DIGITS = ['1', '0', '9', '12', 'z', 'f', '1.', '.1', '`', '``', '*^1', '^^1', '1`', '-', '1 ', '+1', '\\\n1']
NUMBERS = [('', ''), ('', '.5'), ('1.', ''), ('.', ''), ('16^^', ''), ('2^^', '.1'), ('36^^', ''), ('1*^', ''), ('1*^-', ''), ('1.*^', ''), ('1`', ''), ('1``', ''), ('1``-', ''), ('1`1', '*^3'), ('', '^^1'), ('1`', '.'), ('', '`'), ('', '*^1'), ('a', ''), ('%', ''), ('#', ''), ('##', '')]
ESCAPES = ['\\[Alpha]', '\\:03b1', '\\101', '\\.41', '\\|01d7d9', '\\n', '\\\\', '\\"', '\\[Foo]', '\\:00', '\\\n', '\\\r\n', '\\[', '\\', 'A', 'a1', '\\[RawSpace]', '\\(', '\\ ', '\\9']
CHAINS = ['a+', 'a-', 'a b ', '2^', 'a=', 'f@', 'x//', 'a==', 'a<b>', 'a|', 'a:', 'a~', 'a->', '-', '!', '+', '++', '--', "a'", 'a!', 'a&', '@@', '@@@', '/@', 'a.', 'a**', 'a<>', 'a~~', 'a&&', 'a||', 'a;', 'a,', 'a;;', ';;', 'a?', 'a/;', 'a/.', 'a^=', 'a/:b=', '\\[Integral]', 'a\\[Element]', 'a\\[Rule]', 'a::b', 'a_', 'a-b+', 'a*b/', 'a\n+']
NESTS = ['(', '{', '[', 'f[', '<|', '\\[LeftFloor]', 'a[[', '::[', ')', '}', ']', '|>', ']]', '({', '}]', '[(', '()', '{}', '[]', 'f[]', '{a,', '(a', '[[', '\n(', '{\n', 'f[1]', '\\(', '\\)', '(*', '*)']
LAYOUTS = [' ', '\n', '\t', '\r\n', '\r', '(*c*)', '(*\n*)', '\\\n', 'a\n', 'a \n', '\n ', '"\n"', '"\t"', '"\\\n"', 'a\n+', '\\\r\n', 'é\n', 'a b\n', '\n\t', '(*\t*)', 'a\\\nb', '1\\\n2', '\x0c', '\u2028', '\\[IndentingNewLine]', '{\n', 'a,\n', 'a;\n', '#!a\n']


def long(rng, n, sizes=SIZES, opts_=None, runs=RUNS, wraps=WRAPS):
    """one thing many times over: sizes around the powers of two"""
    for _ in range(n):
        x, (a, b) = rng.choice(runs), rng.choice(wraps)
        k = rng.choice(sizes)
        if len(x) > 2:
            k = min(k, 130)
        w = a + x * k + b
        if rng.random() < .3:
            w += rng.choice(['a', '\n"', ' (*', '}', '\\[Foo]', '\t"\t"', '+1', '\n\n  c\\\nd'])
        yield job(opts_(rng) if opts_ else opts(rng), w)


# ------------------------- inputs for the abstract tree -------------------------
QUIRKS = ('-', 'i', 'f', 'o', 'if', 'io', 'fo', 'ifo')


def aopts(rng):
    return opts(rng, flb='N', tab=(4,), quirks=QUIRKS)


def arith(rng, n):
    """sums, products, quotients, signs, numbers, zeros and parentheses"""
    atom = ['a', 'b', '0', '1', '2', '1.5', '0.', '00', '16^^0', '0`', 'Plus@c', 'Times@c', 'Plus@@c', 'Divisible@d', '(a b)', 'f[x]', '{1}', '-0', '""']

    def e(d):
        k = rng.random()
        if d == 0 or k < .2:
            return rng.choice(atom)
        if k < .4:
            return '(' + e(d - 1) + ')'
        if k < .55:
            return rng.choice(['-', '-', '-', '+', '\\[Minus]', '!', '- ', '--', '\\[PlusMinus]']) + e(d - 1)
        if k < .6:
            return rng.choice(['Plus@', 'Times@', 'Plus @ ', 'Power@', 'System`Plus@']) + e(d - 1)
        o = rng.choice([' + ', ' - ', '*', '/', ' ', '-', '+', '/', '*', '\\[Times]', '\\[Divide]', '\\[InvisibleTimes]', '\\[Minus]', '^', '\\[Divides]', '\\[ImplicitPlus]', '.'])
        return o.join(e(d - 1) for _ in range(rng.choice([2, 2, 2, 3, 4])))
    for _ in range(n):
        yield job(aopts(rng), e(rng.choice([1, 2, 2, 3])))


RELATIONS = [k for k, _ in T['relations']]


def relations(rng, n):
    """chains of relations, of few or of many different kinds"""
    rel = [TEXT[k] for k in RELATIONS if k in TEXT]
    vec = [TEXT[k] for k, v in T['relations'] if v.startswith('Vector') and k in TEXT]
    asc = ['==', '!=', '<', '>', '<=', '>=', '\\[Equal]', '\\[LessEqual]', '\\[LongEqual]']
    for _ in range(n):
        pool = rng.sample(rel, rng.choice([1, 2, 3])) + rng.sample(vec, rng.choice([0, 0, 1, 2])) + rng.sample(asc, rng.choice([0, 1, 1, 2]))
        k = rng.choice([1, 2, 3, 3, 4, 5])
        s = 'a'
        for i in range(k):
            s += rng.choice([' ', '']) + rng.choice(pool) + rng.choice([' ', '']) + rng.choice(['b', 'c', '1', 'f[x]', '(a<b)', '-1', ''])
        yield job(aopts(rng), s)


HEADS = ['a', '#', '##', '#1', '##2', '#a', '%', '%%', '%3', '_', '__', '___', '_h', 'x_', 'x__', 'x___', 'x_h', '_.', 'x_.', '"s"', '1', '1.5', '-1', 'f[x]', 'f[[1]]', '{a}', '(a)', '<|a|>',
         '\\[LeftFloor]a\\[RightFloor]', 'a?b', '(a;b)', 'a;b', 'a&', "a'", "a''", 'a\\[Transpose]', 'a!', 'a++', 'a.b', 'a/b', '<<f', '\\(x\\)', '\\!\\(x\\)', '\\!a', 'a::b', 'a::[b]', '\\[Pi]', '{', '(', '', '!a', 'a@b', 'a~b~c',
         '\\[LeftAngleBracket]a\\[RightAngleBracket]', 'a:b', 'a_:b', 'x_b?c', '""', '#"k"', 'a=b', '\\[Integral]a', '16^^f', 'a\\[Conjugate]']
BODIES = ['', 'x', 'x,y', '[x]', '[]', '[x,y]', '[x],y', '[x][y]', '[[x]]', ',', 'x;', '{x}', '(x)', '[x', '[x] ', ' [x]', '(*c*)[x]', '[x](*c*)', '1;;2', 'x]', '::[y]', '"s"', '((x,y))', '[x,]', '-1']
BRACKETS = [('[', ']'), ('[', ']'), ('[', ''), ('::[', ']'), ('::[', ''), ('\\[LeftDoubleBracket]', '\\[RightDoubleBracket]'), ('\\[LeftDoubleBracket]', ''), ('[', ')'), ('(', ')'), ('{', '}'), (' [', ']'), ('[[', ']]')]


def calls(rng, n):
    for h, (a, z), b in sample(rng, [(h, k, b) for h in HEADS for k in BRACKETS for b in BODIES], n):
        w = h + a + b + z
        if rng.random() < .15:
            w += rng.choice(['[z]', '[[z]]', '\n', '&[z]', ' + 1', '::[w]'])
        yield job(aopts(rng), w)


ABS = ['a', 'b', '::', '"s"', 'x`y', '#', '#a', '#"s"', '#\u00e9', '#x`y', '#12', '##', '##3', '%', '%%', '%%%', '%4', '<<f', '<<"f"', '<<a/b.m', '>>f', '>>>"f g"', '>>', '<<', '\\[Pi]', '\\:03c0', '\u03c0', '\\[Degree]', '\\[Infinity]',
       '\\[ExponentialE]', '\\[ImaginaryI]', '\\[ImaginaryJ]', '_', '__', '_.', 'x_.', 'x_h', 'x__h', "'", "''", '!!', '!', '!!!', '\\!', '\\(a\\)', '~', ',', ';', '&', '|', '/:', '=', '=.', ':=', '?', '@', '@@', '@@@', '/@', '//', '//@',
       '\\[HermitianConjugate]', '\\[ConjugateTranspose]', '\\[Transpose]', '\\[Conjugate]', '\\[Integral]', '\\[DifferentialD]', '\\[CapitalDifferentialD]', '\\[ContourIntegral]', '\\[Divides]', '(', ')', '[', ']', '{', '}', '<|', '|>',
       '::[', '\\[LeftDoubleBracket]', '\\[RightDoubleBracket]', '-', '+', '/', '1', '0', '(a)', '()', '(a,b)', '[a]', ' ', ' ', '\n', ';;', '\\[Square]', '\\[Del]', '\\[LeftBracketingBar]', '\\[RightBracketingBar]', '===', '=!=', '\\[Function]',
       '|->', '/=', '+=', '\\[Rule]', '->', '^', '\\[InvisibleApplication]', '\\[VectorLess]', '<', '%\\.25', '%\\045', '%\\:0025', '%\\[RawPercent]', '\\[Section]', '"a\tb"', '#$', '::$', '::\\[Alpha]', '#\\[Alpha]', '::\u00e9', '\\[Null]',
       '\\[AutoOperand]', '\\[SystemEnter]', '\\[Continuation]', '..', '...', '++', '--', '<>', '**', '~~', '/;', '/.', '//.', '<->', '\\[Colon]', ':', '^:=', '^=', '\\[Because]', '\\[Therefore]', '\\[PermutationProduct]', '\\[InvisibleComma]']


def specials(rng, n):
    """every way to write a character that stands for a symbol, alone and in company"""
    xs = [bytes(b).decode() for b, _ in T['specials']]
    for x in xs:
        for c in ('%s', 'a%s', '%sa', '%s[x]', '-%s', '2%s', '%s::%s', '#%s', '<<%s', '"%s"', '%s_', 'a`%s'):
            yield job(DEFAULT, c.replace('%s', x))


def names_at(rng, n):
    """for each infix operator, an operand that is the operator's own symbol applied with @"""
    names = sorted({k for k, _ in T['names']})
    inf = sorted(k for k in INFIX if INF[k][0] in ('InfixOperatorParselet', 'BinaryOperatorParselet', 'CommaParselet', 'SemiParselet', 'ColonColonParselet'))
    for _ in range(n):
        k = rng.choice(inf)
        own = str(INF[k][-1]).split('::')[-1]
        own = own if rng.random() < .8 else rng.choice(names)
        w = rng.choice(['%(n)s@x %(o)s y', 'y %(o)s %(n)s@x', 'a %(o)s %(n)s@%(n)s@x %(o)s b', '%(n)s@@x %(o)s y', '(%(n)s@x) %(o)s y', '%(n)s[x] %(o)s y', '-%(n)s@x %(o)s y', 'a %(o)s %(n)s @ (x %(o)s y) %(o)s z'])
        yield job(aopts(rng), w % dict(n=own, o=TEXT[k]))

# contexts and pieces that provoke diagnostics
DIAGCTX = [
    '%s', '"%s"', '"a%sb"', '(*%s*)', '(* (*%s*) %s*)', '#%s', '##%s', '%%%s', 'a::%s', 'a::b%s', 'a::"%s"', '<<%s', 'a>>%s', 'a>>>%s', '<<"%s"',
    '<<a%s', '<<a[%s]', 'a>>"%s', '\\(%s\\)', 'a%s', 'a`%s', '#a%s', '#"%s"', '#`%s', '_%s', 'a_%s', '1%s', '1.%s', '1`%s', '16^^%s', '{%s', 'f[%s',
    '(%s', '"%s', '(*%s', '\\(%s', '#!%s\nb', '\\\n%s', '"\\\n%s"', '#1%s', '::%s', 'a::b::%s', '%s&', '%%1%s', '##1%s', '>>%s']
DIAGBIT = [
    '\\[Foo]', '\\[Alpha]', '\\[Alpha', '\\[', '\\[]', '\\[foo]', '\\Alpha]', '\\A', '\\Foo]', '\\a', '\\g', '\\{', '\\\xe9', '\\', '\\\\',
    '\\\\[Foo]', '\\\\[Alpha]', '\\\\[InvisibleApplication]', '\\\\[Foo', '\\\\[foo]', '\\[InvisibleApplication]', '\\[NoBreak]', '\\:12', '\\:1',
    '\\:', '\\:0000', '\\:0061', '\\:2061', '\\:00a0', '\\:d800', '\\:f3a2', '\\.1', '\\.', '\\.00', '\\.0b', '\\.61', '\\.09', '\\.0a', '\\.1b',
    '\\|0', '\\|0f0000', '\\|110000', '\\|00', '\\1', '\\12', '\\001', '\\033', '\\011', '\\<', '\\>', '\\b', '\\f', '\\n', '\\t', '\\"', '\\!',
    '\\ ', '\\\n', '\\\r', '\\\r\n', '\\\n\t', '\\\n \\\n', '\r', '\n', '\r\n', '\t', '\x0b', '\x0c', '\x00', '\x1b', '\x7f', '\x07', '\x85', '\x80',
    '\xe9', '\u03b2', '\xa0', '\u2028', '\u2061', '\u200b', '\u2192', '\uf3a2', '\uf76d', '\U000f0001', '\U00100000', '\U0001f600', '\ue000', '$',
    '`', '$a', '1', 'a', '"', ' ', '..', '.', '...', '+', '-', '->', '+1', '-1', '+.', '-.', '+..', '-.1', '*^', '*^2', '*^2..', '*^2.3.', '*^-2.',
    '*', '^', '^^', '^^a.b.', '^^.', '^^..', '.2.3', '.2.', '`3..', '`3.4.5', '``', '``+1', '``.', '!', '=!', '=!a', '=!=', '<-', '<-4', '<->', '|-',
    '|->', '|-y', '/.', '/.3', '-->', '--=', '++=', '|>=', '_..', '_...', '--', '++', '|>', '=', '==', '(*c*)', '"s\nt"', '"s\tt"', '(*\t*)', '::',
    '>>', '<<', '#', '##', '%', ';', ',', '\udc80', '\ufeff']


def diag(rng, n, **kw):
    def bits():
        return ''.join(rng.choice(DIAGBIT) for _ in range(rng.choice((1, 1, 2, 2, 3, 4))))

    def fill(c):
        return bits().join(c.split('%s')) if c.count('%s') < 2 else ''.join(p + (bits() if i < c.count('%s') else '') for i, p in enumerate(c.split('%s')))
    for _ in range(n):
        s = fill(rng.choice(DIAGCTX).replace('%%', '%'))
        if rng.random() < .4:
            s += rng.choice(DIAGBIT)
        if rng.random() < .2:
            s += rng.choice(['', ' ', '\n']) + fill(rng.choice(DIAGCTX).replace('%%', '%'))
        yield job(opts(rng, **kw), s)


TRACK = ['"', '"', '(*', '*)', '\\\n', '\\\r\n', '\\\r', '\\\n  ', '\\\n\t', '\n', '\r\n', '\r', '\t', ' ', 'a', '1', '.', '`', '+', '-', '=', '>', '#', '\\[Alpha]', '\\', '\\\\',
         '::', '<<', '>>', '\\(', '\\)', '[', ']', '{', '}', ',', ';', '\u00e9', '*^', '^^', '_', '::"', '<<"', '\\"', '/', '~', '?', '|', '<']


def tracked(rng, n):
    """line continuations, newlines and tabs in and around every kind of token"""
    return chain_(small(rng, TRACK, 4, n), frags(rng, n, TRACK, 2, 12))


LEAF = ['a', 'b1', '$', '`', '"', '1', '.', '..', '/', '\\', '\\\\', ':', '::', '!', '-', '_', '+', '*', '~', '?', '[', ']', '[[', '[ ', '(*', '*)', '(', ')', '{', '}', '<', '>', '|', '@', '#', '%', '&', '=', ',', ';', "'", '^',
        ' ', '\n', '\r\n', '\t', '\\\n', '\\[Alpha]', '\\[Foo]', '\\:0061', '\u00e9', '\uf3a2', '\x07', '\xa0', '\x0c', 'C:', 'x.m', '\\"', 'a`b`']


def leaves(rng, n):
    """texts that look like file names and message tags"""
    return chain_(small(rng, LEAF, 3, n), frags(rng, n, LEAF, 1, 8))


# ------------------------- symbols -------------------------
def symbol_names(rng, n):
    """every symbol that stands for something, and symbols that are nearly one"""
    import os
    t = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'symbols.json')))
    all_ = sorted({x[1] for v in t.values() for x in v})
    for s in all_:
        yield job(DEFAULT, s)
    ctx = ['System`', 'CodeParser`', 'Token`', 'Token`Error`', 'Token`Fake`', 'Token`LongName`', 'Token`Boxes`', 'Global`', 'SyntaxError`', 'CodeParser`Group`']
    for s in all_:
        last = s.split('`')[-1]
        for c in gen_sample(rng, ctx, 3):
            yield job(DEFAULT, c + last)
    for _ in range(n):
        s = rng.choice(all_)
        i = rng.randrange(len(s))
        yield job(DEFAULT, rng.choice([s[:i] + s[i + 1:], s[:i] + rng.choice('aZ0`') + s[i:], s + 'Q', s.swapcase()]))


def gen_sample(rng, xs, n):
    return rng.sample(xs, min(n, len(xs)))


def span_pairs(rng, n, size):
    """all pairs of spans over a text of size lines of size columns, or n of them; and over as many indices"""
    pl = [(l, c) for l in range(1, size + 1) for c in range(1, size + 1)]
    sp = [(a, b) for i, a in enumerate(pl) for b in pl[i:]]
    ix = [(a, b) for a in range(1, size * size + 1) for b in range(a, size * size + 1)]

    def pairs(xs):
        if len(xs) ** 2 <= n:
            return [(a, b) for a in xs for b in xs]
        near = []
        for _ in range(n):
            a = rng.choice(xs)
            b = rng.choice(xs)
            if rng.random() < .5:     # share an end
                b = rng.choice([(a[0], max(a[0], b[1])), (min(b[0], a[1]), a[1]), (a[1], max(a[1], b[1])), (min(a[0], b[0]), a[0])])
            near.append((a, b))
        return near
    for a, b in pairs(sp):
        yield job(('N', 'L', 4, 'N', '-'), bytes(a[0] + a[1] + b[0] + b[1]))
    for a, b in pairs(ix):
        yield job(('N', 'C', 4, 'N', '-'), bytes(a + b))


MISSPELT = ('\\[%s]', '\\[%s]', 'a\\[%s]b', '\\\\[%s]', '"\\[%s]"', '"\\\\[%s]"', '\\%s]', '"\\%s]"', '\\[%s', '"\\[%s"', '\\%s', '(*\\[%s]*)', '{\\[%s], \\\\[%s]}', 'x::\\[%s]', '#\\[%s]', '<<\\[%s]', '1 + \\[%s] ')


def misspelt(rng, n):
    """names that are zero to four edits away from one of the table"""
    for _ in range(n):
        x = list(rng.choice(NAMES))
        for _ in range(rng.choice((0, 1, 1, 2, 2, 2, 3, 4))):
            i = rng.randrange(len(x) + 1)
            k = rng.random()
            if k < .35 and i < len(x): x[i] = rng.choice('ABCXYZaeioux019')
            elif k < .6 and i < len(x): del x[i]
            elif k < .75 and i + 1 < len(x): x[i], x[i + 1] = x[i + 1], x[i]
            else: x.insert(i, rng.choice('ABCaeiou01'))
        c = rng.choice(MISSPELT)
        yield job(opts(rng), c.replace('%s', ''.join(x)))


def rewritable(rng, n):
    """characters with customary spellings in ASCII, and those that are mistaken for others"""
    odd = [62370, 8594, 10141, 10740, 8289, 8291, 8292, 8203]
    ctx = ('%s', 'a%sb', '"%s"', '(*%s*)', 'f[%s]', 'a %s b', '{a,%s}', '<<%s', 'a::%s', '#%s', '\\%s', '\t%s', 'a\n%s')
    todo = [x for x, _ in T['ascii']] + odd * 20
    rng.shuffle(todo)
    for i in range(n):
        p = todo[i % len(todo)]
        k = rng.random()
        s = chr(p) if k < .6 else '\\:%04x' % p if p < 65536 and k < .8 else '\\|%06x' % p
        yield job(opts(rng, enc=('N', 'N', 'N', 'B')), rng.choice(ctx) % s)


DOTTED = ['1', '2', '.', '.', '.', '3', '..', '`', '``', '*^', '16^^', 'a', '+', '-', '#', '##', '%', '_.', '--', '>', '=', '!', '++', '|', '|>', '/', '<', ' ', '\\\n']


def dotted(rng, n):
    """numbers, dots and operators that need a space to be told apart"""
    return chain_(small(rng, DOTTED, 4, n), frags(rng, n, DOTTED, 3, 9))


def boxable(rng, n):
    """calls, parts and products with parentheses, which become sub- and superscripts"""
    def e(d):
        if d == 0 or rng.random() < .25:
            return rng.choice(['a', 'b', 'x', '1', '2.5', '"s"', '#', '_', 'a_', '%', 'f[]', '()', '{}', '##', 'a::b'])
        x, y = e(d - 1), e(d - 1)
        w = rng.choice(['', '', ' ', '(*c*)', '\n'])
        return rng.choice([
            '%s[%s]', '%s[[%s]]', '%s[[%s]]', '%s\\[LeftDoubleBracket]%s\\[RightDoubleBracket]', '%s (%s)', '%s (%s)', '%s(%s)', '%s[%s, c]', '%s[[%s, c]]',
            '%s[[%s]', '%s[%s', '%s (%s, c)', '%s[{%s}]', '%s::[%s]', '{%s, %s}', '%s + %s', '%s %s', '%s/%s', '%s - %s', '-%s^%s', '%s; %s', '%s = %s',
            '%s == %s', '%s < %s', '%s /: b = %s', '%s @ %s', '%s // %s', "%s' (%s)", '(%s) (%s)', '%s ~ f ~ %s', '%s : %s', '\\[Integral]%s \\[DifferentialD]%s',
            '%s[[] %s', '%s () %s', '%s[[]] %s', '%s\\[LeftDoubleBracket]\\[RightDoubleBracket]%s']) % (x, w + y)
    for _ in range(n):
        yield job(opts(rng, flb='N'), e(rng.choice((1, 2, 2, 3, 3, 4))))


def program(r, n):
    """command lines: arguments 1F ... 1E text"""
    texts = [bytes.fromhex(j.split(' ')[5].replace('.', '')) for j in sample(r, list(chain_(exprs(r, 1500), rand_frag(r, 600), strings(r, 200), arith(r, 500), utf8(r, 150), escapes(r, 200), unterminated(r, 200))), 3000)]
    texts = [t for t in texts if len(t) <= 60]
    ends = [b'', b'', b' ', b'\r', b'\t', '\u00a0'.encode(), '\u2003\u3000'.encode(), b'\\', b' \\']
    for text in [b'a b c', b'a*b c', b'-a/b', b'a / (b c)', b'-1', b'a-b-c', b'a>b>=c', b'1.2.3', b'f[x]\\\n[y]', b'"a\tb"', b'', b'#!a']:
        for end in [b'', b'\n', b'\r\n', b'\n\n', b' ', b'\t\n', b'\\\n']:
            for args in [[m] * bool(m) + [b'--flatten-times'] * f for m in [b'', b'-tokenize', b'-leaf', b'--cst', b'--ast', b'-safestring'] for f in [0, 1]]:
                yield job(DEFAULT, b'\x1f'.join(args) + b'\x1e' + text + end)
                yield job(DEFAULT, b'\x1f'.join(args + [b'-file', b'@']) + b'\x1e' + text + end)
    for _ in range(n):
        args = [r.choice([b'-tokenize', b'-leaf', b'-safestring', b'--cst', b'--ast', b'--flatten-times', b'--flatten-times', b'-n', b'-check', b'-syntaxq', b'-syntaxQ'][:7 if r.random() < .8 else 11]) for _ in range(r.choice([0, 1, 1, 1, 2, 2, 3]))]
        if r.random() < .5:
            # a file
            body = r.choice(texts) if r.random() < .7 else b'\n'.join(r.choice(texts) for _ in range(r.randint(2, 3)))
            for name in [b'@'] if r.random() < .95 else [b'/nowhere/at/all', b'@'][::r.choice([1, -1])]:
                k = r.randint(0, len(args))
                args[k:k] = [b'-file', name]
        else:
            lines = []
            while len(lines) < 3 and r.random() < .8:
                l = r.choice(texts)
                try: l.decode()
                except UnicodeDecodeError: continue
                lines.append(l + r.choice(ends))
            body = b'\n'.join(lines) + r.choice([b'', b'\n', b'\n', b'\r\n', b'\n\n'])
        x = r.random()
        if x < .02: args.insert(r.randint(0, len(args)), r.choice([b'-x', b'--tokenize', b'-cst', b'file', b'-File', b'--flatten_times']))
        elif x < .03: args.append(b'-file')
        yield job(DEFAULT, b'\x1f'.join(args) + b'\x1e' + body)
