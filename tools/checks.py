"""Which inputs, which specification module and which invariants decide which property."""
import gen
import histories
from itertools import chain


def part(name, module, cfg, what, jobs, **kw):
    return dict(name=name, module=module, cfg=cfg, what=what, jobs=jobs, **kw)


def tok(name, cfg, jobs, **kw):
    return part(name, 'Tokens', cfg, 't', jobs, **kw)


def mixed(r, k):
    return chain(gen.rand_frag(r, 20000 * k), gen.rand_bytes(r, 3000 * k), gen.all_bytes(), gen.unterminated(r, 3000 * k),
                 gen.op_pairs(r, 5000 * k), gen.strings(r, 4000 * k), gen.symbols(r, 2000 * k), gen.numbers(r, 4000 * k),
                 gen.escapes(r, 4000 * k), gen.script(r, 2000 * k), gen.long(r, 500 * k))


CHECKS = {
 'P02': dict(level='model_checking', parts=[tok('tokens', 'P02.cfg', mixed)]),
 'P07': dict(level='model_checking', parts=[tok('lexemes', 'P07.cfg', lambda r, k: chain(gen.op_pairs(r, 20000 * k), gen.strings(r, 8000 * k), gen.symbols(r, 8000 * k),
              gen.all_names(), gen.all_codepoints(r, 2000 * k), gen.rand_frag(r, 15000 * k), gen.unterminated(r, 1500 * k), gen.long(r, 800 * k)))]),
 'P08': dict(level='model_checking', parts=[tok('numbers', 'P08.cfg', lambda r, k: chain(
              (gen.job(gen.DEFAULT, w) for w in gen.sample(r, list(gen.words(gen.NUMCH, 1, 4 if k == 1 else 5)), 20000 * k * k)),
              gen.numbers(r, 20000 * k), gen.number_grammar(r, 20000 * k), gen.base_digits(r, 6000 * k), gen.long(r, 500 * k, runs=gen.DIGITS, wraps=gen.NUMBERS)))]),
}
CHECKS['P05'] = dict(level='model_checking', parts=[part('encoding', 'Tokens', 'P05t.cfg', 'ts', lambda r, k: chain(gen.utf8(r, 4000 * k), gen.rand_bytes(r, 5000 * k), gen.all_codepoints(r, 1000 * k)))])
CHECKS['P06'] = dict(level='model_checking', parts=[tok('escapes', 'P06.cfg', lambda r, k: chain(gen.escapes(r, 25000 * k), gen.all_names(ctx=(('', ''), ('a', 'b'), ('"', '"'), ('1', '2'), ('\\', ''))), gen.near_names(r, 4000 * k), gen.long(r, 300 * k, runs=gen.ESCAPES)))])


def tree(name, cfg, jobs, **kw):
    return part(name, 'Tree', cfg, 'c', jobs, **kw)


def operators(r, k):
    return chain(gen.lines(r, gen.all_op_pairs(r, 4000 * k), per=6), gen.lines(r, gen.unary_mix(r, 3000 * k), per=6),
                 gen.lines(r, gen.chains(r, 5000 * k), per=4), gen.long(r, 250 * k, runs=gen.CHAINS))


def forms(r, k):
    return chain(gen.small(r, gen.SPAN, 5, 8000 * k), gen.small(r, gen.COLON, 4, 8000 * k), gen.small(r, gen.MISSING, 5, 8000 * k),
                 gen.small(r, gen.FORMS, 4, 12000 * k), gen.frags(r, 8000 * k, gen.FORMS), gen.meets(r, 4000 * k), gen.long(r, 150 * k))


def groups(r, k):
    return chain(gen.brackets(r, 14000 * k), gen.open_groups(r, 4000 * k), gen.long(r, 200 * k, runs=gen.NESTS))


def layouts(r, k):
    return chain(gen.small(r, gen.NEWLINES, 5, 15000 * k), gen.exprs(r, 8000 * k, p=.8), gen.frags(r, 6000 * k, gen.NEWLINES), gen.long(r, 150 * k, runs=gen.LAYOUTS))


def broken(r, k):
    return chain(gen.unterminated(r, 4000 * k), gen.open_groups(r, 4000 * k), gen.rand_bytes(r, 3000 * k), gen.rand_frag(r, 6000 * k), gen.exprs(r, 4000 * k, mut=(1, 2, 3)), gen.long(r, 150 * k, runs=gen.LAYOUTS))


def everything(r, k):
    """a cross-section of all input families"""
    return chain(gen.exprs(r, 5000 * k), broken(r, k), gen.small(r, gen.SPAN, 5, 1500 * k), gen.small(r, gen.COLON, 4, 1500 * k), gen.small(r, gen.MISSING, 5, 1500 * k),
                 gen.small(r, gen.FORMS, 4, 3000 * k), gen.meets(r, 1500 * k), gen.small(r, gen.NEWLINES, 5, 2000 * k), gen.brackets(r, 3000 * k), gen.lines(r, gen.chains(r, 900 * k), per=3), gen.script(r, 1000 * k),
                 gen.strings(r, 1000 * k), gen.escapes(r, 1000 * k), gen.numbers(r, 800 * k), gen.symbols(r, 500 * k), gen.long(r, 250 * k))


CHECKS['P01'] = dict(level='model_checking', parts=[part('outcomes', 'Tree', 'P01.cfg', 'tcgasmT', lambda r, k: chain(everything(r, 2 * k), gen.all_bytes(), gen.big(r, 200 * k)), deep=4, chunk=30000)])
CHECKS['P03'] = dict(level='model_checking', parts=[tree('leaves', 'P03.cfg', everything)])
CHECKS['P04'] = dict(level='model_checking', parts=[tok('tokens', 'P04.cfg', lambda r, k: chain(gen.positions(r, 12000 * k), mixed(r, k))), tree('nodes', 'P04c.cfg', lambda r, k: chain(gen.positions(r, 4000 * k), everything(r, k)))])
CHECKS['P05']['parts'].append(tree('flags', 'P05c.cfg', lambda r, k: chain(gen.utf8(r, 3000 * k), gen.rand_bytes(r, 3000 * k), gen.unterminated(r, 2000 * k), gen.open_groups(r, 1000 * k))))
CHECKS['P09'] = dict(level='model_checking', parts=[tree('layout', 'P09.cfg', lambda r, k: chain(layouts(r, k), groups(r, k), forms(r, k)))])
CHECKS['P10'] = dict(level='model_checking', parts=[tree('operators', 'P10.cfg', lambda r, k: chain(operators(r, k), gen.exprs(r, 6000 * k, mut=(0,))))])
CHECKS['P11'] = dict(level='model_checking', parts=[tree('missing', 'P11.cfg', lambda r, k: chain(forms(r, k), gen.exprs(r, 6000 * k, mut=(1, 1, 2)), gen.small(r, gen.NEWLINES, 5, 6000 * k)))])
CHECKS['P12'] = dict(level='model_checking', parts=[tree('groups', 'P12.cfg', lambda r, k: chain(groups(r, 2 * k), gen.exprs(r, 6000 * k)))])
CHECKS['P13'] = dict(level='model_checking', parts=[tree('forms', 'P13.cfg', lambda r, k: chain(forms(r, 2 * k), gen.exprs(r, 6000 * k)))])
CHECKS['P20'] = dict(level='model_checking', parts=[tok('tokens', 'P20t.cfg', lambda r, k: gen.script(r, 10000 * k)), tree('trees', 'P20c.cfg', lambda r, k: chain(gen.script(r, 10000 * k), gen.exprs(r, 2000 * k, flb='CS')))])


def ast(name, cfg, what, jobs, **kw):
    return part(name, 'Ast', cfg, what, jobs, **kw)


def meanings(r, k):
    """expressions whose full form needs more than the renaming of an operator"""
    return chain(gen.arith(r, 9000 * k), gen.relations(r, 6000 * k), gen.calls(r, 12000 * k), gen.specials(r, k), gen.names_at(r, 5000 * k),
                 gen.frags(r, 8000 * k, gen.ABS), gen.small(r, gen.ABS, 2, 8000 * k))


def abstracted(r, k):
    return chain(meanings(r, k), everything(r, k), gen.lines(r, gen.all_op_pairs(r, 3000 * k), per=6))


def boxes(r, k):
    return chain(gen.boxable(r, 14000 * k), gen.sample(r, list(meanings(r, 1)), 4000 * k), gen.sample(r, list(everything(r, 1)), 3000 * k))


CHECKS['P14'] = dict(level='model_checking', parts=[ast('aggregate', 'P14.cfg', 'cg', lambda r, k: chain(everything(r, 2 * k), layouts(r, k), groups(r, k), forms(r, k), meanings(r, k))), ast('boxes', 'P14.cfg', 'b', boxes)])
CHECKS['P15'] = dict(level='model_checking', parts=[ast('meaning', 'P15.cfg', 'ca', abstracted), ast('boxes', 'P15.cfg', 'b', boxes)])
CHECKS['P16'] = dict(level='model_checking', parts=[ast('data', 'P16.cfg', 'ca', abstracted), ast('boxes', 'P16.cfg', 'b', boxes)])
CHECKS['P18'] = dict(level='model_checking', parts=[part('issues', 'Diag', 'P18.cfg', 'c', lambda r, k: chain(gen.diag(r, 22000 * k), everything(r, k), gen.utf8(r, 3000 * k), gen.near_names(r, 1500 * k), gen.all_codepoints(r, 1500 * k)))])
CHECKS['P19'] = dict(level='model_checking', parts=[part('tracked', 'Diag', 'P19.cfg', 'c', lambda r, k: chain(gen.tracked(r, 12000 * k), gen.diag(r, 6000 * k), gen.unterminated(r, 3000 * k), gen.positions(r, 3000 * k), gen.exprs(r, 4000 * k), broken(r, k)))])
CHECKS['P21'] = dict(level='model_checking', parts=[part('leaves', 'Leaf', 'P21.cfg', 'm', lambda r, k: chain(gen.leaves(r, 20000 * k), mixed(r, k), gen.diag(r, 10000 * k), gen.tracked(r, 5000 * k)))])
CHECKS['P17'] = dict(level='model_checking', parts=[
    dict(name='shared', module='Session', cfg='SessionS.cfg', model='violated'), dict(name='lazy', module='Session', cfg='SessionL.cfg', model='violated'),
    part('histories', 'History', 'P17.cfg', 'h', histories.jobs)])
CHECKS['P05']['parts'].append(part('issues', 'Diag', 'P05d.cfg', 'c', lambda r, k: chain(gen.utf8(r, 2500 * k), gen.rand_bytes(r, 2500 * k))))
CHECKS['P22'] = dict(level='model_checking', parts=[part('layers', 'Chars', 'P22.cfg', 'i', lambda r, k: chain(
    gen.escapes(r, 9000 * k), gen.strings(r, 3000 * k), gen.all_codepoints(r, 2500 * k), gen.all_names(), gen.near_names(r, 1500 * k), gen.rand_frag(r, 5000 * k), gen.script(r, 1500 * k),
    gen.unterminated(r, 1500 * k), gen.positions(r, 2500 * k), gen.long(r, 200 * k)))])
CHECKS['P23'] = dict(level='model_checking', parts=[part('walks', 'Walk', 'P23.cfg', 'v', lambda r, k: chain(everything(r, k), gen.lines(r, gen.all_op_pairs(r, 1500 * k), per=6))), part('boxes', 'Walk', 'P23.cfg', 'B', boxes)])
CHECKS['P24'] = dict(level='model_checking', parts=[
    part('symbols', 'Names', 'P24n.cfg', 'n', lambda r, k: gen.symbol_names(r, 1500 * k)),
    part('printed', 'Print', 'P24.cfg', 'p', lambda r, k: chain(everything(r, k), gen.lines(r, gen.all_op_pairs(r, 1500 * k), per=6), gen.all_names(), gen.utf8(r, 2500 * k), gen.rand_bytes(r, 2500 * k)))])
CHECKS['P25'] = dict(level='model_checking', parts=[
    part('all pairs', 'Geometry', 'P25_3.cfg', 'x', lambda r, k: gen.span_pairs(r, 4000, 3)),
    part('longer lines', 'Geometry', 'P25_12.cfg', 'x', lambda r, k: gen.span_pairs(r, 5000 * k, 12))])
CHECKS['P26'] = dict(level='model_checking', parts=[part('edits', 'Edits', 'P26.cfg', 'c', lambda r, k: chain(
    gen.diag(r, 9000 * k), gen.misspelt(r, 1500 * k), gen.rewritable(r, 4000 * k), gen.dotted(r, 6000 * k), gen.escapes(r, 4000 * k), gen.all_codepoints(r, 700 * k), gen.positions(r, 1500 * k)))])
CHECKS['P27'] = dict(level='model_checking', parts=[part('deliver', 'Link', 'P27.cfg', 'K', lambda r, k: chain(
    gen.sample(r, list(everything(r, 1)), 9000 * k), gen.diag(r, 4000 * k), gen.leaves(r, 1500 * k), gen.tracked(r, 1500 * k), gen.utf8(r, 800 * k), gen.positions(r, 1000 * k),
    gen.lines(r, gen.all_op_pairs(r, 800 * k), per=6)), chunk=20000)])
CHECKS['P28'] = dict(level='model_checking', parts=[part('read back', 'Link', 'P28.cfg', 'R', lambda r, k: chain(
    gen.sample(r, list(everything(r, 1)), 8000 * k), gen.sample(r, list(meanings(r, 1)), 4000 * k), gen.boxable(r, 4000 * k), gen.diag(r, 3000 * k), gen.tracked(r, 1000 * k), gen.utf8(r, 500 * k),
    gen.lines(r, gen.all_op_pairs(r, 1500 * k), per=4)), chunk=20000)])
CHECKS['P29'] = dict(level='model_checking', parts=[part('program', 'Program', 'P29.cfg', 'O', lambda r, k: gen.program(r, 4000 * k))])
NOT_APPLICABLE = {}
NOTE = ('TLC explores the specification on every generated input and accepts the recorded run of the real code only if it is a behaviour of the specification. '
        'Trusted: the specification itself (written from the code and its documentation), the harness that prints results, and TLC. Bounded by the generated inputs.')
