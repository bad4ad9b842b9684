#!/usr/bin/env python3
"""One-off: the names of token kinds and operators by class, from the pinned tree (committed as spec/symbols.json).
Which symbol stands for which name follows from the rules below, not from /repo's tables."""
import re, json
S = '/repo/crates/wolfram-parser/src/'


def variants(src, enum):
    b = src[src.index('pub enum %s {' % enum):]
    b = b[b.index('{') + 1:b.index('\n}')]
    b = re.sub(r'/\*.*?\*/', '', re.sub(r'//.*', '', b), flags=re.S)
    return re.findall(r'^\s*(\w+),', b, re.M)


def op(n):
    for c in ('CodeParser', 'Token'):
        if n.startswith(c + '_'):
            return c + '`' + n[len(c) + 1:]
    return 'System`' + n


def kind(n):
    if n in ('EndOfFile', 'Symbol', 'String', 'Integer', 'Real', 'Rational', 'Whitespace'):
        return 'System`' + n
    if n in ('InternalNewline', 'ToplevelNewline'):
        return 'Token`Newline'
    return 'Token`' + n.replace('_', '`', 1)


ops = open(S + 'parse/operators.rs').read()
out = {}
for c in ('Prefix', 'Infix', 'Postfix', 'Binary', 'Ternary', 'PrefixBinary', 'Compound', 'Group', 'Call'):
    out[c] = [[n, op(n)] for n in variants(ops, c + 'Operator')]
tk = open(S + 'tokenize/token_kind.rs').read()
b = tk[tk.index('\ntoken_kind! {'):]
b = b[:b.index('\n}\n')]
out['Leaf'] = [[n, kind(n)] for n in re.findall(r'^(?:\s*/\*.*?\*/ )?\s*([A-Z]\w+)\s*=\s*\d+\s*,', b, re.M)]
assert len(out['Leaf']) == len(re.findall(r'=\s*\d+\s*,', b)), (len(out['Leaf']), len(re.findall(r'=\s*\d+\s*,', b)))
out['SyntaxError'] = [[n, 'SyntaxError`' + n] for n in variants(open(S + 'parse.rs').read(), 'SyntaxErrorKind')]
for e in ('IssueTag', 'Severity'):
    out[e] = [[n, e + '`' + n] for n in variants(open(S + 'issue.rs').read(), e)]
with open('/verif/spec/symbols.json', 'w') as f:
    f.write('{\n' + ',\n'.join(json.dumps(k) + ': [\n ' + ',\n '.join(json.dumps(x + [list(x[1].encode())]) for x in v) + ']' for k, v in out.items()) + '\n}\n')
print({k: len(v) for k, v in out.items()})
