#!/usr/bin/env python3
"""One-off: derives the specification's tables from the pinned tree (committed as
spec/tables.json).  The checks read the committed file, never /repo's tables."""
import re, json, sys
S='/repo/crates/wolfram-parser/src/'
ln=open(S+'generated/long_names_registration.rs').read()
cp={m[0]:int(m[1],16) for m in re.findall(r"pub const (CODEPOINT_LONGNAME_\w+): char = '\\u\{([0-9a-fA-F]+)\}'",ln)}
for m in re.findall(r"pub const (CODEPOINT_LONGNAME_\w+): char = '\\x([0-9a-fA-F]+)'",ln): cp[m[0]]=int(m[1],16)
code=open(S+'read/code_point.rs').read()
for m in re.findall(r"pub const (CODEPOINT_\w+): char = '\\u\{([0-9a-fA-F]+)\}'",code): cp[m[0]]=int(m[1],16)
def block(name):
    i=ln.index(name); return ln[ln.index('= [',i)+3: ln.index('];',i)]
def cps(name):
    return sorted(cp[x] for x in re.findall(r'CODEPOINT_\w+',block(name)))
long=[]
special={'CODEPOINT_LONGNAME_RAWDOUBLEQUOTE':-6,'CODEPOINT_LONGNAME_RAWBACKSLASH':-7}
for n,c in re.findall(r'\("(\w+)", (\w+(?:::\w+)?(?:\(\w+\))?)\)',block('LONGNAME_TO_CODEPOINT_MAP')):
    m=re.match(r'CodePoint::from_char\((\w+)\)',c)
    long.append([n,cp[m[1]] if m else special[c]])
raw=re.findall(r'"(\w+)"',block('RAW_SET'))
f=ln[ln.index('fn LongNameCodePointToOperator'):]
f=f[:f.index('\n}\n')]
ops=[[cp[a],b] for a,b in re.findall(r'(CODEPOINT_\w+) => return (\w+)',f)]
tp=open(S+'parse/token_parselets.rs').read()
tp=re.sub(r'(?m)^\s*//.*$','',tp)
def arms(mac):
    i=tp.index('macro_rules! '+mac); b=tp[i:]; b=b[b.index('match $kind {')+len('match $kind {'):]
    b=b[:b.index('} }}') if '} }}' in b else len(b)]
    out={}
    for pats,rhs in re.findall(r'((?:\|?\s*TK::\w+\s*)+|_)\s*=>\s*&([^,{(]+(?:\([^)]*\))?)',b):
        m=re.match(r'(\w+)(?:::new)?\s*(?:\(([^)]*)\))?',rhs.strip())
        args=[a.strip().split('::')[-1].strip() for a in (m[2] or '').split(',') if a.strip()]
        for k in re.findall(r'TK::(\w+)',pats) or ['_']:
            assert k not in out,k
            out[k]=[m[1]]+args
    return out
pre=arms('token_kind_to_prefix_parselet'); inf=arms('token_kind_to_infix_parselet')
pv=open(S+'generated/precedence_values.rs').read()
prec={n:int(v) for n,v in re.findall(r'pub const (\w+): Precedence = Precedence::new\((\d+)\)',pv)}
# "Call" has no long-name style constant of its own in some versions: keep whatever is there.
def withprec(d):
    for k,v in d.items():
        for i,a in enumerate(v):
            if i>0 and a in prec and v[0] in('BinaryOperatorParselet','InfixOperatorParselet','PrefixOperatorParselet','PostfixOperatorParselet') and i==1: v[i]=prec[a]
    return d
withprec(pre); withprec(inf)
assert '_' not in inf; inf['_']=['InfixImplicitTimesParselet']
out=dict(long=[[list(n.encode()),c] for n,c in long],raw=[list(x.encode()) for x in raw],ws=cps('MB_WHITESPACE'),nl=cps('MB_NEWLINE'),
  unint=cps('MB_UNINTERPRETABLE'),ops=ops,
  pre=[[k]+[v] for k,v in pre.items()],inf=[[k]+[v] for k,v in inf.items()],prec=[[k,v] for k,v in prec.items()])
err=open(S+'error.rs').read()
i=err.index('fn is_top_level_directive'); d=err[i:err.index('.contains(&symbol)',i)]
out['directives']=[list(x.encode()) for x in re.findall(r'"([^"]+)"',d)]
tk=open(S+'tokenize/token_kind.rs').read()
def strs(name):
    i=tk.index('const %s: &[&str]'%name); b=re.sub(r'(?m)^\s*//.*$','',tk[i:tk.index('];',i)])
    return re.findall(r'"(\w+)"',b)
out['begin']=strs('POSSIBLE_BEGINNING'); out['closers']=strs('CLOSERS'); out['errors']=strs('ERROR')
f=tk[tk.index('fn GroupOpenerToCloser'):]; f=f[:f.index('\n}\n')]
out['pairs']=[list(x) for x in re.findall(r'TokenKind::(\w+) => Closer::(\w+)',f)]
# abstraction: names of symbols, relations, characters that stand for symbols
ops_src=open(S+'parse/operators.rs').read()
names={a for a,b in re.findall(r'Operator::(\w+) => sym::([\w:]+)',ops_src)}
ab=open(S+'abstract_cst.rs').read(); ac=open(S+'abstract_cst/abstract_call_node.rs').read()
names|=set(re.findall(r'st::(\w+)',ab+ac))-{'Developer'}
f=ab[ab.index('fn inequalityOperatorToSymbol'):]; f=f[:f.index('\n}\n')]
out['relations']=[[k,v] for ks,v in re.findall(r'((?:TK::\w+[\s|]*)+)=> sym::(\w+)',f) for k in re.findall(r'TK::(\w+)',ks)]
names|={v for _,v in out['relations']}
names={n:(n.replace('CodeParser_','CodeParser`') if n.startswith('CodeParser_') else n) for n in names}
names['Developer_VectorInequality']='Developer`VectorInequality'
out['names']=[[k,list(v.encode())] for k,v in sorted(names.items())]
f=ab[ab.index('// "\\[Pi]"'):]; f=f[:f.index('_ => Ast::Leaf')]
out['specials']=[]
for pats,v in re.findall(r'((?:"[^"]+"[\s|]*)+)=> *\{?\s*Ast::symbol_with_data\(st::(\w+)',re.sub(r'(?m)^\s*//.*$','',f)):
    for x in re.findall(r'"([^"]+)"',pats):
        m=re.match(r'\\u\{([0-9a-f]+)\}',x)
        t=chr(int(m[1],16)) if m else x.replace('\\\\','\\')
        out['specials'].append([list(t.encode()),v])
out['notstrange']=cps('MB_NOT_STRAGE_LETTERLIKE_CODE_POINTS')
out['unprintable']=json.load(open('/verif/tools/unprintable.json'))
blk=ln[ln.index('ASCII_REPLACEMENTS_MAP'):]; blk=blk[:blk.index('\n];')]
out['ascii']=[[cp[n],[list(json.loads('"'+x+'"').encode()) for x in re.findall(r'"((?:[^"\\]|\\.)*)"',l)]] for n,l in re.findall(r'\((CODEPOINT_\w+), \[(.*)\]\.as_slice',blk)]
assert sorted(c for c,_ in ops)==cps('MB_PUNCTUATION')
with open('/verif/spec/tables.json','w') as f:
    f.write('{\n'+',\n'.join(json.dumps(k)+': [\n '+',\n '.join(json.dumps(x) for x in v)+']' for k,v in out.items())+'\n}\n')
print(len(long),len(raw),len(ops),len(pre),len(inf),len(prec),file=sys.stderr)
