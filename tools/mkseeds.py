#!/usr/bin/env python3
"""Makes the planted bugs of /verif/seeded from tools/seeds/*.py and confirms each in a scratch
copy of /repo: it applies, builds, passes the tests, and its demonstration tells it apart.
    mkseeds.py [ID...]         (no check reads this or /verif/seeded)
A seed: dict(id, property, edits=[(file, old, new)...], demo=Rust main body, needs, breaks)."""
import glob, json, os, runpy, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'crates/wolfram-parser/src/'
W = '/tmp/seedwork'

DEMO_SH = r'''#!/bin/bash
# exit 0: behaves; non-zero: broken.  cwd is the repository.
set -e
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cp "$here/Cargo.lock" "$t/Cargo.lock"
cat > "$t/Cargo.toml" <<EOF
[package]
name = "harness"
version = "0.1.0"
edition = "2021"
[dependencies]
wolfram-parser = { path = "$repo/crates/wolfram-parser" }
[workspace]
EOF
cd "$t"
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
export PATH=$PATH:/root/.cargo/bin
cargo build -q --offline
timeout 60 "$t/target/debug/harness"
'''
PRELUDE = r'''#![allow(unused, dead_code)]
use wolfram_parser::*;
use wolfram_parser::tokenize::*;
use wolfram_parser::source::*;
fn opts() -> ParseOptions { ParseOptions::default() }
/// kind and text of every token
fn toks(b: &[u8]) -> Vec<(String, String)> {
    let NodeSeq(v) = tokenize_bytes(b, &opts()).expect("tokens");
    v.iter().map(|t| (format!("{:?}", t.tok), String::from_utf8_lossy(t.input.as_bytes()).into_owned())).collect()
}
fn kinds(b: &[u8]) -> Vec<String> { toks(b).into_iter().map(|t| t.0).collect() }
fn texts(b: &[u8]) -> Vec<String> { toks(b).into_iter().map(|t| t.1).collect() }
/// the concrete tree as text, without positions: (op child child) and leaf texts
fn show(c: &cst::Cst<TokenStr<'_>>) -> String {
    use wolfram_parser::cst::*;
    fn seq(s: &NodeSeq<Cst<TokenStr<'_>>>) -> String { s.0.iter().map(show).collect::<Vec<_>>().join(" ") }
    match c {
        Cst::Token(t) => format!("{:?}<{}>", t.tok, String::from_utf8_lossy(t.input.as_bytes())),
        Cst::Call(CallNode { head, body }) => {
            let h = match head { CallHead::Concrete(s) => seq(s), CallHead::Aggregate(h) => show(h) };
            let b = match body { CallBody::Group(GroupNode(n)) => seq(&n.children), CallBody::GroupMissingCloser(GroupMissingCloserNode(n)) => format!("MISSING {}", seq(&n.children)) };
            format!("(Call {h} | {b})")
        },
        Cst::SyntaxError(n) => format!("(ERR {:?} {})", n.err, seq(&n.children)),
        Cst::Infix(InfixNode(n)) => format!("({:?} {})", n.op, seq(&n.children)),
        Cst::Prefix(PrefixNode(n)) => format!("(Prefix {:?} {})", n.op, seq(&n.children)),
        Cst::Postfix(PostfixNode(n)) => format!("(Postfix {:?} {})", n.op, seq(&n.children)),
        Cst::Binary(BinaryNode(n)) => format!("(Binary {:?} {})", n.op, seq(&n.children)),
        Cst::Ternary(TernaryNode(n)) => format!("(Ternary {:?} {})", n.op, seq(&n.children)),
        Cst::PrefixBinary(PrefixBinaryNode(n)) => format!("(PrefixBinary {:?} {})", n.op, seq(&n.children)),
        Cst::Compound(CompoundNode(n)) => format!("(Compound {:?} {})", n.op, seq(&n.children)),
        Cst::Group(GroupNode(n)) => format!("(Group {:?} {})", n.op, seq(&n.children)),
        Cst::GroupMissingCloser(GroupMissingCloserNode(n)) => format!("(Missing {:?} {})", n.op, seq(&n.children)),
        other => format!("{other:?}"),
    }
}
fn tree(b: &[u8]) -> String { parse_bytes_cst_seq(b, &opts()).syntax.0.iter().map(show).collect::<Vec<_>>().join(" ; ") }
fn ast(b: &[u8]) -> String { parse_bytes_ast_seq(b, &opts()).syntax.0.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ; ") }
'''

LINK_SH = DEMO_SH.replace("""[workspace]
EOF
""", """codeparser-wll = { path = "codeparser" }
wolfram-library-link = { path = "library" }
[patch.crates-io]
wolfram-library-link = { path = "library" }
[workspace]
EOF
cp -r "$here/library" "$here/macros" "$t/"
mkdir "$t/codeparser"
cat > "$t/codeparser/Cargo.toml" <<EOF
[package]
name = "codeparser-wll"
version = "0.1.0"
edition = "2021"
[lib]
path = "$repo/crates/codeparser-wll/src/lib.rs"
[features]
default = ["USE_MATHLINK"]
USE_MATHLINK = []
[dependencies]
wolfram-library-link = { path = "../library", default-features = false }
wolfram-parser = { path = "$repo/crates/wolfram-parser", features = ["CHECK_ABORT"] }
EOF
""").replace('"$t/target/debug/harness"', '"$t/target/debug/link"').replace('name = "harness"', 'name = "link"')
LINK_PRELUDE = r'''#![allow(unused, dead_code)]
//! Calls the entry points of codeparser-wll over a link that is two queues of tokens (library/).
use wolfram_library_link::wstp::{Link, Tk};
use Tk::*;
fn f(h: &str, n: usize) -> Tk { Function(h.to_string(), n) }
fn s(h: &str) -> Tk { Symbol(h.to_string()) }
fn t(h: &str) -> Tk { Str(h.to_string()) }
fn ask(entry: fn(&mut Link), request: Vec<Tk>) -> Vec<Tk> {
    let mut link = Link::default();
    link.incoming.extend(request);
    entry(&mut link);
    link.outgoing
}
/// what the kernel gets for the text; conv 0: lines and columns, 1: characters
fn concrete(text: &[u8], conv: i64) -> Vec<Tk> {
    ask(codeparser_wll::ConcreteParseBytes_LibraryLink, vec![f("List", 6), Int(0), f("ByteArray", 1), Bytes(text.to_vec()), Int(conv), Int(4), Int(0), f("Association", 0)])
}
fn has(v: &[Tk], part: &[Tk]) -> bool { v.windows(part.len()).any(|w| w == part) }
/// a leaf of kind Symbol at a place
fn leaf(place: Vec<Tk>) -> Vec<Tk> {
    let mut v = vec![f("CodeParser`LeafNode", 3), s("System`Symbol"), t("x"), f("System`Association", 1), f("System`Rule", 2), s("CodeParser`Source")];
    v.extend(place);
    v
}
'''

PROGRAM_SH = r'''#!/bin/bash
# exit 0: behaves; non-zero: broken.  cwd is the repository.
set -e
repo=$PWD
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export RUSTUP_TOOLCHAIN=1.74.1 CARGO_NET_OFFLINE=true
export PATH=$PATH:/root/.cargo/bin
cargo build -q --offline --locked --manifest-path "$repo/Cargo.toml" -p wolfram-parser --bin main --target-dir "$t/target"
program() { timeout 20 "$t/target/debug/main" "$@" | head -c 100000; }
'''


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    want = sys.argv[1:]
    seeds = []
    for f in sorted(glob.glob(os.path.join(V, 'tools/seeds/*.py'))):
        seeds += runpy.run_path(f)['SEEDS']
    assert len({s['id'] for s in seeds}) == len(seeds)
    if want == ['all']: want = []
    todo = [s for s in seeds if (s['id'] in want) or (not want and not os.path.exists(os.path.join(V, 'seeded', s['id'])))]
    if sys.argv[1:] == ['all']: todo = seeds
    if not os.path.exists(W):
        run('cp -a /repo %s' % W)
    run('git -C %s checkout -q -- . ; git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W, W))
    env = 'sed s#/repo#%s#g' % W
    run('%s /opt/vp/build.sh > /tmp/seedwork.build.sh; %s /opt/vp/test.sh > /tmp/seedwork.test.sh' % (env, env))
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    for s in todo:
        d = '/tmp/seedout-' + s['id']
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        link = s.get('link', False)
        demo = (LINK_PRELUDE if link else PRELUDE) + s.get('pre', '') + 'fn main() {\n' + s.get('demo', '') + '\n}\n'
        if 'sh' not in s: open(d + '/demo.rs', 'w').write(demo)
        open(d + '/demo.sh', 'w').write(PROGRAM_SH + s['sh'] if 'sh' in s else LINK_SH if link else DEMO_SH); os.chmod(d + '/demo.sh', 0o755)
        if 'sh' not in s: shutil.copy(os.path.join(V, 'link' if link else 'harness', 'Cargo.lock'), d + '/Cargo.lock')
        for x in ('library', 'macros') if link else ():
            shutil.copytree(os.path.join(V, 'link', x), os.path.join(d, x))
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        run('git -C %s checkout -q -- .' % W)
        clean = run('bash %s/demo.sh' % d, cwd=W)
        if clean.returncode:
            print(s['id'], 'DEMO FAILS ON CLEAN TREE', clean.stdout[-1500:]); continue
        try:
            for f, old, new in s['edits']:
                p = os.path.join(W, S, f) if not f.startswith('crates') else os.path.join(W, f)
                t = open(p).read()
                n = t.count(old)
                assert n == 1, '%s: %d matches of %r' % (f, n, old[:60])
                open(p, 'w').write(t.replace(old, new))
        except AssertionError as e:
            print(s['id'], 'EDIT', e); continue
        open(d + '/patch.diff', 'w').write(run('git -C %s diff' % W).stdout)
        b = run('bash /tmp/seedwork.build.sh', cwd=W)
        if b.returncode:
            print(s['id'], 'DOES NOT BUILD', b.stdout[-1500:]); continue
        run('bash /tmp/seedwork.test.sh /tmp/seedwork.json', cwd=W)
        passed = set(json.load(open('/tmp/seedwork.json'))['passed'])
        lost = [t for t in base if t not in passed]
        if lost:
            print(s['id'], 'FAILS TESTS', lost[:6]); continue
        bad = run('bash %s/demo.sh' % d, cwd=W)
        if bad.returncode == 0:
            print(s['id'], 'DEMO PASSES WITH THE PATCH'); continue
        out = os.path.join(V, 'seeded', s['id'])
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(d, out)
        print(s['id'], 'ok')
    run('git -C %s checkout -q -- .' % W)


main()
