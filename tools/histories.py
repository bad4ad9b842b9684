"""Histories of calls, generated from the specification (Session.tla) and made concrete."""
import json
import os
import re
import shutil
import tempfile
import gen

ENTRIES = dict(tok=('tok', 'tokstr', 'leaf', 'safe'), cst=('cst', 'cststr', 'cst1', 'cst1str', 'agg'),
               ast=('ast', 'aststr', 'ast1', 'ast1str'), abs=('abs', 'own'), set=('set',))
QUIRKY = ['a @@@ b', 'f @@@ g @@@ h', 'a/b/c', '-a/b', 'a / b c', '-a b/c', 'a<>StringJoin@b', 'a*Times@b', 'a+Plus@b+c', '{a/b, -c/d, f@@@x}', 'f[a/b/c][-x/y]', 'a\n-b/c\nd @@@ e',
          '(a @@@ b)/c/d', 'a~~StringExpression@b', 'a&&And@b', 'a.Dot@b', '-2/3', '1/2/3']


def histories(cfg):
    """every complete history of the model"""
    import vp
    d = tempfile.mkdtemp(prefix='vp-hist-')
    try:
        r = vp.tlc('Session', cfg, None, d, 1)
        if r['rc'] != 0:
            vp.fail('model %s: %s' % (cfg, vp.explain(r['out'])))
        out = sorted(set(re.findall(r'^"HISTORY (.*)"$', r['out'], re.M)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return [json.loads(json.loads('"' + h + '"')) for h in out]


def concrete(rng, hist, pool):
    a = gen.opts(rng)
    b = list(a) if rng.random() < .6 else list(gen.opts(rng))
    qs = rng.sample(gen.QUIRKS, 2) if rng.random() < .5 else rng.choice((('-', 'i'), ('-', 'f'), ('-', 'o'), ('i', 'if'), ('fo', 'f'), ('ifo', 'if'), ('o', 'io'), ('if', 'f')))
    qs = rng.sample(qs, 2)
    a, b = list(a[:4]) + [qs[0]], b[:4] + [qs[1]]
    ins = [rng.choice(QUIRKY) if rng.random() < .5 else rng.choice(pool) for _ in range(rng.choice((1, 1, 2)))]
    ins = [x.encode() if isinstance(x, str) else x for x in ins]
    out = ['in ' + (x.hex() or '.') for x in ins]
    for e in hist:
        if e[0] == 'B':
            o = (a, b)[e[4] - 1]
            out.append('c %d %s %s %d' % (e[2] - 1, rng.choice(ENTRIES[e[3]]), ' '.join(map(str, o)), rng.randrange(len(ins))))
    out += ['e %s %d' % (e[0], e[1] - 1) for e in hist]
    return 'H - 0 - - ' + '\n'.join(out).encode().hex()


def jobs(rng, k):
    import checks
    pool = [bytes.fromhex(j.split(' ')[5].replace('.', '')) for j in gen.sample(rng, list(checks.everything(rng, 1)), 4000)]
    pool += [bytes.fromhex(j.split(' ')[5].replace('.', '')) for j in gen.sample(rng, list(checks.meanings(rng, 1)), 4000)]
    for cfg, n in (('Session1.cfg', 5000), ('Session2.cfg', 9000), ('Session3.cfg', 3000)):
        hs = histories(cfg)
        # all of them, or as many as there is time for
        for h in (gen.sample(rng, hs, n) if k == 1 else hs * max(1, k * n // len(hs))):
            yield concrete(rng, h, pool)
