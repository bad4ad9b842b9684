#!/usr/bin/env python3
"""Runs one check:  vp.py check PROPERTY [quick|thorough]
   Replays one:     vp.py replay FILE
   Binding demo:    vp.py selftest PROPERTY

A check builds the harness from /repo's working tree, lets the real parser run on
generated inputs, and has TLC compare each recorded run with the specification in
/verif/spec.  Exit 0: no violation; 1: VIOLATION printed; 2: tool trouble."""
import concurrent.futures as cf, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import checks

HARNESS = os.path.join(V, 'harness/target/release/harness')
PROGRAM = os.path.join(V, 'harness/target/program')
CP = '/opt/veriftools/tla/tla2tools.jar'
TLA = '/opt/veriftools/tla'
JOBS_LIMIT_S = 240


def fail(msg):
    print('ERROR', msg, flush=True)
    sys.exit(2)


# what is recorded at the kernel's end of the link
LINK = set('KRAQ')


def build(whats):
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    for crate in sorted({'link' if set(w) & LINK else 'harness' for w in whats}):
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '-q'], cwd=os.path.join(V, crate), env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
            fail(crate + ' does not build:\n' + r.stdout[-3000:])
    if any('O' in w for w in whats):
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--locked', '-q', '--manifest-path', '/repo/Cargo.toml', '-p', 'wolfram-parser', '--bins', '--target-dir', PROGRAM],
                           cwd=os.path.join(V, 'harness'), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode:
            fail('the program does not build:\n' + r.stdout[-3000:])


def run_harness(args, timeout):
    lim = lambda: resource.setrlimit(resource.RLIMIT_AS, (20 << 30, 20 << 30))
    exe = os.path.join(V, 'link/target/release/link') if set(args[1]) & LINK else HARNESS
    env = dict(os.environ, TMPDIR=os.path.dirname(args[-1]), VERIF_PROGRAM=os.path.join(PROGRAM, 'release/main'))
    try:
        r = subprocess.run([exe] + args, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, preexec_fn=lim)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 'timeout', '', ''


def record(what, jobs, d, timeout=JOBS_LIMIT_S):
    """Returns (records as lines, None) or (None, offending job) if the process died or hung."""
    jf, of = os.path.join(d, 'jobs'), os.path.join(d, 'out')
    open(jf, 'w').write('\n'.join(jobs) + '\n')
    rc, out, err = run_harness(['record', what, jf, of], timeout)
    if rc == 0:
        lines = open(of).read().splitlines()
        if len(lines) != len(jobs):
            fail('harness wrote %d records for %d jobs' % (len(lines), len(jobs)))
        return lines, None
    m = re.search(r'^HANG (.*)$', out, re.M)
    if m:
        return None, (m[1], 'does not return')
    lo = jobs
    while len(lo) > 1:            # the process died: find the job
        h = len(lo) // 2
        open(jf, 'w').write('\n'.join(lo[:h]) + '\n')
        lo = lo[:h] if run_harness(['record', what, jf, of], timeout)[0] != 0 else lo[h:]
    open(jf, 'w').write(lo[0] + '\n')
    rc = run_harness(['record', what, jf, of], timeout)[0]
    if rc == 0:
        fail('harness died (%s) but no single job reproduces it: %s' % (rc, err[-500:]))
    return None, (lo[0], 'ends the process with %s' % rc)


def java(workers, heap):
    jars = ':'.join(os.path.join(TLA, j) for j in sorted(os.listdir(TLA)) if j.endswith('.jar'))
    return ['java', '-Xmx%dm' % heap, '-Xss64m', '-XX:+UseParallelGC', '-cp', jars, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-nowarning']


def tlc(module, cfg, lines, d, workers=1, heap=2500, timeout=800, extra=()):
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(V, 'spec')):
        if f.endswith('.tla') or f.endswith('.json'):
            shutil.copy(os.path.join(V, 'spec', f), d)
    shutil.copy(os.path.join(V, 'spec', cfg), os.path.join(d, 'M.cfg'))
    if lines is not None:
        open(os.path.join(d, 'recs.ndjson'), 'w').write('\n'.join(lines) + '\n')
    try:
        r = subprocess.run(java(workers, heap) + list(extra) + ['-metadir', os.path.join(d, 'meta'), '-config', 'M.cfg', module + '.tla'], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(rc='timeout', out='', states=0, distinct=0)
    m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct', r.stdout)
    n = lambda s: int(s.replace(',', ''))
    return dict(rc=r.returncode, out=r.stdout, states=n(m[-1][0]) if m else 0, distinct=n(m[-1][1]) if m else 0)


def shards(lines, k):
    # spread long inputs evenly
    return [s for s in (lines[i::k] for i in range(k)) if s]


def explain(out):
    i = out.find('Error:')
    return out[i:i + 6000] if i >= 0 else out[-3000:]


def conform(module, cfg, what, jobs, d, k=8, timeout=800):
    """jobs -> recorded runs -> TLC.  Returns (stats, violation or None)."""
    stats = dict(states=0, distinct=0, traces=len(jobs))
    lines, dead = record(what, jobs, d)
    if dead:
        return stats, dict(job=dead[0], why='the call ' + dead[1], tlc='', record='')
    sh = shards(lines, k)
    with cf.ThreadPoolExecutor(k) as ex:
        rs = list(ex.map(lambda p: tlc(module, cfg, p[1], os.path.join(d, 's%d' % p[0]), 1, timeout=timeout), enumerate(sh)))
    for s, r in zip(sh, rs):
        stats['states'] += r['states']
        stats['distinct'] += r['distinct']
        if r['rc'] == 0:
            continue
        if r['rc'] == 'timeout':
            fail('TLC did not finish')
        m = re.findall(r'^/\\ rec = (\d+)', r['out'], re.M)
        if not m or 'OutOfMemory' in r['out']:
            fail('TLC: ' + explain(r['out']))
        line = s[int(m[-1]) - 1]
        rec = json.loads(line)
        b = bytes(rec['b'])
        inv = re.search(r'Invariant (\w+) is violated', r['out'])
        return stats, dict(job=' '.join(map(str, rec['o'])) + ' ' + (b.hex() or '.'), input=repr(b),
                           why='the recorded run is not a behaviour of the specification (%s)' % (inv[1] if inv else 'no such step'),
                           record=rec, tlc=explain(r['out']))
    return stats, None


def report(prop, v, c):
    os.makedirs(os.path.join(V, 'replay'), exist_ok=True)
    f = os.path.join(V, 'replay', '%s-%s.json' % (prop, hashlib.sha1(v['job'].encode()).hexdigest()[:12]))
    v = dict(v, property=prop, module=c['module'], cfg=c['cfg'], what=c['what'])
    json.dump(v, open(f, 'w'), indent=1)
    print('input', v.get('input', v['job']), '--', v['why'])
    print('VIOLATION property=%s replay=%s' % (prop, f), flush=True)


def known(prop):
    """KNOWN-FINDINGS.md: the listed inputs that still fail"""
    for l in open(os.path.join(V, 'KNOWN-FINDINGS.md')):
        m = re.match(r'^known: property=(\w+) what=(\w)/(\w+) job=`(.*?)` (.*)$', l)
        if not m or m[1] != prop:
            continue
        d = tempfile.mkdtemp(prefix='vp-known-')
        try:
            lines, dead = record(m[2], [m[4]], d)
            if dead or json.loads(lines[0]).get(m[3]) == ['panic']:
                print('KNOWN-FINDING: property=%s %s' % (prop, m[5]), flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def check(prop, tier, seed):
    t0 = time.time()
    C = checks.CHECKS[prop]
    build([p['what'] for p in C['parts'] if not p.get('model')])
    d = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    tot = dict(states=0, distinct=0, traces=0)
    detail, bad, samples = [], None, []
    try:
        for part in C['parts']:
            if part.get('model'):
                # the specification by itself
                r = tlc(part['module'], part['cfg'], None, os.path.join(d, part['name']), 4)
                if (r['rc'] == 0) != (part['model'] == 'holds') or not r['distinct']:
                    fail('model %s: %s' % (part['cfg'], explain(r['out'])))
                tot['states'] += r['states']
                tot['distinct'] += r['distinct']
                detail.append(dict(part=part['name'], module=part['module'], cfg=part['cfg'], states=r['distinct'], expected=part['model']))
                continue
            rng = random.Random('%s/%s/%d' % (prop, part['name'], seed))
            jobs = list(dict.fromkeys(part['jobs'](rng, 1 if tier == 'quick' else part.get('deep', 6))))
            size = part.get('chunk', 60000)
            n = 0
            for a in range(0, len(jobs), size):
                sub = os.path.join(d, '%s%d' % (part['name'], a))
                os.makedirs(sub)
                st, bad = conform(part['module'], part['cfg'], part['what'], jobs[a:a + size], sub)
                shutil.rmtree(sub)
                for k in tot:
                    tot[k] += st[k]
                n += st['traces']
                if bad:
                    break
            detail.append(dict(part=part['name'], module=part['module'], cfg=part['cfg'], inputs=n))
            samples += [bytes.fromhex(j.split(' ')[5].replace('.', '')).decode('latin-1') for j in jobs[:: max(1, len(jobs) // 3)][:3]]
            if bad:
                report(prop, bad, part)
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if not bad:
        known(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=C['level'],
              coverage=dict(states=tot['distinct'], transitions=tot['states'],
                            traces_validated_against_impl=tot['traces'], samples=samples[:12] or ['none'], parts=detail),
              wall_s=round(time.time() - t0, 1), violations=1 if bad else 0)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d runs of the real code, %d states, %.0f s' % (prop, tier, tot['traces'], tot['distinct'], time.time() - t0))
    return 1 if bad else 0


def replay(f):
    v = json.load(open(f))
    build([v['what']])
    d = tempfile.mkdtemp(prefix='vp-replay-')
    try:
        _, bad = conform(v['module'], v['cfg'], v['what'], [v['job']], d, 1)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if bad:
        print(json.dumps(bad, indent=1))
        print('VIOLATION property=%s replay=%s' % (v['property'], f))
        return 1
    print('holds now')
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if a[0] == 'check':
        sys.exit(check(a[1], a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick'), seed))
    if a[0] == 'replay':
        sys.exit(replay(a[1]))
    fail('usage')
