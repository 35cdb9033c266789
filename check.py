#!/usr/bin/env python3
"""check.py PROPERTY - decide one property on /repo's current working tree.

1. Track B (deciding): the deductive verifier /verif/goverif generates the proof
   obligations of the contracts in /verif/contracts from /repo's current source
   and discharges them with SMT solvers.
2. Track A (bounded stand-in and replay): the executable contracts in
   /verif/harness run against the real code, on generated queries. They cover
   the parts that are not under a discharged contract, and they look for a
   concrete failing input when an obligation fails.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Other: error of the check.
"""
import json, os, subprocess, sys, time, hashlib, tempfile, shutil, re

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PROP = sys.argv[1]
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
OUT = os.path.join(VERIF, 'out', PROP)
T0 = time.time()

ENV = dict(os.environ)
ENV.update(GOTOOLCHAIN='local', GOPROXY='off', GOSUMDB='off', GOFLAGS='-mod=mod -buildvcs=false',
           GOWORK='off', CGO_ENABLED='0', GOGC='400')
ENV['PATH'] = '/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:' + ENV.get('PATH', '')
for k, v in (('HOME', '/root'), ('GOPATH', '/root/go')):
    ENV.setdefault(k, v)

CFG = json.load(open(os.path.join(VERIF, 'checks.json')))
P = CFG[PROP]


def die(msg):
    print('ERROR', msg, flush=True)
    sys.exit(3)


def known():
    """fixed and known findings: only 'known' entries suppress, by exact input or obligation name"""
    inputs, oblig, lines = set(), set(), []
    with open(os.path.join(VERIF, 'known', 'findings.txt')) as f:
        for ln in f:
            ln = ln.rstrip('\n')
            m = re.match(r'known: property=(\S+) (input|obligation)=(\S+|"(?:[^"\\]|\\.)*") (.*)$', ln)
            if m and m.group(1) == PROP:
                v = json.loads(m.group(3)) if m.group(3).startswith('"') else m.group(3)
                (inputs if m.group(2) == 'input' else oblig).add(v)
                lines.append('KNOWN-FINDING: property=%s %s' % (PROP, m.group(4)))
    return inputs, oblig, lines


def build_harness(tmp):
    binp = os.path.join(tmp, 'harness.test')
    ov = {'Replace': {}}
    for n in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if n.endswith('_test.go'):
            ov['Replace'][os.path.join(REPO, 'soql/parser/zz_verif_' + n)] = os.path.join(VERIF, 'harness', n)
    ovp = os.path.join(tmp, 'overlay.json')
    json.dump(ov, open(ovp, 'w'))
    r = subprocess.run(['go', 'test', '-c', '-vet=off', '-o', binp, '-overlay', ovp, './soql/parser'], cwd=REPO, env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die('cannot build the harness against the current tree:\n' + r.stdout[-4000:])
    return binp


def run_harness(tmp, binp, secs, workers, first=0):
    tot = dict(evaluations=0, distinct_nontrivial=0, accepted=0, rejected=0, samples=[], findings=[], stopped=[], processes=0)
    end = time.time() + secs
    run = {}
    nxt = first

    def start():
        nonlocal nxt
        w = nxt
        nxt += 1
        e = dict(ENV)
        e.update(VERIF_PROP=PROP, VERIF_SEED=str(SEED * 100000 + w), VERIF_SECS='%.1f' % max(1.0, end - time.time()), VERIF_WORKER=str(w),
                 VERIF_OUT=os.path.join(tmp, 'h%d.json' % w), VERIF_TRACE=os.path.join(tmp, 't%d' % w), GOMAXPROCS='2', GOGC='100')
        e.pop('VERIF_REPLAY', None)
        log = open(os.path.join(tmp, 'l%d' % w), 'w')
        run[w] = subprocess.Popen([binp, '-test.run', 'TestVerif$', '-test.timeout', '20m'],
                                  cwd=os.path.join(REPO, 'soql/parser'), env=e, stdout=log, stderr=log)

    for _ in range(workers):
        start()
    while run:
        time.sleep(0.05)
        for w in [w for w in run if run[w].poll() is not None]:
            del run[w]
            tot['processes'] += 1
            collect(tmp, w, tot)
            if len(tot['findings']) < 5 and time.time() < end - 0.5:
                start()
        if time.time() > end + 240:
            for p in run.values():
                p.kill()
    tot['samples'] = tot['samples'][:6]
    return tot


def collect(tmp, w, tot):
    f = os.path.join(tmp, 'h%d.json' % w)
    if os.path.exists(f):
        r = json.load(open(f))
        for k in ('evaluations', 'distinct_nontrivial', 'accepted', 'rejected'):
            tot[k] += r[k]
        tot['samples'] += (r['samples'] or [])[-2:]
        tot['findings'] += r['findings'] or []
        if r.get('stopped'):
            tot['stopped'].append(r['stopped'])
    else:
        # the process died: fatal error (stack overflow, out of memory) or panic of the harness
        tail = open(os.path.join(tmp, 'l%d' % w), errors='replace').read()
        text = ''
        try:
            b = open(os.path.join(tmp, 't%d' % w), 'rb').read()
            text = b[10:10 + int(b[:10])].decode('utf-8', 'replace')
        except Exception:
            pass
        head = tail[:300].replace('\n', ' ')
        if PROP == 'C01' and ('fatal error' in tail or 'panic' in tail):
            tot['findings'].append(dict(property='C01', input=text, what='the process died: ' + head, kind='parse'))
        elif 'fatal error' in tail:
            tot['stopped'].append('a worker died: ' + head)
        else:
            die('harness worker failed: ' + tail[-3000:])


def run_goverif(tmp, short):
    if not P.get('contracts'):
        return None
    binp = os.path.join(tmp, 'goverif')
    r = subprocess.run(['go', 'build', '-o', binp, '.'], cwd=os.path.join(VERIF, 'goverif'), env=ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        die('cannot build goverif:\n' + r.stdout[-4000:])
    outp = os.path.join(tmp, 'goverif.json')
    cmd = [binp, '-repo', REPO, '-contracts', os.path.join(VERIF, 'contracts'), '-property', PROP, '-out', outp,
           '-seed', str(SEED), '-tier', TIER, '-smt', os.path.join(tmp, 'smt')]
    if short:  # a failing input is known: the failed obligations are reported beside it, without a long search for proofs
        cmd += ['-fast', '10']
    # goverif stops by itself long before this limit; no answer from it counts as an obligation that was not discharged
    why = ''
    try:
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=660 if TIER == 'quick' else 5400)
        why = r.stdout[-4000:]
    except subprocess.TimeoutExpired:
        why = 'no answer in time'
    try:
        res = json.load(open(outp))
    except Exception:
        print('goverif gave no result:\n' + why)
        res = dict(obligations=[], errors=[dict(name='verifier', detail='the verifier could not process the current source: ' + why)],
                   trusted_base=[], functions=[], back_ends={}, solver_seconds=0.0, vacuity=0, slowest=[], assumptions=[])
    res['cmd'] = 'goverif -repo /repo -contracts /verif/contracts -property ' + PROP
    return res


def main():
    shutil.rmtree(OUT, ignore_errors=True)
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % PROP)
    try:
        kin, kob, klines = known()
        binp = build_harness(tmp)
        secs = float(os.environ.get('VERIF_SECS_OVERRIDE') or (P.get('secs', 12) if TIER == 'quick' else P.get('secs_thorough', 240)))
        workers = int(os.environ.get('VERIF_WORKERS', '6'))
        h = run_harness(tmp, binp, secs, workers)
        findings = [f for f in h['findings'] if f['input'] not in kin]
        gv = run_goverif(tmp, bool(findings))
        failed = []
        if gv:
            failed = [o for o in gv['obligations'] if o['status'] != 'proved' and o['name'] not in kob]
            for e in gv.get('errors') or []:
                failed.append(dict(name=e['name'], status='not generated', detail=e['detail']))
        if failed and not findings:
            # search longer for a concrete failing input, on other seeds
            h2 = run_harness(tmp, binp, max(secs, 90), 8, 5000)
            for k in ('evaluations', 'distinct_nontrivial', 'accepted', 'rejected', 'processes'):
                h[k] += h2[k]
            findings = [f for f in h2['findings'] if f['input'] not in kin]
        viol = []
        if findings:
            findings.sort(key=lambda f: len(f['input']))
            f = findings[0]
            f['failed_obligations'] = [dict(name=o['name'], status=o['status'], detail=o.get('detail', '')[:2000]) for o in failed][:20]
            f['how_to_replay'] = ('cd /repo && go test -overlay /verif/harness/overlay.json ./soql/parser -run TestVerif$ -v with '
                                  'VERIF_PROP=%s VERIF_REPLAY=<this file>' % PROP)
            rp = os.path.join(OUT, 'replay.json')
            json.dump(f, open(rp, 'w'), indent=1, ensure_ascii=False)
            print('failing input: %r' % f['input'])
            print('what fails   : %s' % f['what'])
            for o in failed[:5]:
                print('failed obligation: %s (%s)' % (o['name'], o['status']))
            viol.append('VIOLATION property=%s replay=%s' % (PROP, rp))
        elif failed:
            rp = os.path.join(OUT, 'obligations.json')
            json.dump(dict(property=PROP, failed=failed), open(rp, 'w'), indent=1)
            for o in failed[:10]:
                print('failed obligation: %s (%s)' % (o['name'], o['status']))
            viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (PROP, rp))

        cov = {}
        if gv:
            obs = gv['obligations']
            cov.update(obligations=len(obs) + len(gv.get('errors') or []),
                       discharged=sum(1 for o in obs if o['status'] == 'proved'),
                       checker_cmd=gv['cmd'],
                       trusted_base=gv['trusted_base'] or [],
                       functions_under_contract=gv['functions'],
                       back_ends=gv['back_ends'],
                       solver_seconds=gv['solver_seconds'],
                       vacuity_checks=gv['vacuity'],
                       slowest=gv['slowest'])
        cov.update(evaluations=h['evaluations'], distinct_nontrivial=h['distinct_nontrivial'],
                   accepted=h['accepted'], rejected=h['rejected'],
                   rule=P['rule'], samples=h['samples'][:6], bounded_part=P['bounded'], stopped=h['stopped'])
        ev = dict(property=PROP, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level=P['level'], coverage=cov,
                  assumptions=P['assumptions'] + ((gv['assumptions'] or []) if gv else []),
                  wall_s=round(time.time() - T0, 2), violations=len(viol))
        json.dump(ev, open(os.path.join(VERIF, 'evidence', PROP + '.json'), 'w'), indent=1, ensure_ascii=False)
        for ln in klines:
            print(ln)
        if gv:
            print('%s: %d obligations, %d discharged, %.1f s solver' % (PROP, cov['obligations'], cov['discharged'], gv['solver_seconds']))
        print('%s: bounded part: %d evaluations, %d distinct' % (PROP, h['evaluations'], h['distinct_nontrivial']))
        for ln in viol:
            print(ln)
        sys.stdout.flush()
        sys.exit(1 if viol else 0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


main()
