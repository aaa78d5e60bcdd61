"""python3-vt -m vf.check <property> : decide one property on /repo's current tree."""
import os, sys, time, json, hashlib, threading, glob, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import build, registry

TRUST = [
    'clang-18 -O0 front end (IR of the real translation unit) and the LVC translation of that IR (lvc/)',
    'z3 5.3 (quantifier instantiation, linear arithmetic, arrays)',
    'memory model: separate objects, cells keyed by access width (a cell is read with the width it was written with)',
]


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a.startswith('--tier='):
            tier = a[7:]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = registry.PROPS[pid]
    t0 = time.time()
    log = lambda s: (print('[%6.1fs] %s' % (time.time() - t0, s)), sys.stdout.flush())
    alarms, notes, known, bounded = [], [], [], []
    cov = dict(obligations=0, discharged=0)
    drivers = P.get('drivers', [])
    built = {}

    def bld():
        for d in drivers:
            try:
                built[d['name']] = build.build_driver(d['src'], tuple(d.get('defs', ())), True, tuple(d.get('wraps', ())), tuple(d.get('libflags', ())))
            except Exception as e:
                built[d['name']] = e
    th = threading.Thread(target=bld)
    th.start()
    # ------------------------------------------------------------ deductive part
    import z3  # an unusable prover is an error, not a verdict
    from vf import prove
    res = {}
    try:
        if P.get('proofs'):
            res = prove.prove(P['proofs'], tmo=15000 if tier == 'quick' else 60000, seed=seed, log=log)
    except build.BuildError as e:
        # a tree that does not compile is not a counterexample to any property
        notes.append('source not translatable: ' + str(e)[:400])
    except Exception:
        notes.append('deductive part failed to run: ' + traceback.format_exc(limit=3)[-500:])
    under, failed_fn = [], []
    backends, stime = {}, 0.0
    assumed = set()
    for k, d in sorted(res.items()):
        n = len(d['obs'])
        ok = sum(o['status'] == 'proved' for o in d['obs'])
        cov['obligations'] += n
        cov['discharged'] += ok
        for o in d['obs']:
            if o['status'] == 'proved':
                backends[o['be']] = backends.get(o['be'], 0) + 1
            stime += o['time']
        under.append(dict(function=d['fn'], obligations=n, discharged=ok, proved=d['proved'],
                          inlined=d.get('inlined', []), vacuity=d.get('vac')))
        assumed |= set(d.get('assumed') or [])
        if not d['proved']:
            failed_fn.append(d)
    log('deductive: %d functions under contract, %d/%d obligations discharged' % (len(res), cov['discharged'], cov['obligations']))
    # --------------------------------------------------------- native contract runs
    th.join()
    execs = units = 0
    samples = []
    secs = int(os.environ.get('VF_SECS', 0)) or P.get('secs', 20) * (1 if tier == 'quick' else 8)
    from vf import fuzz
    for d in drivers:
        exe = built[d['name']]
        if isinstance(exe, Exception):
            notes.append('driver %s not built: %s' % (d['name'], str(exe)[-600:]))
            continue
        share = max(5, int(secs * d.get('share', 1.0 / len(drivers))))
        r = fuzz.campaign(exe, share, seed, max_len=d.get('max_len', 600), seeds=[bytes(s, 'latin1') if isinstance(s, str) else s for s in d.get('seeds', ())], log=log)
        execs += r['execs']
        units += r['units']
        samples += ['%s: %s' % (d['name'], s) for s in r['samples'][:2]]
        log('driver %s: %d cases on the real code, %d coverage points' % (d['name'], r['execs'], r['cov']))
        if r['fail']:
            f = r['fail']
            alarms.append(('input', d['name'], f['headline'], f))
    # custom python checks (cbmc etc.)
    for fn in P.get('extra', []):
        r = fn(tier, seed, log)
        cov.setdefault('extra', []).append(r.get('coverage'))
        if r.get('alarm'):
            alarms.append(('extra', r['name'], r['alarm'], r))
        notes += r.get('notes', [])
        bounded += r.get('bounded', [])
    # ---------------------------------------------------------------- verdict
    os.makedirs(os.path.join(build.VERIF, 'replays'), exist_ok=True)
    out = []
    for kind, name, head, f in alarms:
        rp = os.path.join(build.VERIF, 'replays', '%s-%s.txt' % (pid, hashlib.md5(repr((name, head)).encode()).hexdigest()[:8]))
        with open(rp, 'w') as fp:
            fp.write('property %s: %s\n' % (pid, P['title']))
            fp.write('failing %s on the real code, driver %s\n%s\n' % (kind, name, head))
            if 'data' in f:
                fp.write('case (hex): %s\nreplay: cd /verif && python3-vt -m vf.replay %s %s <this file>\n' % (f['data'].hex(), pid, name))
            fp.write('\n' + str(f.get('text', ''))[:20000] + '\n')
            for d in failed_fn:
                fp.write('\nopen obligations of %s: %s %s\n' % (d['fn'], d['error'] or '', [o['label'] for o in d.get('failed', [])]))
        out.append('VIOLATION property=%s replay=%s' % (pid, rp))
        log('%s: %s' % (name, head))
    if not alarms:
        for d in failed_fn:
            if d['error']:
                notes.append('%s: not decided deductively (%s); bounded runs of the real code stand in' % (d['fn'], d['error'].splitlines()[-1] if d['error'] else ''))
                bounded.append(d['fn'])
                continue
            bad = d['failed']
            if not d['attached']:
                notes.append('%s: the loop annotations no longer attach to the changed loops (%d open obligations); bounded runs of the real code stand in'
                             % (d['fn'], len(bad)))
                bounded.append(d['fn'])
                continue
            rp = os.path.join(build.VERIF, 'replays', '%s-proof-%s.txt' % (pid, d['fn']))
            with open(rp, 'w') as fp:
                fp.write('property %s: %s\nfunction %s: contract obligations that no longer discharge\n' % (pid, P['title'], d['fn']))
                for o in bad:
                    fp.write('%s  %s  [%s] at %s line %d\n%s\n' % (o['status'], o['kind'], o['label'], o['fn'], o['line'], o['model'] or ''))
            log('%s: %s' % (d['fn'], '; '.join('%s [%s] %s line %d' % (o['status'], o['label'], o['fn'], o['line']) for o in bad[:4])))
            out.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    for kf in registry.known(pid):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf))
        known.append(kf)
    if notes and any('deductive part failed' in n for n in notes) or any(not d['proved'] for d in failed_fn):
        cov['incomplete_proof'] = 'on this tree not every obligation was discharged; see notes and functions_under_contract'
    for n in notes:
        log('note: ' + n)
    cov.update(checker_cmd='cd /verif && python3-vt -m vf.check %s' % pid,
               trusted_base=TRUST + P.get('trust', []), functions_under_contract=under, backends=backends,
               solver_s=round(stime, 2), evaluations=execs, distinct_nontrivial=units,
               rule='driver cases: byte strings decoded into API histories, coverage-guided from VERIF_SEED; distinct = kept because it reached new coverage',
               samples=samples or ['none'], bounded_functions=sorted(set(bounded + P.get('bounded', []))),
               explanation=P.get('note', ''), notes=notes, known_findings=known)
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=P['level'], coverage=cov,
              assumptions=P.get('trust', []) + sorted(assumed), wall_s=round(time.time() - t0, 2), violations=len(out))
    os.makedirs(os.path.join(build.VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(build.VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for l in out[:5]:
        print(l)
    if not out:
        log('property %s held on everything explored' % pid)
    sys.stdout.flush()
    sys.exit(1 if out else 0)


if __name__ == '__main__':
    main()
