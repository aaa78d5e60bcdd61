"""Deductive part of a check: generate and discharge the obligations of the contracts in
specs/<name>.py against the IR of the current source.  Runs in forked workers."""
import os, sys, time, json, importlib, multiprocessing as mp, traceback, struct, pickle
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from . import build

ATTACH = os.path.join(build.VERIF, 'specs', 'attach.json')


def fingerprint(eng, mod, fn):
    f = mod.funcs.get('@' + fn)
    if f is None:
        return None
    loops, order = eng.loops_of(f)
    al, prom = eng.promotable(f)
    names = {}
    for b in f.order:
        for x in f.blocks[b]:
            if x.op == 'dbgname':
                names[x.args[0]] = x.args[1]
    per = []
    for h, i in sorted(order.items(), key=lambda p: p[1]):
        m = set()
        for b in loops[h]:
            for x in f.blocks[b]:
                if x.op == 'store' and x.args[1][0] == 'reg' and x.args[1][1] in prom:
                    n = names.get(x.args[1][1])
                    if n:
                        m.add(n)
        per.append(sorted(m))
    return {'loops': per, 'locals': sorted(set(names.values()))}


def attached(fp, base):
    """do the loop annotations still attach to the function they were written for?"""
    if fp is None:
        return False
    if not fp['loops'] and not (base or {}).get('loops'):
        return True          # nothing but pre/postconditions: they attach to the interface
    if base is None:
        return False
    return fp['loops'] == base['loops'] and set(base['locals']) <= set(fp['locals'])


def load(spec, ll):
    from lvc import ir
    mod = ir.parse(ll)
    sp = importlib.import_module('specs.' + spec)
    return mod, sp, sp.contracts(mod)


SEM = None


def solve(engine, obs, todo, tmo, seed):
    out = []
    S = engine.Solver(tmo, seed)
    for i in todo:
        o = obs[i]
        t = time.time()
        openn = sum(x['status'] != 'proved' for x in out)
        if openn >= 6:      # the function is broken already; the rest stays open
            out.append(dict(i=i, kind=o.kind, label=o.label, fn=o.fn, line=o.line, status='skipped', be='', time=0, model=None))
            continue
        r, be, m = S.solve(o.facts, o.goal, tmo if openn < 2 else min(tmo, 4000))
        out.append(dict(i=i, kind=o.kind, label=o.label, fn=o.fn, line=o.line, status=r, be=be, time=time.time() - t, model=m))
    return out


def work(job):
    with SEM:
        return work1(job)


def work1(job):
    spec, ll, fn, shard, nsh, tmo, seed, want = job
    import z3
    from lvc import engine
    t0 = time.time()
    out = dict(spec=spec, fn=fn, shard=shard, obs=[], error=None, vac=None, exits=0, assumed=[], inlined=[])
    try:
        mod, sp, cs = load(spec, ll)
        c = [x for x in cs if x.fn == fn][0]
        opts = sp.options(mod) if hasattr(sp, 'options') else {}
        if hasattr(sp, 'fn_options'):
            opts.update(sp.fn_options(mod, fn) or {})
        eng = engine.Engine(mod, cs, **opts)
        eng.deadline = time.time() + 150
        try:
            out['fp'] = fingerprint(eng, mod, fn)
        except Exception:
            out['fp'] = None
        obs = eng.verify(c)
        out['gen_s'] = time.time() - t0
        out['exits'] = eng.exits
        out['inlined'] = sorted(eng.inlined)
        out['assumed'] = sorted(eng.assumed)
        out['total'] = len(obs)
        if want is None:
            # vacuity: neither the precondition nor every way out may be contradictory
            s = z3.SimpleSolver()
            s.set('timeout', 3000)
            s.add(*engine.Facts.tolist(eng.pre_facts))
            v = [str(s.check())]
            ok = 0
            for fx in eng.exit_facts[:40]:
                s = z3.SimpleSolver()
                s.set('timeout', 1500)
                s.set('mbqi', False)
                s.add(*engine.Facts.tolist(fx))
                if s.check() != z3.unsat:
                    ok += 1
                    if ok >= 2:
                        break
            out['vac'] = dict(pre=v[0], exits_ok=ok)
        todo = [i for i in range(len(obs)) if want is None or i in want]
        if nsh <= 1 or len(todo) < 12:
            out['obs'] += solve(engine, obs, iter(todo), tmo, seed)
        else:
            rq, wq = os.pipe()
            os.write(wq, b''.join(struct.pack('<i', i) for i in todo[:16000]))
            os.close(wq)

            def feed():
                while True:
                    b = os.read(rq, 4)
                    if len(b) < 4:
                        return
                    yield struct.unpack('<i', b)[0]
            kids = []
            SEM.release()
            for k in range(nsh):
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    try:
                        os.close(r)
                        with SEM:
                            res = solve(engine, obs, feed(), tmo, seed)
                        with os.fdopen(w, 'wb') as f:
                            pickle.dump(res, f)
                    finally:
                        os._exit(0)
                os.close(w)
                kids.append((pid, r))
            for pid, r in kids:
                with os.fdopen(r, 'rb') as f:
                    data = f.read()
                os.waitpid(pid, 0)
                if data:
                    out['obs'] += pickle.loads(data)
            SEM.acquire()
            got = {o['i'] for o in out['obs']}
            for i in todo:
                if i not in got:
                    o = obs[i]
                    out['obs'].append(dict(i=i, kind=o.kind, label=o.label, fn=o.fn, line=o.line, status='unknown', be='', time=0, model=None))
    except engine.Unsupported as e:
        out['error'] = 'unsupported: %s' % e
    except Exception as e:
        out['error'] = 'internal: %s' % traceback.format_exc(limit=-4)
    out['wall'] = time.time() - t0
    return out


def nshards(fn, hist):
    t = (hist or {}).get('cost', 0)
    return max(1, min(8, int(t / 2.5) + 1))


def prove(specs, tmo=15000, seed=1, procs=8, log=print):
    """specs: list of (spec, tu, [fn..] or None).  -> dict fn -> result"""
    base = json.load(open(ATTACH)) if os.path.exists(ATTACH) else {}
    jobs = []
    res = {}
    for spec, tu, fns in specs:
        ll = build.emit_ir(tu)
        mod, sp, cs = load(spec, ll)
        for c in cs:
            if fns is not None and c.fn not in fns:
                continue
            if getattr(c, 'assumed', False):
                continue
            key = '%s:%s' % (spec, c.fn)
            if '@' + c.fn not in mod.funcs:
                res[key] = dict(spec=spec, fn=c.fn, error='function not found (removed, renamed or untranslatable)', obs=[], fp=None, base=base.get(key))
                continue
            n = nshards(c.fn, base.get(key))
            jobs.append((spec, ll, c.fn, 0, n, tmo, seed, None))
    jobs.sort(key=lambda j: -(base.get('%s:%s' % (j[0], j[2]), {}).get('cost', 0)))
    ctx = mp.get_context('fork')
    global SEM
    SEM = ctx.Semaphore(procs)

    def merge(r):
        key = '%s:%s' % (r['spec'], r['fn'])
        d = res.setdefault(key, dict(spec=r['spec'], fn=r['fn'], error=None, obs=[], fp=None, base=base.get(key), vac=None, total=None,
                                     exits=0, inlined=[], assumed=[], wall=0))
        d['error'] = d['error'] or r['error']
        d['wall'] += r['wall']
        d['fp'] = d['fp'] or r.get('fp')
        d['vac'] = d['vac'] or r['vac']
        d['total'] = r.get('total') if d['total'] is None else d['total']
        d['exits'] = r['exits']
        d['inlined'] = r['inlined']
        d['assumed'] = r['assumed']
        d['obs'] += r['obs']
    with ctx.Pool(procs * 2, maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(work, jobs, chunksize=1):
            merge(r)
    # retry what is open with more time and other seeds, alone
    retry = []
    for spec, tu, fns in specs:
        ll = build.emit_ir(tu)
        for key, d in res.items():
            if d['spec'] != spec or d['error']:
                continue
            w = [o['i'] for o in d['obs'] if o['status'] == 'unknown']
            if w and len(w) <= 6:
                for i in w:
                    retry.append((spec, ll, d['fn'], 0, 1, tmo * 2, seed + 100, [i]))
    if retry:
        log('retrying %d open obligations' % len(retry))
        with ctx.Pool(procs * 2, maxtasksperchild=1) as pool:
            for r in pool.imap_unordered(work, retry[:24], chunksize=1):
                d = res['%s:%s' % (r['spec'], r['fn'])]
                d['wall'] += r['wall']
                new = {o['i']: o for o in r['obs']}
                d['obs'] = [new.get(o['i'], o) for o in d['obs']]
    for key, d in res.items():
        bad = [o for o in d['obs'] if o['status'] != 'proved']
        d['failed'] = bad
        d['proved'] = not d['error'] and not bad and len(d['obs']) > 0
        d['attached'] = attached(d.get('fp'), d.get('base'))
        v = d.get('vac')
        if d['proved'] and v and (v['pre'] == 'unsat' or v['exits_ok'] == 0):
            d['proved'] = False
            d['error'] = 'vacuous: contradictory precondition or no feasible exit'
    return res


if __name__ == '__main__':
    # python3-vt -m vf.prove [-w] spec tu [fn...]
    a = sys.argv[1:]
    write = '-w' in a
    a = [x for x in a if x not in ('-w', '-v', '-m', '-q')]
    t = time.time()
    r = prove([(a[0], a[1], a[2:] or None)], tmo=4000 if '-q' in sys.argv else 15000)
    for k, d in r.items():
        st = 'PROVED' if d['proved'] else 'OPEN'
        print('%-7s %-40s obs=%d wall=%.1f %s' % (st, k, len(d['obs']), d.get('wall', 0), (d['error'] or '') if '-v' in sys.argv else (d['error'] or '').strip().split(chr(10))[-1]), d.get('vac') or '', ' '.join(d.get('inlined') or []))
        fl = [o for o in d.get('failed', []) if o['status'] != 'skipped']
        if len(d.get('failed', [])) > len(fl):
            print('      (%d skipped)' % (len(d['failed']) - len(fl)))
        for o in fl[:12]:
            print('      %s %s [%s] %s:%d  %.1fs' % (o['status'], o['kind'], o['label'], o['fn'], o['line'], o['time']))
            if o['model'] and '-m' in sys.argv:
                print('         ' + o['model'].replace('\n', '\n         '))
    print('total %.1fs' % (time.time() - t))
    if write:
        b = json.load(open(ATTACH)) if os.path.exists(ATTACH) else {}
        for k, d in r.items():
            if d['proved']:
                b[k] = dict(d['fp'], cost=round(sum(o['time'] for o in d['obs']), 1), obs=len(d['obs']))
        json.dump(b, open(ATTACH, 'w'), indent=1, sort_keys=True)
