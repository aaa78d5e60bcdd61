"""Native contract drivers: run the real code (ASan) against the executable postconditions."""
import os, subprocess, random, glob, re, time, shutil
from . import build

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1:symbolize=1:max_allocation_size_mb=3000',
           ASAN_SYMBOLIZER_PATH='/usr/bin/llvm-symbolizer-18', LC_ALL='C')


def excerpt(txt):
    lines = txt.splitlines()
    keep = []
    for i, l in enumerate(lines):
        if 'VFAIL' in l or 'VTRACE' in l or 'ERROR: ' in l or re.match(r'\s+#[0-9] ', l):
            keep.append(l[:2000])
        if len(keep) > 14:
            break
    return '\n'.join(keep) if keep else '\n'.join(lines[-15:])


def headline(txt):
    for l in txt.splitlines():
        if 'VFAIL' in l:
            return l.split('VFAIL', 1)[1].strip()[:300]
    for l in txt.splitlines():
        m = re.search(r'ERROR: (\S+): (.*)', l)
        if m:
            return m.group(0)[:300]
    return 'driver ended abnormally'


def run_file(exe, path, timeout=60, cwd=None, args=()):
    try:
        r = subprocess.run([exe] + list(args) + [path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=ENV, cwd=cwd)
        return r.returncode, r.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 99, (e.stdout or b'').decode('utf8', 'replace') + '\nVFAIL no answer within %d s (does not terminate)' % timeout


def campaign(exe, secs, seed, workers=8, max_len=600, seeds=(), log=print, tmo=20):
    """-> dict(fail=None|dict(data, text, headline), execs, cov, units, init_only)"""
    top = os.path.join(build.scratch(), 'fz-' + os.path.basename(exe))
    shutil.rmtree(top, ignore_errors=True)
    ps = []
    for w in range(workers):
        d = os.path.join(top, str(w))
        os.makedirs(d + '/corpus')
        os.makedirs(d + '/art')
        os.makedirs(d + '/run')
        rnd = random.Random(seed * 1000 + w)
        for k in range(60):
            n = rnd.choice((8, 16, 32, 64, 128, max_len // 2, max_len))
            n = min(n, max_len)
            style = k % 4
            if style == 0:
                b = bytes(rnd.randrange(256) for _ in range(n))
            elif style == 1:
                b = bytes(rnd.choice((0, 1, 2, 3, 7, 8, 255)) for _ in range(n))
            elif style == 2:
                b = bytes(rnd.randrange(16) for _ in range(n))
            else:
                al = bytes(rnd.randrange(256) for _ in range(5))
                b = bytes(rnd.choice(al) for _ in range(n))
            open('%s/corpus/r%d' % (d, k), 'wb').write(b)
        for k, s in enumerate(seeds):
            open('%s/corpus/s%d' % (d, k), 'wb').write(s)
        cmd = [exe, '-max_total_time=%d' % secs, '-seed=%d' % (seed * 100 + w + 1), '-timeout=%d' % tmo, '-rss_limit_mb=3000', '-max_len=%d' % max_len,
               '-artifact_prefix=%s/art/' % d, '-print_final_stats=1', '-reload=0', '-verbosity=1', '-len_control=%d' % (0 if w % 2 else 50)]
        if w % 4 == 3:
            cmd.append('-use_value_profile=1')
        cmd.append(d + '/corpus')
        f = open(d + '/log', 'wb')
        ps.append((subprocess.Popen(cmd, stdout=f, stderr=f, env=ENV, cwd=d + '/run'), d))
    res = dict(fail=None, execs=0, units=0, cov=0, samples=[])
    t_end = time.time() + secs + 90
    for p, d in ps:
        try:
            p.wait(max(1, t_end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    for p, d in ps:
        txt = open(d + '/log', 'rb').read().decode('utf8', 'replace')
        m = re.search(r'number_of_executed_units: (\d+)', txt)
        res['execs'] += int(m.group(1)) if m else 0
        for m in re.finditer(r'cov: (\d+)', txt):
            res['cov'] = max(res['cov'], int(m.group(1)))
        res['units'] += len(os.listdir(d + '/corpus'))
        if p.returncode != 0 and res['fail'] is None:
            arts = sorted(glob.glob(d + '/art/*'), key=os.path.getsize)
            if arts:
                rc, t = run_file(exe, arts[0], 60, d + '/run', ['-timeout=40', '-rss_limit_mb=3000'])
                if rc == 0 and 'timeout-' not in arts[0]:
                    rc, t = run_file(exe, arts[0], 60, d + '/run', ['-timeout=40', '-rss_limit_mb=3000'])
                if rc == 0:
                    log('note: %s not reproducible (%s)' % (os.path.basename(arts[0]), headline(txt)))
                    continue
                data, t = shrink(exe, arts[0], t, d)
                res['fail'] = dict(data=data, text=t, headline=headline(t))
            else:
                rc, t = run_file(exe, '/dev/null', 60, d + '/run')
                if rc == 0:
                    log('note: driver worker ended with %s without a case: %s' % (p.returncode, headline(txt)))
                    continue
                res['fail'] = dict(data=b'', text=t, headline=headline(t))
    for p, d in ps[:1]:
        fs = sorted(glob.glob(d + '/corpus/*'), key=os.path.getmtime)[-3:]
        res['samples'] = [open(f, 'rb').read()[:64].hex() for f in fs]
    shutil.rmtree(top, ignore_errors=True)
    return res


def shrink(exe, path, text, d, budget=8):
    data = open(path, 'rb').read()
    t0 = time.time()
    tmp = d + '/shrink'
    step = max(1, len(data) // 2)
    n = 0
    while step and time.time() - t0 < budget:
        i = 0
        while i < len(data) and time.time() - t0 < budget:
            cand = data[:i] + data[i + step:]
            open(tmp, 'wb').write(cand)
            rc, t = run_file(exe, tmp, 15, d + '/run')
            if rc not in (0, 99):
                data, text = cand, t
            else:
                i += step
        step //= 2
    return data, text
