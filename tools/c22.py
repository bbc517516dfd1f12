#!/usr/bin/env python3
"""C22: run the monitors' workloads under AddressSanitizer, ThreadSanitizer and Miri and watch for their reports.

exit 0 nothing seen / 1 VIOLATION / 2 the check itself failed.  Called by check.sh after the plain build and the
in-process part (`hv check C22`), whose evidence file this adds to.
"""
import concurrent.futures as cf, json, os, re, subprocess, sys, time

V = os.environ['VERIF_DIR']
T = os.environ['CARGO_TARGET_DIR']
H = V + '/harness'
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
thorough = os.environ.get('VERIF_TIER') == 'thorough'
ms = int(os.environ.get('HV_C22_MS', '20000' if thorough else '5000'))
rounds = 3 if thorough else 1
TRIPLE = 'x86_64-unknown-linux-gnu'
MIRI = '-Zmiri-disable-isolation -Zmiri-ignore-leaks'
KINDS = {
    'asan': dict(args=['build', '--target', TRIPLE], env={'RUSTFLAGS': '-Zsanitizer=address'}),
    'tsan': dict(args=['build', '--target', TRIPLE, '-Zbuild-std'], env={'RUSTFLAGS': '-Zsanitizer=thread'}),
    'miri': dict(args=['miri', 'run', '--quiet'], env={'MIRIFLAGS': MIRI}, tail=['--', 'list']),
}
REPORT = re.compile(r'error: Undefined Behavior|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|AddressSanitizer:DEADLYSIGNAL|ThreadSanitizer:DEADLYSIGNAL|unsafe precondition\(s\) violated')
seen = {k: {'cases': 0, 'distinct inputs': 0, 'monitors': {}} for k in KINDS}
notes, bad = [], []


def env(kind):
    e = dict(os.environ)
    e.update(KINDS[kind]['env'])
    e['CARGO_TARGET_DIR'] = '%s/%s' % (T, kind)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=1'
    e['TSAN_OPTIONS'] = 'exitcode=99:halt_on_error=1:second_deadlock_stack=1'
    return e


def build(kind):
    k = KINDS[kind]
    cmd = ['cargo', '+nightly'] + k['args'] + ['--offline', '--locked'] + k.get('tail', [])
    p = subprocess.run(cmd, cwd=H, env=env(kind), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode and REPORT.search(p.stdout):
        report(kind, cmd, p.stdout)
    return kind, p.returncode, p.stdout


def report(kind, cmd, text):
    os.makedirs(V + '/replays', exist_ok=True)
    path = '%s/replays/C22-%s-%d.log' % (V, kind, len(bad))
    at = REPORT.search(text).start()
    cur = [l for l in text[:at].splitlines() if l.startswith('BEGIN ')][-1:]
    with open(path, 'w') as f:
        f.write('%s\nenvironment: %s\nmonitor: %s\n\n%s' % (' '.join(cmd), KINDS[kind]['env'], cur, text[at:at + 20000]))
    bad.append((kind, cur, text[at:at + 1500], path))


def run(kind, shard, of, s, per, n, threads, limit):
    """one shard; goes on behind a monitor the tool cannot execute"""
    start = 0
    stop = time.time() + limit
    while time.time() < stop:
        small = ['small', 'seed=%d' % s, 'ms=%d' % per, 'of=%d' % of, 'shard=%d' % shard, 'threads=%d' % threads, 'n=%d' % n, 'from=%d' % start]
        e = env(kind)
        if kind == 'miri':
            e['MIRIFLAGS'] = MIRI + ' -Zmiri-seed=%d' % (s * 100 + shard)
            cmd = ['cargo', '+nightly', 'miri', 'run', '--quiet', '--offline', '--locked', '--'] + small
        else:
            cmd = ['%s/%s/%s/debug/hv' % (T, kind, TRIPLE)] + small
        p = subprocess.Popen(cmd, cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        timed = False
        try:
            out, _ = p.communicate(timeout=max(1, stop - time.time()))
        except subprocess.TimeoutExpired:
            timed = True
            os.killpg(p.pid, 9)
            out, _ = p.communicate()
        last = None
        for l in out.splitlines():
            f = l.split()
            if f[:1] == ['BEGIN'] and len(f) == 4:
                last = f
            elif f[:1] == ['SMALL'] and len(f) == 6:
                c, d = int(f[3].split('=')[1]), int(f[4].split('=')[1])
                seen[kind]['cases'] += c
                seen[kind]['distinct inputs'] += d
                m = seen[kind]['monitors']
                k = f[1] + ' ' + f[2]
                m[k] = m.get(k, 0) + c
        if REPORT.search(out):
            report(kind, cmd, out)
            return
        if timed:
            notes.append('%s shard %d: out of time in %s' % (kind, shard, last))
            return
        if 'END' in out.splitlines():
            return
        if not last:
            sys.stderr.write(out[-3000:])
            notes.append('%s shard %d did not start' % (kind, shard))
            return
        why = [l for l in out.splitlines() if l.startswith('error')][:1]
        notes.append('%s stopped in %s %s (exit %s) %s' % (kind, last[1], last[2], p.returncode, ' '.join(why)))
        start = int(last[3])


def main():
    t0 = time.time()
    only = sys.argv[1:] or list(KINDS)
    with cf.ThreadPoolExecutor(4) as ex:
        for kind, rc, out in ex.map(build, only):
            if rc and not bad:
                sys.stderr.write(out[-4000:])
                print('check error: the %s build failed' % kind)
                return 2
    tb = time.time() - t0
    for r in range(rounds):
        s = seed + 1000 * r
        for kind in only:
            if bad:
                break
            if kind == 'miri':
                of = 8
                with cf.ThreadPoolExecutor(8) as ex:
                    list(ex.map(lambda i: run('miri', i, of, s, ms, 40 if not thorough else 400, 1, 900 if thorough else 260), range(of)))
            else:
                run(kind, 0, 1, s, ms // 20 if kind == 'asan' else ms // 16, 10**9, 8, 900 if thorough else 150)
    p = '%s/evidence/C22%s.json' % (V, os.environ.get('HV_EVIDENCE_SUFFIX', ''))
    if os.environ.get('HV_NO_EVIDENCE') is None and os.path.exists(p):
        ev = json.load(open(p))
        ev['coverage']['sanitized'] = seen
        ev['coverage']['sanitizer notes'] = notes
        ev['coverage']['sanitizer builds, seconds'] = round(tb, 1)
        ev['wall_s'] = ev.get('wall_s', 0) + time.time() - t0
        ev['violations'] = ev.get('violations', 0) + len(bad)
        json.dump(ev, open(p, 'w'), indent=1)
    for k in only:
        print('C22 %s: %d cases of %d monitors, %d report(s)' % (k, seen[k]['cases'], len(seen[k]['monitors']), sum(b[0] == k for b in bad)))
    for n in notes:
        print('note: ' + n)
    for kind, cur, text, path in bad:
        print('--- %s in %s\n%s' % (kind, cur, text))
        print('VIOLATION property=C22 replay=%s' % path)
    if bad:
        return 1
    if any(not seen[k]['cases'] for k in only):
        print('check error: nothing ran under one of the sanitizers')
        return 2
    print('%.0f s' % (time.time() - t0))
    return 0


sys.exit(main())
