"""Plant bugs: `plant.py BATCH.py [ID...]` where BATCH.py defines BUGS = [dict(id, prop, edits=[(file, old, new)],
demo=python source, needs, breaks)].

For every bug: patch a scratch copy of /repo, check that the changed lines are original ones, that the demo passes on
the unchanged tree and fails on the changed one, that the repository's tests pass, and whether the check of the
property catches it. Confirmed bugs are written to /verif/seeded/<id>; the result goes to seeded_results.json.
`plant.py --recheck [ID...]` runs the checks again against the stored patches.
"""
import concurrent.futures as cf
import json
import os
import runpy
import shutil
import subprocess
import sys
import time

PY = '/opt/venv/bin/python'
SEEDED = '/verif/seeded'
RESULTS = '/verif/tools/seeded_results.json'
DEMO_SH = '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def run(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ, MPLBACKEND='Agg', OMP_NUM_THREADS='1', **(env or {}))
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def base():
    return run(['git', 'rev-list', '--max-parents=0', 'HEAD'], '/repo')[1].split()[0]


def original_lines(tree, diff, base_commit):
    """All removed lines (or, for pure insertions, one neighbour) come from the base commit."""
    bad = []
    fname, line = None, 0
    for row in diff.splitlines():
        if row.startswith('--- a/'):
            fname = row[6:]
        elif row.startswith('@@'):
            line = int(row.split()[1][1:].split(',')[0])
        elif row.startswith('-') and not row.startswith('---'):
            blame = run(['git', 'blame', '-l', '-s', '-L', f'{line},{line}', 'HEAD', '--', fname], '/repo')[1]
            if base_commit not in blame and not blame.startswith('^'):
                bad.append((fname, line, row))
            line += 1
        elif row.startswith(' '):
            line += 1
    return bad


def tests(tree):
    rc, out = run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=300'], tree)
    return rc == 0, out[-1500:]


def check(tree, prop, extra=()):
    t0 = time.time()
    rc, out = run([PY, '/verif/run.py', prop, '--slots', '2', *extra], '/verif',
                  {'PV_REPO': tree, 'PV_OUT': f'{tree}.out', 'VERIF_SEED': '1'}, 1500)
    shutil.rmtree(f'{tree}.out', ignore_errors=True)
    viol = [l for l in out.splitlines() if l.startswith('VIOLATION')]
    return rc, viol, out[-2500:], time.time() - t0


def handle(bug, base_commit):
    bid = bug['id']
    tree = f'/tmp/seed_{bid}'
    log = [f"== {bid} ({bug['prop']})"]
    shutil.rmtree(tree, ignore_errors=True)
    run(['cp', '-a', '/repo', tree])
    try:
        run(['git', 'checkout', '--', '.'], tree)
        for fname, old, new in bug['edits']:
            text = open(f'{tree}/{fname}').read()
            if text.count(old) != 1:
                return bid, 'BAD', '\n'.join(log + [f'   {text.count(old)} matches in {fname}: {old[:80]!r}'])
            open(f'{tree}/{fname}', 'w').write(text.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tree, capture_output=True, text=True).stdout
        if bad := original_lines(tree, diff, base_commit):
            return bid, 'BAD', '\n'.join(log + [f'   not an original line: {b}' for b in bad])
        if not any(r.startswith('-') and not r.startswith('---') for r in diff.splitlines()):
            log.append('   WARNING pure insertion')
        work = f'/tmp/seeddemo_{bid}'
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        open(f'{work}/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        open(f'{work}/demo.sh', 'w').write(DEMO_SH)
        os.chmod(f'{work}/demo.sh', 0o755)
        rc0, out0 = run(['bash', f'{work}/demo.sh'], '/repo', timeout=300)
        rc1, out1 = run(['bash', f'{work}/demo.sh'], tree, timeout=300)
        if rc0 != 0 or rc1 == 0:
            return bid, 'BAD', '\n'.join(log + [f'   demo: unchanged {rc0}, changed {rc1}', out0[-1500:], out1[-800:]])
        ok, out = tests(tree)
        if not ok:
            return bid, 'BAD', '\n'.join(log + ['   tests fail', out])
        dest = f'{SEEDED}/{bid}'
        os.makedirs(dest, exist_ok=True)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(f'{work}/{f}', dest)
        shutil.rmtree(work)
        open(f'{dest}/patch.diff', 'w').write(diff)
        json.dump(dict(property=bug['prop'], needs=bug['needs'], what_it_breaks=bug['breaks']),
                  open(f'{dest}/meta.json', 'w'), indent=1)
        return bid, *judge(tree, bug['prop'], log)
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def judge(tree, prop, log):
    rc, viol, out, t = check(tree, prop)
    if rc == 1 and viol:
        return 'CAUGHT', '\n'.join(log + [f'   caught in {t:.0f} s: {len(viol)} ' + '; '.join(v.split('replay=')[-1].split('/')[-1] for v in viol)])
    return 'MISSED', '\n'.join(log + [f'   MISSED rc={rc} in {t:.0f} s', out if rc != 0 else ''])


def recheck(bid):
    tree = f'/tmp/seed_{bid}'
    shutil.rmtree(tree, ignore_errors=True)
    run(['cp', '-a', '/repo', tree])
    try:
        prop = json.load(open(f'{SEEDED}/{bid}/meta.json'))['property']
        rc, out = run(['git', 'apply', f'{SEEDED}/{bid}/patch.diff'], tree)
        if rc:
            return bid, 'BAD', f'== {bid}: patch does not apply: {out}'
        return bid, *judge(tree, prop, [f'== {bid} ({prop})'])
    finally:
        shutil.rmtree(tree, ignore_errors=True)


def main():
    args = sys.argv[1:]
    results = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    with cf.ThreadPoolExecutor(int(os.environ.get('PLANT_JOBS', 4))) as pool:
        if args[0] == '--recheck':
            ids = args[1:] or sorted(os.listdir(SEEDED))
            futures = [pool.submit(recheck, b) for b in ids]
        else:
            bugs = runpy.run_path(args[0])['BUGS']
            b0 = base()
            futures = [pool.submit(handle, b, b0) for b in bugs if not args[1:] or b['id'] in args[1:]]
        for f in cf.as_completed(futures):
            bid, status, text = f.result()
            print(text, flush=True)
            if status != 'BAD':
                results[bid] = status
                json.dump(dict(sorted(results.items())), open(RESULTS, 'w'), indent=1)


main()
