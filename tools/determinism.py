#!/opt/venv/bin/python
"""Runs every sampled seed three times in different interpreters (other order, other hash seed,
other load) and compares the full event logs.   determinism.py [RUNS_PER_PROPERTY [SEED]]"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)


def child(order, runs, seed, part, parts):
    import check
    from sim import boot
    boot.boot()
    from sim import engine
    work = [(p, n) for p in sorted(check.QUICK) for n in range(runs)][part::parts]
    if order == 'reverse':
        work.reverse()
    for p, n in work:
        h = engine.execute(check.scenario(p, seed, n), '%d/%s/%d' % (seed, p, n))
        print('FP', json.dumps([p, n, h.fingerprint(), h.inconclusive]), flush=True)
    os._exit(0)


def main():
    if sys.argv[1:2] == ['--child']:
        return child(sys.argv[2], *map(int, sys.argv[3:]))
    import check
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 20
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 77
    results = []
    scratch = check.make_scratch()
    try:
        for order, hs, parts in (('forward', '5', 8), ('reverse', '5', 6), ('forward', '99', 11)):
            ps = [subprocess.Popen(
                [sys.executable, os.path.abspath(__file__), '--child', order, str(runs), str(seed),
                 str(i), str(parts)], env=check.worker_env(hs, scratch), stdout=subprocess.PIPE,
                stderr=subprocess.DEVNULL, text=True) for i in range(parts)]
            found = {}
            for p in ps:
                for line in p.communicate()[0].splitlines():
                    if line.startswith('FP '):
                        a = json.loads(line[3:])
                        found[a[0], a[1]] = (a[2], a[3])
            results.append(found)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    a, b, c = results
    same = [k for k in a if a[k] != b.get(k)]
    other = [k for k in a if a[k] != c.get(k)]
    print('%d seeds; differing with the same hash seed: %s; with another hash seed: %s' % (
        len(a), same, other))
    return 1 if same or len(a) != runs * len(check.QUICK) else 0


if __name__ == '__main__':
    sys.exit(main())
