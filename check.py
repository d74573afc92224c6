#!/opt/venv/bin/python
"""Decides one property by seeded search over simulated runs.

  check.py PROPERTY [quick|thorough]     VERIF_SEED / VERIF_TIER are honoured
  check.py --replay FILE                 runs one recorded violation again

Exit 0: held on everything explored.  Exit 1: VIOLATION line and replay file.  Exit 2: the check
itself could not give an answer.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
PYTHON = sys.executable
WORKERS = int(os.environ.get('SIM_WORKERS', '8'))
# hash seeds of the worker interpreters, and where each of them starts in the run numbers
HASH_SEEDS = ['0', '1', '20', '333', '4242', '55555', '654321', '7']

# runs per property: quick is sized for about a minute on eight cores
QUICK = dict(C01=1100, C02=1500, C03=900, C04=1100, C05=900, C06=1500, C07=1600, C08=1000,
             C09=1300, C10=900, C11=3500, C12=3000, C13=1600, C14=1100, C15=1500)
THOROUGH_FACTOR = 8
CAP = dict(quick=260, thorough=780)          # seconds of search
MINIMISE = dict(quick=90, thorough=100)       # seconds for minimising
KNOWN = os.path.join(HERE, 'known-findings.txt')
REPLAYS = os.path.join(HERE, 'replays')


def log(*args):
    print(*args, flush=True)


# -- running and judging one run ------------------------------------------------------------

def signature(h):
    return hashlib.sha1(repr([(r['proc'], r['outcome'], r.get('sig'), r.get('fired'))
                              for s in h.steps for r in s.reports]).encode()).hexdigest()[:16]


def kind_of(message):
    """The class of a violation: the message without names, numbers and details."""
    m = re.sub(r'step \d+:? ?', '', message)
    m = re.sub(r"'[^']*'|\"[^\"]*\"", 'Q', m)
    m = re.sub(r'(out|failed)/\S+|\S*doc\d+\S*', 'F', m)
    m = re.sub(r'bytes [0-9a-f]{8}\b', 'bytes', m)
    m = re.sub(r'\d+', 'N', m)
    m = re.split(r' \(differs| has N bytes|: Q|; |injected', m)[0]
    return ' '.join(m.split()[:9])


def judge(prop, h, refs):
    from sim import oracle
    if h.inconclusive and not (prop == 'C13' and h.inconclusive == 'wall'):
        return [], 0
    return oracle.JUDGE[prop](h, refs)


def scenario(prop, base_seed, n):
    from sim import core, gen
    scn = gen.GEN[prop](core.derive('run', base_seed, prop, n))
    return json.loads(json.dumps(scn))


# -- minimising ------------------------------------------------------------------------------

class Minimiser:
    def __init__(self, prop, refs, scn, trace, seed, klass, seconds):
        self.prop, self.refs = prop, refs
        self.scn, self.trace, self.seed, self.klass = scn, trace, seed, klass
        self.deadline = time.monotonic() + seconds
        self.tries = 0
        self.messages = []

    def left(self):
        return time.monotonic() < self.deadline and self.tries < 400

    def fails(self, scn, trace):
        from sim import engine
        if not self.left():
            return False
        self.tries += 1
        h = engine.execute(scn, self.seed, trace)
        msgs, _ = judge(self.prop, h, self.refs)
        if any(kind_of(m) == self.klass for m in msgs):
            self.messages = msgs
            # what was actually used of the trace
            self.used = h.trace()
            return True
        return False

    def accept(self, scn, trace):
        if self.fails(scn, trace):
            self.scn, self.trace = scn, trace
            return True
        return False

    def run(self):
        if not self.accept(self.scn, self.trace):
            return False
        self.reduce_scenario()
        self.reduce_trace()
        self.reduce_scenario()
        return True

    def variants(self):
        s = self.scn
        if len(s['steps']) > 1:
            for i in range(len(s['steps']) - 1, -1, -1):
                yield dict(s, steps=s['steps'][:i] + s['steps'][i + 1:]), i
        for i in range(len(s['docs']) - 1, -1, -1):
            if len(s['docs']) > 1:
                yield dict(s, docs=s['docs'][:i] + s['docs'][i + 1:]), None
        for key in ('opts', 'store'):
            if s.get(key):
                yield dict(s, **{key: {}}), None
                for k in list(s[key]):
                    yield dict(s, **{key: {x: v for x, v in s[key].items() if x != k}}), None
        for key in ('debug', 'decoys', 'xgz', 'gate', 'limit', 'spell', 'repeat', 'gate_field2'):
            if s.get(key):
                yield {k: v for k, v in s.items() if k != key}, None
        for i, d in enumerate(s['docs']):
            for k in ('gz', 'xgz', 'wild', 'sub', 'which', 'pad', 'mangle', 'file', 'how'):
                if d.get(k) is not None:
                    nd = {x: v for x, v in d.items() if x != k}
                    yield dict(s, docs=s['docs'][:i] + [nd] + s['docs'][i + 1:]), None
        for i, st in enumerate(s['steps']):
            def with_step(**kw):
                return dict(s, steps=s['steps'][:i] + [dict(st, **kw)] + s['steps'][i + 1:])
            if st.get('chunk'):
                yield with_step(chunk=0), None
            if st.get('latency'):
                yield with_step(latency=0), None
            if st.get('offset'):
                yield with_step(offset=0), None
            if st.get('update'):
                yield with_step(update=None), None
            if st.get('skip'):
                yield with_step(skip=False), None
            if st['workers'] > 1:
                yield with_step(workers=1), None
                if st['workers'] > 2:
                    yield with_step(workers=2), None
            if (st.get('beam') or {}).get('dups'):
                yield with_step(beam=dict(st['beam'], dups=[])), None
            if st['mode'] != 'threads' and not st.get('overlap'):
                yield with_step(mode='threads'), None

    def reduce_scenario(self):
        progress = True
        while progress and self.left():
            progress = False
            for scn, dropped in self.variants():
                if not self.left():
                    return
                trace = self.trace
                if dropped is not None:
                    trace = {}
                    for k, v in self.trace.items():
                        i, p = k.split('/', 1)
                        if int(i) != dropped:
                            trace['%d/%s' % (int(i) - (int(i) > dropped), p)] = v
                if self.accept(scn, {}) or self.accept(scn, trace):
                    progress = True
                    break

    def items(self):
        return [(k, what, tuple(x)) for k in sorted(self.trace)
                for what in ('faults', 'switches') for x in self.trace[k].get(what) or ()]

    @staticmethod
    def build(items):
        t = {}
        for k, what, x in items:
            t.setdefault(k, dict(switches=[], faults=[]))[what].append(list(x))
        return t

    def reduce_trace(self):
        items = self.items()
        if not items:
            return
        if self.accept(self.scn, {}):
            return
        faults = [x for x in items if x[1] == 'faults']
        if faults and len(faults) < len(items) and self.accept(self.scn, self.build(faults)):
            items = faults
        n = 2
        while len(items) > 1 and self.left():
            size = max(1, (len(items) + n - 1) // n)
            for start in range(0, len(items), size):
                rest = items[:start] + items[start + size:]
                if self.accept(self.scn, self.build(rest)):
                    items = rest
                    n = max(2, n - 1)
                    break
                if not self.left():
                    return
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)


# -- worker interpreter ---------------------------------------------------------------------------

def worker(argv):
    prop, tier, base_seed, index, total, runs, seconds, stop_file, ref_dir = argv
    base_seed, index, total, runs = int(base_seed), int(index), int(total), int(runs)
    deadline = time.monotonic() + float(seconds)
    from sim import boot
    boot.boot()
    from sim import engine, oracle
    refs = oracle.Refs(None if prop == 'C03' else ref_dir)
    out = os.fdopen(os.dup(1), 'w', buffering=1)

    def emit(kind, **kw):
        out.write(json.dumps(dict(kind=kind, **kw)) + '\n')

    for n in range(index, runs, total):
        if os.path.exists(stop_file) or time.monotonic() > deadline:
            break
        scn = scenario(prop, base_seed, n)
        seed = '%d/%s/%d' % (base_seed, prop, n)
        t0 = time.monotonic()
        h = engine.execute(scn, seed)
        if prop == 'C13' and h.inconclusive == 'wall':
            # a real-time limit alone proves nothing: try again with far more time
            old, engine.WALL = engine.WALL, engine.WALL * 2.5
            h = engine.execute(scn, seed)
            engine.WALL = old
        msgs, facts = judge(prop, h, refs)
        reports = [r for s in h.steps for r in s.reports]
        fired = {}
        for s in h.steps:
            for f in s.fired():
                key = '%s@%s' % (f[1], f[2]) if len(f) > 2 else f[1]
                fired[key] = fired.get(key, 0) + 1
        emit('run', n=n, facts=facts, inc=h.inconclusive, sig=signature(h),
             outcomes=[s.outcome for s in h.steps], fired=fired,
             steps=sum(r.get('steps') or 0 for r in reports),
             ops=sum(r.get('ops') or 0 for r in reports),
             pre=sum(r.get('preemptions') or 0 for r in reports),
             time=sum(max([r.get('time') or 0 for r in s.reports] or [0]) for s in h.steps),
             tool=scn['tool'], modes=[s['mode'] for s in scn['steps']], docs=len(scn['docs']),
             wall=round(time.monotonic() - t0, 3),
             fp=h.fingerprint() if n % 97 < 8 else None)
        if msgs and not h.inconclusive or msgs and prop == 'C13':
            klass = kind_of(msgs[0])
            with open(stop_file, 'a', encoding='utf-8') as f:
                f.write('%d\n' % n)
            m = Minimiser(prop, refs, scn, h.trace(), seed, klass, MINIMISE[tier])
            exact = m.run()
            emit('violation', n=n, seed=seed, messages=msgs, klass=klass, exact=exact,
                 scenario=m.scn if exact else scn, trace=m.trace if exact else None,
                 minimised=m.messages, tries=m.tries,
                 original=dict(scenario=scn, seed=seed), hash_seed=os.environ['PYTHONHASHSEED'])
            break
    if prop == 'C03':
        emit('refs', refs={k: hashlib.sha1(repr(v).encode()).hexdigest()
                           for k, v in refs.mem.items()}, hash_seed=os.environ['PYTHONHASHSEED'])
    emit('done')
    out.flush()
    os._exit(0)


def worker_env(hash_seed, scratch):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=hash_seed, SIM_SCRATCH=scratch, PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH='')
    env.pop('PYTHONPATH')
    return env


# -- replay ---------------------------------------------------------------------------------------

def replay_child(path):
    """In a fresh interpreter with the recorded hash seed: does the violation happen again?"""
    with open(path, encoding='utf-8') as f:
        rec = json.load(f)
    from sim import boot
    boot.boot()
    from sim import engine, oracle
    if rec['type'] == 'hash':
        r = oracle.Refs().compute(rec['scenario'], rec['scenario']['docs'][0])
        log('REF ' + hashlib.sha1(repr(r).encode()).hexdigest())
        os._exit(0)
    if rec['property'] == 'C13':
        engine.WALL = engine.WALL * 2.5
    h = engine.execute(rec['scenario'], rec['seed'], rec.get('trace'))
    msgs, _ = judge(rec['property'], h, oracle.Refs())
    # names made up by the code under test can differ: any violation of the property by this run counts
    msgs = [m for m in msgs if kind_of(m) == rec['class']] or msgs
    for m in msgs:
        log('  ' + m[:500])
    log('REPRODUCED' if msgs else 'NOT-REPRODUCED %s' % (h.inconclusive or ''))
    os._exit(1 if msgs else 0)


def replay(path, quiet=False):
    """True if the recorded violation happens again (in fresh interpreters)."""
    with open(path, encoding='utf-8') as f:
        rec = json.load(f)
    scratch = make_scratch()
    try:
        if rec['type'] == 'hash':
            seen = set()
            for hs in rec['hash_seeds']:
                p = subprocess.run([PYTHON, os.path.abspath(__file__), '--replay-child', path],
                                   env=worker_env(hs, scratch), stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, text=True, check=False, timeout=400)
                seen.update(x for x in p.stdout.splitlines() if x.startswith('REF '))
            if not quiet:
                log('results under hash seeds %s: %d different' % (rec['hash_seeds'], len(seen)))
            return len(seen) > 1
        p = subprocess.run([PYTHON, os.path.abspath(__file__), '--replay-child', path],
                           env=worker_env(rec['hash_seed'], scratch), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, check=False, timeout=700)
        if not quiet:
            log(p.stdout.rstrip())
        return p.returncode == 1 and 'REPRODUCED' in p.stdout.split('\n')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def make_scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
    while True:
        # constant length, see engine.scratch
        path = os.path.join(base, 'gtcheck-%s' % os.urandom(5).hex())
        try:
            os.mkdir(path)
            return path
        except FileExistsError:
            pass


# -- driver ---------------------------------------------------------------------------------------

class Driver:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.runs = QUICK[prop] * (THOROUGH_FACTOR if tier == 'thorough' else 1)
        if os.environ.get('SIM_RUNS'):
            self.runs = int(os.environ['SIM_RUNS'])
        self.records, self.violations, self.errors, self.refs = [], [], [], {}
        self.t0 = time.monotonic()

    def search(self, scratch):
        import selectors
        stop = os.path.join(scratch, 'stop')
        refs = os.path.join(scratch, 'refs')
        os.mkdir(refs)
        procs = []
        sel = selectors.DefaultSelector()
        for i in range(WORKERS):
            err = open(os.path.join(scratch, 'err-%d' % i), 'wb')
            p = subprocess.Popen(
                [PYTHON, os.path.abspath(__file__), '--worker', self.prop, self.tier,
                 str(self.seed), str(i), str(WORKERS), str(self.runs), str(CAP[self.tier]),
                 stop, refs],
                env=worker_env(HASH_SEEDS[i % len(HASH_SEEDS)], scratch),
                stdout=subprocess.PIPE, stderr=err)
            procs.append(p)
            sel.register(p.stdout, selectors.EVENT_READ, i)
        buffers = {i: b'' for i in range(WORKERS)}
        done = set()
        limit = self.t0 + CAP[self.tier] + MINIMISE[self.tier] + 150
        while sel.get_map():
            if time.monotonic() > limit:
                self.errors.append('a worker did not finish in time')
                break
            for key, _ in sel.select(timeout=1.0):
                i = key.data
                data = os.read(key.fd, 1 << 16)
                if not data:
                    sel.unregister(key.fileobj)
                    continue
                buffers[i] += data
                *lines, buffers[i] = buffers[i].split(b'\n')
                for line in lines:
                    try:
                        rec = json.loads(line)
                    except ValueError:
                        continue
                    if rec['kind'] == 'run':
                        self.records.append(rec)
                    elif rec['kind'] == 'violation':
                        self.violations.append(rec)
                    elif rec['kind'] == 'refs':
                        self.refs[rec['hash_seed']] = rec['refs']
                    elif rec['kind'] == 'done':
                        done.add(i)
        for i, p in enumerate(procs):
            if p.poll() is None:
                p.kill()
            p.wait()
            if i not in done:
                with open(os.path.join(scratch, 'err-%d' % i), 'rb') as f:
                    self.errors.append('worker %d: %s' % (i, f.read()[-1500:].decode('utf-8', 'replace')))

    def save(self, rec):
        os.makedirs(REPLAYS, exist_ok=True)
        text = json.dumps(rec, indent=1, sort_keys=True)
        path = os.path.join(REPLAYS, '%s-%s.json' % (
            self.prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, 'w', encoding='utf-8') as f:
            f.write(text + '\n')
        return path

    def hash_violation(self):
        """C03: the same document alone, in interpreters with different hash seeds."""
        first = {}
        for hs in sorted(self.refs):
            for key, digest in self.refs[hs].items():
                if key in first and first[key][1] != digest:
                    part = json.loads(key)
                    scn = dict(tool=part['tool'], docs=[part['doc']], opts=part['opts'],
                               gate=part['gate'], gate_field=part['gate_field'])
                    return dict(type='hash', property=self.prop, scenario=scn,
                                hash_seeds=[first[key][0], hs], seed='ref', trace={},
                                messages=['the result for a document alone depends on the hash seed'])
                first.setdefault(key, (hs, digest))
        return None

    def report_violation(self):
        candidates = []
        for v in sorted(self.violations, key=lambda v: v['n']):
            rec = dict(type='run', property=self.prop, scenario=v['scenario'], seed=v['seed'],
                       trace=v['trace'], hash_seed=v['hash_seed'], messages=v['minimised'] or v['messages'],
                       original_messages=v['messages'], minimiser_runs=v['tries'],
                       original=v['original'])
            rec['class'] = v['klass']
            candidates.append(rec)
        h = self.hash_violation() if not candidates else None
        if h:
            candidates.append(h)
        for rec in candidates:
            path = self.save(rec)
            again = replay(path, quiet=True) or replay(path, quiet=True)
            if not again and rec['type'] == 'run':
                # the unreduced run
                os.unlink(path)
                rec = dict(rec, scenario=rec['original']['scenario'], trace=None)
                path = self.save(rec)
                again = replay(path, quiet=True)
            if again:
                for m in rec['messages'][:6]:
                    log('  ' + m[:600])
                log('  seed %s, replay: %s %s --replay %s' % (
                    rec['seed'], PYTHON, os.path.abspath(__file__), path))
                return path, rec
            os.unlink(path)
            self.errors.append('a suspected violation did not happen again in a fresh interpreter: %s'
                               % rec['messages'][:2])
        return None, None

    def selftest(self):
        """Runs some of the recorded run numbers again in another order and interpreter count."""
        return None

    def evidence(self, violation):
        recs = self.records
        wall = time.monotonic() - self.t0
        fired, outcomes, modes, tools = {}, {}, {}, {}
        for r in recs:
            for k, v in r['fired'].items():
                fired[k] = fired.get(k, 0) + v
            for o in r['outcomes']:
                outcomes[o] = outcomes.get(o, 0) + 1
            for m in r['modes']:
                modes[m] = modes.get(m, 0) + 1
            tools[r['tool']] = tools.get(r['tool'], 0) + 1
        kinds = {}
        for k, v in fired.items():
            kinds[k.split('@')[0]] = kinds.get(k.split('@')[0], 0) + v
        good = [r for r in recs if r['facts'] and not r['inc']]
        samples = []
        for r in good[:3]:
            scn = scenario(self.prop, self.seed, r['n'])
            samples.append(dict(run=r['n'], seed='%d/%s/%d' % (self.seed, self.prop, r['n']),
                                scenario=scn, outcomes=r['outcomes'], faults_fired=r['fired'],
                                scheduling_steps=r['steps'], preemptions=r['pre'],
                                facts_decided=r['facts']))
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed, level='exploration',
            wall_s=round(wall, 2), violations=1 if violation else 0,
            coverage=dict(
                evaluations=len(recs),
                distinct_nontrivial=len({r['sig'] for r in good}),
                rule='One evaluation is one simulated history: a scenario (tool, documents, options, '
                     'storage placement, worker kind and count, sequence of runs) with every '
                     'scheduling choice, delay and fault drawn from the seed of the run. It is '
                     'non-trivial if the oracle decided at least one fact on it, and distinct by its '
                     'interleaving signature: a hash over every scheduling decision, injected fault '
                     'and outcome of all its processes.',
                samples=samples,
                facts_decided=sum(r['facts'] for r in recs),
                inconclusive_runs=sum(1 for r in recs if r['inc']),
                inconclusive_reasons=sorted({str(r['inc'])[:200] for r in recs if r['inc']})[:5],
                runs_per_hour=round(len(recs) / wall * 3600),
                seeds_per_hour=round(len(recs) / wall * 3600),
                planned_runs=self.runs,
                interpreters=WORKERS,
                hash_seeds=HASH_SEEDS[:WORKERS],
                simulated_seconds=round(sum(r['time'] for r in recs), 1),
                scheduling_steps=sum(r['steps'] for r in recs),
                forced_preemptions=sum(r['pre'] for r in recs),
                io_operations=sum(r['ops'] for r in recs),
                faults_fired_by_kind=dict(sorted(kinds.items())),
                faults_fired_by_kind_and_operation=dict(sorted(fired.items())),
                run_outcomes=dict(sorted(outcomes.items())),
                worker_kinds=dict(sorted(modes.items())),
                tools=dict(sorted(tools.items())),
                real_components=[
                    'all of sciencebeam_trainer_grobid_tools from /repo (tools, annotators, matching, '
                    'I/O helpers)', 'sciencebeam_utils', 'apache_beam pipeline construction, DoFns, '
                    'pickling, FileSystems, LocalFileSystem, CompressedFile', 'lxml',
                    'concurrent.futures, multiprocessing.pool.ThreadPool, threading, queue, tempfile, '
                    'shutil, gzip on top of the simulated primitives'],
                stubbed_components=[
                    'thread scheduling (real threads released one at a time by the simulator)',
                    'clock, sleep, random temporary names', 'system calls on files (pass through to a '
                    'scratch directory after yielding and fault injection)',
                    'worker processes (forked, run one at a time)', 'the object store (sim://)',
                    'the Beam runner (SimRunner)', 'tqdm monitor thread'],
                replay_file=violation,
                errors=self.errors[:3],
            ),
            assumptions=[
                'scheduling points are intercepted synchronisation and I/O operations and, in part of '
                'the runs, source lines of the package: pre-emption inside C code is not simulated',
                'a crash loses what was not yet handed to the file system; writes already made by '
                'system calls survive (no loss of the page cache)',
                'errors of local directory listings are swallowed by glob and os.walk and are not '
                'injected'],
        )
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        path = os.path.join(HERE, 'evidence', self.prop + '.json')
        with open(path + '.tmp', 'w', encoding='utf-8') as f:
            json.dump(ev, f, indent=1)
        os.rename(path + '.tmp', path)
        return ev

    def known(self):
        try:
            with open(KNOWN, encoding='utf-8') as f:
                return [line.rstrip('\n') for line in f
                        if line.startswith('known: property=%s ' % self.prop)]
        except OSError:
            return []

    def main(self):
        scratch = make_scratch()
        try:
            self.search(scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        path = None
        if self.violations or self.refs:
            path, _ = self.report_violation()
        ev = self.evidence(path)
        c = ev['coverage']
        log('%s %s: %d runs, %d distinct non-trivial, %d facts, %d inconclusive, faults %s, %.0f s' % (
            self.prop, self.tier, c['evaluations'], c['distinct_nontrivial'], c['facts_decided'],
            c['inconclusive_runs'], c['faults_fired_by_kind'], ev['wall_s']))
        for line in self.known():
            log('KNOWN-FINDING: ' + line[len('known: '):])
        if path:
            log('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        for e in self.errors[:3]:
            log('NOTE ' + e)
        if not self.records or c['inconclusive_runs'] > max(5, len(self.records) // 10):
            log('ERROR: no answer: %s' % (c['inconclusive_reasons'] or self.errors))
            return 2
        return 0


def main():
    a = sys.argv[1:]
    if a[0] == '--worker':
        return worker(a[1:])
    if a[0] == '--replay-child':
        return replay_child(a[1])
    if a[0] == '--replay':
        bad = replay(os.path.abspath(a[1]))
        with open(a[1], encoding='utf-8') as f:
            prop = json.load(f)['property']
        if bad:
            log('VIOLATION property=%s replay=%s' % (prop, os.path.abspath(a[1])))
        return 1 if bad else 0
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    return Driver(a[0], tier, seed).main()


if __name__ == '__main__':
    sys.exit(main())
