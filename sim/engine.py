"""Runs one scenario (inputs, options, incarnations) as one deterministic simulated history."""
import json
import os
import pickle
import re
import resource
import select
import shutil
import signal
import tempfile
import time

from . import boot, core, docs, procs, storage
from .storage import R

BUCKET = 'bkt'
WALL = float(os.environ.get('SIM_WALL', '60'))
BASE = os.environ.get('SIM_SCRATCH') or ('/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp')

OUT_DIRS = ['out', 'failed', 'remote/%s/out' % BUCKET, 'remote/%s/failed' % BUCKET]


def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


# -- layout --------------------------------------------------------------------

def loc(scn, what):
    """Directory (relative to ROOT) and URL prefix of src, xml, out or failed."""
    if what == 'out' and scn.get('out_is_src'):
        what = 'src'
    place = scn.get('store', {}).get({'failed': 'out'}.get(what, what), 'local')
    sub = ('in/' + what) if what in ('src', 'xml') else what
    return place, sub


def rel_dir(scn, what):
    place, sub = loc(scn, what)
    return sub if place == 'local' else 'remote/%s/%s' % (BUCKET, sub)


def url(root, scn, what):
    place, sub = loc(scn, what)
    if place == 'local':
        return os.path.join(root, sub)
    return 'sim://%s/%s' % (BUCKET, sub)


def arg(root, scn, what):
    """The location as it is written on the command line."""
    place, sub = loc(scn, what)
    u = url(root, scn, what)
    spell = (scn.get('spell') or {}).get(what)
    alias = scn.get('out_is_src') if what == 'out' else None
    if place == 'local':
        if alias == 'link':
            return os.path.join(root, 'link')
        if alias in ('dot', 'slashes', 'up', 'rel'):
            return dict(dot=u + '/.', slashes=root + '//in///src', up=root + '/in/xml/../src',
                        rel='../in/src')[alias]
        if spell == 'rel':
            return '../' + sub
        if spell == 'up':
            return root + '/cwd/../' + sub
        if spell == 'dot':
            return root + '/./' + sub
    return u + '/' if spell == 'slash' else u


def src_name(scn, doc):
    tool = scn['tool']
    sub = doc.get('sub', '')
    stem = doc.get('file', doc['id'])
    if tool == 'fix_jats':
        name = '%s.xml' % stem
    elif tool == 'download':
        name = '%s.pdf' % stem
    else:
        name = stem + docs.SUFFIX[tool]
        sub = ''
    return sub + name + docs.ext(doc.get('gz'))


def xml_name(scn, doc):
    xgz = doc.get('xgz') if scn['tool'] == 'download' else scn.get('xgz')
    stem = doc.get('file', doc['id'])
    if scn['tool'] == 'download':
        return doc.get('sub', '') + stem + '.xml' + docs.ext(xgz)
    return stem + '.xml' + docs.ext(xgz)


def xml_regex(scn):
    suffix = docs.SUFFIX[scn['tool']].replace('.', r'\.')
    return '/(.*)%s.*/\\1.xml%s/' % (suffix, docs.ext(scn.get('xgz')))


def plain_source(scn, doc):
    tool = scn['tool']
    if tool == 'fix_jats':
        return docs.fix_source(doc)
    if tool == 'download':
        return docs.blob(doc)
    return docs.tei(doc, tool)


def plain_xml(scn, doc):
    if scn['tool'] == 'download':
        return docs.jats(dict(doc, kind='good'))
    return docs.jats(doc)


def has_source(doc):
    return doc['kind'] not in ('nodoc', 'neither')


def has_xml(doc):
    return doc['kind'] not in ('noxml', 'neither')


def build(root, scn):
    tool = scn['tool']
    for d in ('in/src', 'in/xml', 'in/cfg', 'in/list', 'tmp', 'cwd', 'remote/' + BUCKET):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    cfg = os.path.join(boot.REPO, 'config')
    for name in sorted(os.listdir(cfg)):
        if os.path.isfile(os.path.join(cfg, name)):
            with open(os.path.join(cfg, name), 'rb') as f:
                write(os.path.join(root, 'in/cfg', name), f.read())
    build_docs(root, scn, scn['docs'])
    src = os.path.join(root, rel_dir(scn, 'src'))
    if str(scn.get('out_is_src')) == 'link':
        os.symlink('in/src', os.path.join(root, 'link'))
    if scn.get('decoys'):
        write(os.path.join(src, 'notes.txt'), b'not a document')
        if tool in docs.SUFFIX:
            for other in ('segmentation', 'header', 'fulltext'):
                if other != tool:
                    write(os.path.join(src, 'decoy' + docs.SUFFIX[other]), b'<tei/>')
    if tool == 'download' or scn.get('select') == 'list':
        write_list(root, scn, 'src', 'docs', [src_name(scn, d) for d in scn['docs']],
                   'xml_url' if tool == 'fix_jats' else 'source_url')
        if tool == 'download':
            write_list(root, scn, 'xml', 'xmls', [xml_name(scn, d) for d in scn['docs']],
                       'xml_url')
    for name, data in sorted(scn.get('preexisting', {}).items()):
        write(os.path.join(root, name), data.encode('latin-1'))


def build_docs(root, scn, which):
    src = os.path.join(root, rel_dir(scn, 'src'))
    xml = os.path.join(root, rel_dir(scn, 'xml'))
    for doc in which:
        if has_source(doc):
            data = plain_source(scn, doc)
            name = src_name(scn, doc)
            write(os.path.join(src, name), docs.zipped(name, data) if doc.get('gz') else data)
        if scn['tool'] != 'fix_jats' and has_xml(doc):
            data = plain_xml(scn, doc)
            name = xml_name(scn, doc)
            write(os.path.join(xml, name), docs.zipped(name, data))


def at(scn, i):
    """The scenario as its step i sees it: inputs may be replaced between two steps."""
    if not any(st.get('update') for st in scn['steps'][:i + 1]):
        return scn
    v = {}
    for st in scn['steps'][:i + 1]:
        v.update(st.get('update') or {})
    return dict(scn, docs=[updated(d, v[d['id']]) if d['id'] in v else d for d in scn['docs']])


def updated(doc, new):
    if not isinstance(new, dict):
        return dict(doc, v=new)
    if new.get('kind'):
        # corrected inputs
        doc = {k: x for k, x in doc.items() if k not in ('which', 'bare', 'partial', 'multi')}
    return dict(doc, **new)


def list_path(root, scn, name):
    return os.path.join(root, 'in/list', name + scn.get('list_ext', '.tsv'))


def write_list(root, scn, what, name, names, column):
    base = url(root, scn, what)
    urls = [base + '/' + n for n in names]
    urls += [urls[k % len(urls)] for k in scn.get('repeat') or () if urls]
    ext = scn.get('list_ext', '.tsv')
    if ext.startswith('.lst'):
        text = ''.join(u + '\n' for u in urls)
    else:
        sep = '\t' if ext.startswith('.tsv') else ','
        text = ''.join(sep.join(row) + '\n' for row in
                       [['n', column]] + [[str(i), u] for i, u in enumerate(urls)])
    data = text.encode()
    # stored, not compressed: the size must not depend on the name of the scratch directory
    write(list_path(root, scn, name),
          docs.zip_bytes(data, 0) if ext.endswith('.gz') else data)


def argv(root, scn, step):
    tool = scn['tool']
    a = []
    if tool == 'download':
        a += ['--document-file-list', list_path(root, scn, 'docs'),
              '--document-base-path', arg(root, scn, 'src'),
              '--target-file-list', list_path(root, scn, 'xmls'),
              '--target-base-path', arg(root, scn, 'xml'),
              '--document-output-path', arg(root, scn, 'out').rstrip('/') + '/doc',
              '--target-output-path', arg(root, scn, 'out').rstrip('/') + '/xml',
              '--document-output-filename-pattern', scn['doc_pattern'],
              '--target-output-filename-pattern', scn['xml_pattern'],
              '--threads', str(step['workers'])]
        if scn.get('limit'):
            a += ['--limit', str(scn['limit'])]
        return a
    a += ['--output-path', arg(root, scn, 'out')]
    select_by = scn.get('select', 'dir')
    if select_by == 'single':
        one = arg(root, scn, 'src').rstrip('/') + '/' + src_name(scn, scn['docs'][0])
        a += ['--source-path', one]
        if tool == 'fix_jats':
            a += ['--source-base-path', arg(root, scn, 'src')]
    elif select_by == 'list':
        a += ['--source-file-list', list_path(root, scn, 'docs'),
              '--source-base-path', arg(root, scn, 'src')]
    else:
        a += ['--source-base-path', arg(root, scn, 'src')]
    if scn.get('limit'):
        a += ['--limit', str(scn['limit'])]
    mode = step['mode']
    if scn.get('debug'):
        a += ['--debug']
    if mode == 'beam' and tool != 'fix_jats':
        a += ['--runner', 'sim.beamrunner.SimRunner', '--num-workers', '0']
    else:
        a += ['--num-workers', str(step['workers'])]
        if mode == 'procs':
            a += ['--multi-processing']
    if tool == 'fix_jats':
        if scn.get('no_log_file'):
            a += ['--no-log-file']
        return a
    a += ['--xml-path', arg(root, scn, 'xml'), '--xml-filename-regex', xml_regex(scn),
          '--xml-mapping-path', os.path.join(root, 'in/cfg/xml-mapping.conf')]
    if tool == 'segmentation':
        a += ['--segmentation-config', os.path.join(root, 'in/cfg/segmentation.conf')]
    if scn.get('failed'):
        a += ['--failed-output-path', arg(root, scn, 'failed')]
    if step.get('resume'):
        a += ['--resume']
    if step.get('skip'):
        a += ['--skip-errors']
    gate = scn.get('gate')
    if gate:
        field = scn['gate_field']
        if gate in ('required', 'both'):
            a += ['--required-fields', field]
        if gate in ('matching', 'both'):
            a += ['--require-matching-fields', scn.get('gate_field2') or field]
    for k, v in sorted(scn.get('opts', {}).items()):
        if v is True:
            a += ['--' + k]
        elif v not in (False, None):
            a += ['--' + k, str(v)]
    return a


# -- snapshots -------------------------------------------------------------------

def snapshot(root):
    """(files, dirs) below root, read with the real system calls."""
    files, dirs = {}, set()

    def walk(path, rel):
        try:
            with R['scandir'](path) as it:
                entries = sorted(it, key=lambda e: e.name)
        except OSError:
            return
        for e in entries:
            r = rel + '/' + e.name if rel else e.name
            if e.is_symlink():
                files[r] = b'SYMLINK ' + os.readlink(e.path).encode()
            elif e.is_dir():
                dirs.add(r)
                walk(e.path, r)
            else:
                try:
                    files[r] = storage.read_real(e.path)
                except OSError:
                    files[r] = b'UNREADABLE'
    walk(root, '')
    return files, dirs


# -- processes ---------------------------------------------------------------------

def make_plan(seed, trace, i, proc, cfg):
    if trace is not None:
        t = trace.get('%d/%s' % (i, proc), {})
        return core.Plan(None, cfg, t.get('switches'), t.get('faults'))
    return core.Plan(core.derive(seed, i, proc), cfg)


def make_spec(scn, seed, trace, i, step, proc, cfg=None):
    f = step.get('faults')
    worker = '.w' in proc
    budget = 0
    if f:
        budget = f.get('worker_budget', f['budget']) if worker else f['budget']
    return procs.ProcessSpec(
        proc, make_plan(seed, trace, i, proc, cfg or step.get('cfg', {})),
        salt=step.get('salt', ''), chunk=step.get('chunk', 0), latency=step.get('latency', 0.0),
        fault_cfg=f, budget=budget,
        seed='%s|%d|%s' % (step.get('names', 'n'), i, proc), offset=step.get('offset', 0.0),
        line=bool((cfg or step.get('cfg', {})).get('line_mean')),
        thread_fail=0 if worker else step.get('thread_fail', 0))


def child_entry(scn, seed, trace, i, step, root, send):
    out_dirs = [os.path.join(root, d) for d in OUT_DIRS]
    cwd = os.path.join(root, 'cwd')

    def tool_main(proc_step):
        def fn():
            from . import beamrunner
            b = proc_step.get('beam') or {}
            beamrunner.Config.workers = proc_step['workers']
            beamrunner.Config.bundle = b.get('bundle', 2)
            beamrunner.Config.attempts = b.get('attempts', 4)
            beamrunner.Config.duplicates = tuple(b.get('dups', ()))
            return boot.call_main(scn['tool'], argv(root, scn, proc_step))
        return fn

    def plans_for(proc):
        def source(name):
            return make_spec(scn, seed, trace, i, step, proc + '.' + name)
        return source

    procs.setup_logging('INFO')
    if scn.get('debug'):
        import logging
        logging.getLogger('sciencebeam_trainer_grobid_tools').setLevel('DEBUG')
    else:
        import logging
        logging.getLogger('sciencebeam_trainer_grobid_tools').setLevel(logging.NOTSET)
    if not step.get('overlap'):
        procs.run_in_child(make_spec(scn, seed, trace, i, step, 'm'), root, out_dirs, cwd,
                           tool_main(step), send, child_plans=plans_for('m'))
        return

    def coordinator():
        import threading
        proxies = []

        def run_main(k):
            name = 'r%d' % k
            my_step = dict(step, **(step['overlap'][k] or {}))

            def main(rpc):
                def send_up(rep):
                    rep['blobs'] = {}
                    procs._send(rpc.wfd, b'P', pickle.dumps(rep))
                procs.setup_logging('INFO')
                procs.run_in_child(
                    make_spec(scn, seed, trace, i, my_step, name), root, out_dirs, cwd,
                    tool_main(my_step), send_up, rpc=rpc, child_plans=plans_for(name),
                    observer=False)
            return main

        for k in range(len(step['overlap'])):
            fds = [fd for p in proxies for fd in (p.rfd, p.wfd)]
            proxies.append(procs.Proxy('r%d' % k, run_main(k), fds))

        def serve(p):
            try:
                while True:
                    p.wait_message()
            except procs.ProxyDead:
                pass
            if p.report:
                procs.CHILD_REPORTS.append(p.report)
        threads = [threading.Thread(target=serve, args=(p,)) for p in proxies]
        for t in threads:
            t.start()
        for t in threads:
            t.join()

    spec = make_spec(scn, seed, trace, i, dict(step, faults=None, thread_fail=0), 'co',
                     {'p_io': step.get('p_overlap', 0.3)})
    procs.run_in_child(spec, root, out_dirs, cwd, coordinator, send)


def spawn(scn, seed, trace, i, step, root):
    """Forks the simulated process of one step and returns its report (None: wall limit)."""
    rfd, wfd = os.pipe()
    pid = R['fork']()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            os.close(rfd)
            # memory that grows without end must not take the machine with it
            resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
            null = R['open']('/dev/null', os.O_RDWR)
            os.dup2(null, 1)
            if not os.environ.get('SIM_STDERR'):
                os.dup2(null, 2)

            def send(rep):
                data = pickle.dumps(rep)
                procs._send(wfd, b'P', data)
            if scn.get('tz'):
                os.environ['TZ'] = scn['tz']
                time.tzset()
            child_entry(scn, seed, trace, i, step, root, send)
        except BaseException:  # pylint: disable=broad-except
            import traceback
            try:
                procs._send(wfd, b'P', pickle.dumps(dict(
                    proc='?', outcome='harness', detail=traceback.format_exc()[-3000:])))
            except BaseException:  # pylint: disable=broad-except
                pass
        finally:
            core.REAL['exit'](0)
    os.close(wfd)
    try:
        os.setpgid(pid, pid)
    except OSError:
        pass
    buf = bytearray()
    deadline = core.REAL['monotonic']() + WALL
    timed_out = False
    while True:
        left = deadline - core.REAL['monotonic']()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([rfd], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(rfd, 1 << 20)
        if not b:
            break
        buf += b
        if len(buf) >= 9 and len(buf) >= 9 + int.from_bytes(buf[1:9], 'little'):
            break
    try:
        os.killpg(pid, signal.SIGKILL) if timed_out else None
    except OSError:
        pass
    if not timed_out:
        # the child exits on its own right after reporting; stragglers are ended
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    else:
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    os.close(rfd)
    if timed_out:
        return dict(proc='m', outcome='wall', detail='no end within %.0f s of real time' % WALL)
    if len(buf) < 9:
        return dict(proc='m', outcome='harness', detail='child ended without a report')
    return pickle.loads(bytes(buf[9:]))


def flatten(rep, prefix=''):
    """The report and those of all processes below it."""
    out = [rep]
    for c in rep.get('children') or ():
        out.extend(flatten(c))
    return out


class StepResult:
    def __init__(self, step, report, before, after):
        self.step = step
        self.report = report
        self.files_before, self.dirs_before = before
        self.files, self.dirs = after
        self.reports = flatten(report)

    @property
    def outcome(self):
        return self.report['outcome']

    def logs(self):
        return [x for r in self.reports for x in r.get('logs') or ()]

    def fired(self):
        return [tuple(f) for r in self.reports for f in r.get('fired') or ()]

    def observed(self):
        return self.report.get('observed') or []

    def blob(self, digest):
        return self.report['blobs'][digest]


class History:
    def __init__(self, scn, seed):
        self.scn = scn
        self.seed = seed
        self.steps = []
        self.inconclusive = None
        self.root = None

    def trace(self):
        t = {}
        for i, s in enumerate(self.steps):
            for r in s.reports:
                if 'switches' not in r:
                    continue
                t['%d/%s' % (i, r['proc'])] = dict(
                    switches=[list(x) for x in r['switches']],
                    faults=[[f[0], f[1]] for f in r['fired'] if f[1] != 'thread-start'])
        return t

    def fingerprint(self):
        """Everything observable, for the determinism test."""
        import hashlib
        h = hashlib.sha1()
        for s in self.steps:
            for r in s.reports:
                h.update(re.sub(r'0x[0-9a-f]{6,}', '0x', repr((r['proc'], r['outcome'], r.get('steps'), r.get('ops'),
                               r.get('switches'), r.get('fired'), r.get('logs'),
                               r.get('observed'), r.get('events')))).replace(
                                   self.root, 'ROOT').encode())
            for k in sorted(s.files):
                if k.startswith('in/list/'):
                    continue
                h.update(k.encode() + b'\0' + s.files[k].replace(self.root.encode(), b'ROOT'))
        return h.hexdigest()


def scratch():
    # a name of constant length: its text takes part in buffer sizes of error messages
    while True:
        name = os.path.join(BASE, 'gtsim-%s' % os.urandom(5).hex())
        try:
            os.mkdir(name)
            return name
        except FileExistsError:
            pass


def execute(scn, seed, trace=None, stop_on_bad=True):
    """Runs the scenario; returns its History."""
    root = scratch()
    h = History(scn, seed)
    h.root = root
    try:
        build(root, scn)
        before = snapshot(root)
        h.initial = before
        for i, step in enumerate(scn['steps']):
            if step.get('update'):
                now = at(scn, i)
                build_docs(root, now, [d for d in now['docs'] if d['id'] in step['update']])
                before = snapshot(root)
            rep = spawn(scn, seed, trace, i, step, root)
            after = snapshot(root)
            s = StepResult(step, rep, before, after)
            h.steps.append(s)
            bad = [r for r in s.reports
                   if r['outcome'] in ('harness', 'abort') or r.get('aborted')]
            if bad:
                h.inconclusive = '%s: %s %s' % (
                    bad[0]['outcome'], bad[0].get('aborted'), bad[0].get('detail'))
                break
            if rep['outcome'] == 'wall':
                h.inconclusive = 'wall'
                break
            if rep['outcome'] == 'hang':
                break
            before = after
        return h
    finally:
        shutil.rmtree(root, ignore_errors=True)


def dumps(obj):
    return json.dumps(obj, sort_keys=True, separators=(',', ':'))
