"""Oracles: judge a recorded history against a property.

Every judge returns a list of messages (empty: the property held on this history) and the number
of facts it decided (0: the run says nothing about the property).
"""
import bz2
import gzip
import hashlib
import os
import re
import zlib
from datetime import datetime, timezone

from . import core, docs, engine, gen

FATAL = ('crash', 'kill', 'interrupt')
ERROR_KINDS = set(gen.ERRORS)
STAMP = re.compile(rb'\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?(Z|[+-]\d\d:\d\d)?')


# -- expectations known by construction -----------------------------------------------

def expect(scn, doc):
    """'pass', 'fail' (quality gate), 'error', or None (download: pair incomplete)."""
    tool, kind = scn['tool'], doc['kind']
    if tool == 'download':
        return 'pass' if gen._pair(doc) else None
    if tool == 'fix_jats':
        return 'error' if kind == 'broken' else 'pass'
    if kind in ('noxml', 'badxml', 'nocontainer'):
        return 'error'
    g = scn.get('gate')
    if g and kind in ('gate-missing', 'gate-mismatch'):
        fields = []
        if g in ('required', 'both'):
            fields += scn['gate_field'].split(',')
        if g in ('matching', 'both') and kind == 'gate-mismatch':
            fields += (scn.get('gate_field2') or scn['gate_field']).split(',')
        if any(docs.affected(doc, gen.GATE_ALIAS.get(f, f)) for f in fields):
            return 'fail'
    return 'pass'


def selected(scn):
    ds = [d for d in scn['docs'] if engine.has_source(d) or scn['tool'] == 'download']
    if scn.get('select') == 'single':
        ds = ds[:1]
    return ds


def props(name):
    d, f = os.path.split(name)
    stem, ext = os.path.splitext(f)
    if ext.lower() == '.gz':
        stem, ext = os.path.splitext(stem)
    return dict(dir=d + '/' if d else '', filename=f, name=stem, ext=ext)


class NS:
    def __init__(self, kw):
        self.__dict__.update(kw)


def download_names(scn):
    """[(doc, output name of the document, output name of the target)] by the documented rules."""
    ds = scn['docs']
    ds = ds + [ds[k % len(ds)] for k in scn.get('repeat') or ()]
    if scn.get('limit'):
        ds = ds[:scn['limit']]
    out = []
    pairs = [d for d in ds if gen._pair(d)]
    for i, d in enumerate(pairs):
        sp, xp = props(engine.src_name(scn, d)), props(engine.xml_name(scn, d))
        names = dict(document=NS(sp), target=NS(xp))
        out.append((d, 'doc/' + scn['doc_pattern'].format(index=i, **names, **sp),
                    'xml/' + scn['xml_pattern'].format(index=i, **names, **xp)))
    return out


def out_name(scn, doc):
    name = engine.src_name(scn, doc)
    return name if scn['tool'] == 'fix_jats' else os.path.basename(name)


def out_names(scn):
    """{(area, name): (doc, part)} of every file that may ever be published."""
    names = {}
    if scn['tool'] == 'download':
        for d, a, b in download_names(scn):
            names['out', a] = (d, 'src')
            names['out', b] = (d, 'xml')
        return names
    for d in selected(scn):
        e = expect(scn, d)
        if e == 'pass':
            names['out', out_name(scn, d)] = (d, 'src')
        elif e == 'fail' and scn.get('failed'):
            names['failed', out_name(scn, d)] = (d, 'src')
    return names


# -- views of a history -------------------------------------------------------------------

class Undecodable(Exception):
    pass


def decode(name, data):
    if name.lower().endswith('.gz'):
        try:
            return gzip.decompress(data)
        except (OSError, EOFError, zlib.error) as e:
            raise Undecodable('%s is not valid gzip: %s' % (name, e))
    if name.lower().endswith(('.bz2', '.deflate')):
        try:
            return bz2.decompress(data) if name.lower().endswith('.bz2') else zlib.decompress(data)
        except (OSError, EOFError, ValueError, zlib.error) as e:
            raise Undecodable('%s is not validly compressed: %s' % (name, e))
    return data


def normal(scn, name, data):
    data = decode(name, data)
    if scn['tool'] == 'fix_jats':
        if data[:2] in (b'\xff\xfe', b'\xfe\xff'):
            try:
                data = b'utf-16 ' + data.decode('utf-16').encode('utf-8')
            except UnicodeDecodeError:
                pass
        data = STAMP.sub(b'T', data)
    return data


def area_files(scn, files):
    """{(area, name): bytes} of everything below the output locations."""
    out = {}
    for area in ('out', 'failed'):
        prefix = engine.rel_dir(scn, area) + '/'
        for k, v in files.items():
            if k.startswith(prefix):
                out[area, k[len(prefix):]] = v
    return out


def observed(scn, step):
    """[(area, name, bytes or None)] in the order in which they became visible."""
    out = []
    for rel, digest in step.observed():
        for area in ('out', 'failed'):
            prefix = engine.rel_dir(scn, area) + '/'
            if rel.startswith(prefix):
                out.append((area, rel[len(prefix):], None if digest is None else step.blob(digest)))
    return out


def runs_of(step):
    """Reports of the tool processes (several when runs overlap)."""
    if step.step.get('overlap'):
        return [r for r in step.reports if re.match(r'r\d+$', r['proc'])]
    return [step.report]


def fired_kinds(step):
    return [f[1] for f in step.fired()]


def disturbed(step):
    """An error, crash, kill or interrupt was injected (stalls and clock jumps are not)."""
    return any(k not in ('stall', 'jump') for k in fired_kinds(step))


def named(step, doc, scn):
    """Is the document named in a warning or error log record?"""
    name = os.path.basename(engine.src_name(scn, doc))
    return any(name in text for level, text in step.logs())


def short(data):
    if data is None:
        return 'nothing'
    return '%d bytes %s' % (len(data), hashlib.sha1(data).hexdigest()[:8])


# -- references: the same code on one document alone, nothing disturbed -------------------

class Refs:
    """Solo results, cached per document and options (optionally shared through a directory)."""

    def __init__(self, directory=None):
        self.mem = {}
        self.dir = directory

    def key(self, scn, doc):
        d = {k: v for k, v in doc.items() if k not in ('gz', 'xgz', 'sub', 'file')}
        part = dict(tool=scn['tool'], doc=d, opts=scn.get('opts') or {}, gate=scn.get('gate'),
                    gate_field=[scn.get('gate_field'), scn.get('gate_field2')]
                    if scn.get('gate') else None)
        return engine.dumps(part)

    def get(self, scn, doc):
        """(area or None, logical bytes or None)"""
        key = self.key(scn, doc)
        if key in self.mem:
            return self.mem[key]
        path = None
        if self.dir:
            path = os.path.join(self.dir, hashlib.sha1(key.encode()).hexdigest())
            try:
                with open(path, 'rb') as f:
                    data = f.read()
                area, _, body = data.partition(b'\n')
                r = (area.decode(), body) if area else (None, None)
                self.mem[key] = r
                return r
            except OSError:
                pass
        r = self.compute(scn, doc)
        self.mem[key] = r
        if path:
            tmp = path + '.%d' % os.getpid()
            with open(tmp, 'wb') as f:
                f.write((r[0] or '').encode() + b'\n' + (r[1] or b''))
            os.rename(tmp, path)
        return r

    def compute(self, scn, doc):
        d = {k: v for k, v in doc.items() if k not in ('gz', 'xgz', 'sub', 'file')}
        solo = dict(tool=scn['tool'], docs=[d], store={}, opts=scn.get('opts') or {},
                    steps=[dict(mode='threads', workers=1, cfg={}, names='ref')])
        if scn.get('gate'):
            solo.update(gate=scn['gate'], gate_field=scn['gate_field'],
                        gate_field2=scn.get('gate_field2'), failed=True)
        h = engine.execute(solo, 'ref', {})
        if h.inconclusive or h.steps[-1].outcome != 'ok':
            return (None, None)
        found = area_files(solo, h.steps[-1].files)
        name = out_name(solo, d)
        for area in ('out', 'failed'):
            if (area, name) in found:
                return (area, normal(solo, name, found[area, name]))
        return (None, None)


def complete(scn, refs, doc, part):
    """The logical content a published file must have (None: unknown)."""
    if scn['tool'] == 'download':
        return engine.plain_source(scn, doc) if part == 'src' else engine.plain_xml(scn, doc)
    return refs.get(scn, doc)[1]


def check_content(scn, refs, doc, part, area, name, data, what):
    want = complete(scn, refs, doc, part)
    if want is None:
        return []
    try:
        got = normal(scn, name, data)
    except Undecodable as e:
        return ['%s: %s' % (what, e)]
    if got != want:
        return ['%s: %s/%s has %s, expected %s%s' % (
            what, area, name, short(got), short(want), diff(got, want))]
    return []


def diff(a, b):
    n = 0
    while n < min(len(a), len(b)) and a[n] == b[n]:
        n += 1
    return ' (differs at byte %d: %r vs %r)' % (n, a[max(0, n - 20):n + 30], b[max(0, n - 20):n + 30])


# -- judges -----------------------------------------------------------------------------------

def c01(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        if s.outcome != 'ok':
            continue
        before = area_files(scn, s.files_before)
        after = area_files(scn, s.files)
        skip = s.step.get('skip')
        errors = sum(1 for k in fired_kinds(s) if k in ERROR_KINDS)
        allowed_missing = errors + 4 * sum(1 for f in s.fired() if f[1] == 'enospc') \
            + (1000 if s.report.get('diskfull') else 0)
        sel = selected(scn)
        have = [k for k in names if k in after]
        limit = scn.get('limit')
        expected = list(names)
        if limit:
            facts += 1
            if scn.get('failed') or not scn.get('gate'):
                want = min(limit, len(sel))
                if len(have) != want:
                    bad.append('step %d: limit %d of %d documents, but %d have an outcome' % (
                        i, limit, len(sel), len(have)))
            elif len(have) > limit:
                bad.append('step %d: limit %d, but %d outputs' % (i, limit, len(have)))
        else:
            missing = [k for k in expected if k not in after]
            facts += len(expected)
            if missing and not (skip and len(missing) <= allowed_missing):
                bad.append('step %d: success, but no outcome for %s' % (
                    i, ', '.join('%s/%s' % k for k in missing)))
        for k in after:
            if k not in names and k not in before:
                bad.append('step %d: unexpected file %s/%s' % (i, k[0], k[1]))
        stale = [k for k in have if before.get(k) == after[k]
                 and (s.step.get('resume') or limit)]
        failed = 0
        for k in have:
            if k in stale:
                continue
            doc, part = names[k]
            wrong = check_content(scn, refs, doc, part, k[0], k[1], after[k], 'step %d' % i)
            if wrong and skip and before.get(k) == after[k] and failed < allowed_missing:
                failed += 1         # the output of an earlier run stays
                continue
            bad += wrong
    return bad, facts


NOT_PER_DOC_OPS = ('list', 'r-list', 'r-exists')


def c02(h, refs):
    scn = h.scn
    tool = scn['tool']
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        after = area_files(scn, s.files)
        skip = s.step.get('skip') and tool in gen.MODELS
        fired = s.fired()
        kinds = [f[1] for f in fired]
        known_bad = [d for d in selected(scn) if expect(scn, d) == 'error']
        missing = [k for k in names if k not in after]
        wrong = []
        for k in names:
            if k in after:
                wrong += check_content(scn, refs, names[k][0], names[k][1], k[0], k[1], after[k],
                                       'step %d' % i)
        if s.outcome == 'ok':
            bad += wrong
            if not skip:
                facts += len(names) + len(known_bad)
                if known_bad:
                    bad.append('step %d: success although %s cannot be processed' % (
                        i, ', '.join(d['id'] for d in known_bad)))
                if missing:
                    bad.append('step %d: success, but %s lost; injected: %s' % (
                        i, ', '.join('%s/%s' % k for k in missing), kinds))
            else:
                facts += len(names)
                lost = [names[k][0] for k in missing] + known_bad
                unnamed = [d for d in lost if not named(s, d, scn)]
                if unnamed:
                    bad.append('step %d: skipped without naming in the log: %s' % (
                        i, ', '.join(d['id'] for d in unnamed)))
                n = len([k for k in kinds if k in ERROR_KINDS])
                full = s.step.get('faults') and s.step['faults'].get('diskfull')
                if len(missing) > n and not (full and 'enospc' in kinds):
                    bad.append('step %d: %d documents missing after %d injected errors: %s' % (
                        i, len(missing), n, [k[1] for k in missing]))
        elif s.outcome == 'error' and skip:
            per_doc = all(
                f[1] in ('stall', 'jump') or (
                    f[1] in ERROR_KINDS and f[2] not in NOT_PER_DOC_OPS
                    and '/beam-' not in '/' + str(f[3])     # the runner's own files
                    and engine.storage.area(f[3]) in (
                        'src', 'xml', 'out', 'failed', 'tmp', 'r-src', 'r-xml', 'r-out', 'r-failed'))
                for f in fired)
            if per_doc:
                facts += 1
                bad.append('step %d: error skipping is on, but the run failed: %s' % (
                    i, str(s.report.get('detail'))[:300]))
        if s.outcome in ('ok', 'error'):
            # nothing is left under the name of a document that cannot be processed
            for d in known_bad:
                for area in ('out', 'failed'):
                    if (area, out_name(scn, d)) in after:
                        bad.append('step %d: output for %s, which cannot be processed' % (i, d['id']))
            if s.outcome == 'error' and not skip:
                facts += 1
    return bad, facts


def c03(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        after = area_files(scn, s.files)
        for k in names:
            doc, part = names[k]
            ref = refs.get(scn, doc)
            if ref[1] is None:
                continue
            for area in ('out', 'failed'):
                if (area, k[1]) in after:
                    facts += 1
                    if area != ref[0]:
                        bad.append('step %d: %s is in %s, alone it goes to %s' % (
                            i, k[1], area, ref[0]))
                    bad += check_content(scn, refs, doc, part, area, k[1], after[area, k[1]],
                                         'step %d: differs from the same document alone' % i)
        if disturbed(s):
            continue
        known_bad = [d for d in selected(scn) if expect(scn, d) == 'error']
        if s.outcome in ('ok', 'error') and (not known_bad or s.step.get('skip')):
            for k in names:
                if refs.get(scn, names[k][0])[1] is not None and k not in after:
                    bad.append('step %d: no output for %s, which is processed fine alone (%s %s)' % (
                        i, k[1], s.outcome, str(s.report.get('detail'))[:300]))
            if s.outcome == 'error' and all(
                    refs.get(scn, d)[1] is not None for d in selected(scn)
                    if expect(scn, d) in ('pass', 'fail')):
                bad.append('step %d: every document is processed fine alone, but the batch fails: %s'
                           % (i, str(s.report.get('detail'))[:300]))
    return bad, facts


def c04(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        before = area_files(scn, s.files_before)
        versions = observed(scn, s) + [
            (a, n, d) for (a, n), d in sorted(area_files(scn, s.files).items())]
        for area, name, data in versions:
            if data is None:
                continue
            if (area, name) in names:
                facts += 1
                if before.get((area, name)) == data:
                    continue
                doc, part = names[area, name]
                bad += check_content(scn, refs, doc, part, area, name, data,
                                     'step %d: visible output' % i)
        if disturbed(s):
            for area, name, data in versions[len(observed(scn, s)):]:
                if (area, name) in names or (area, name) in before:
                    continue
                if scn['tool'] != 'download' and any(
                        out_name(scn, d) == name for d in selected(scn)):
                    continue
                if '.xml' in name.split('/')[-1]:
                    bad.append('step %d: leftover %s/%s would be selected as input' % (i, area, name))
        if len(bad) > 5:
            break
    return bad[:6], facts


def c05(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    last = h.steps[-1]
    if len(h.steps) == len(scn['steps']) and not disturbed(last):
        after = area_files(scn, last.files)
        known_bad = [d for d in selected(scn) if expect(scn, d) == 'error']
        ok = all(refs.get(scn, names[k][0])[1] is not None for k in names)
        if last.outcome != 'ok' and ok and (not known_bad or last.step.get('skip')):
            bad.append('the undisturbed resumed run failed: %s' % str(last.report.get('detail'))[:400])
        elif last.outcome == 'ok':
            for k in names:
                facts += 1
                if k not in after:
                    bad.append('after the resumed run %s/%s is missing' % k)
                else:
                    bad += check_content(scn, refs, names[k][0], names[k][1], k[0], k[1], after[k],
                                         'after the resumed run')
            for (area, name) in after:
                if (area, name) not in names and any(
                        out_name(scn, d) == name for d in selected(scn)):
                    bad.append('after the resumed run %s/%s exists, an uninterrupted run has none' % (
                        area, name))
    for i, s in enumerate(h.steps):
        if not s.step.get('resume'):
            continue
        before = area_files(scn, s.files_before)
        for area, name, data in observed(scn, s):
            if area == 'out' and (area, name) in before and (area, name) in names:
                facts += 1
                bad.append('step %d: resumed run %s existing output %s' % (
                    i, 'deleted' if data is None else 'rewrote', name))
    return bad, facts


def c06(h, refs):
    scn = h.scn
    bad, facts = [], 0
    allowed = ['tmp', engine.rel_dir(scn, 'out'), engine.rel_dir(scn, 'failed')]
    if scn.get('out_is_src'):
        allowed = ['tmp']

    def ok(path):
        return any(path == a or path.startswith(a + '/') for a in allowed)

    def parent(path):
        return any(a.startswith(path + '/') for a in allowed) or path == '.'
    for i, s in enumerate(h.steps):
        facts += 1
        for k in sorted(set(s.files_before) | set(s.files)):
            if ok(k):
                continue
            if s.files_before.get(k) != s.files.get(k):
                if k.startswith('stage-'):
                    continue
                bad.append('step %d: %s changed: %s -> %s' % (
                    i, k, short(s.files_before.get(k)), short(s.files.get(k))))
        for k in sorted(s.dirs ^ s.dirs_before):
            if not ok(k) and not parent(k):
                bad.append('step %d: directory %s %s' % (
                    i, k, 'created' if k in s.dirs else 'removed'))
        for r in s.reports:
            for p in r.get('outside') or ():
                bad.append('step %d: write outside: %s' % (i, p))
            for kind, path in r.get('touched') or ():
                if not ok(path) and not (kind == 'mkdir' and parent(path)):
                    bad.append('step %d: %s on %s' % (i, kind, path))
    return bad[:8], facts


def c07(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        kinds = fired_kinds(s)
        if 'crash' in kinds or 'kill' in kinds or s.outcome in ('crash', 'hang'):
            break
        if 'half' in kinds:
            # the store reported a failed rename after performing its first half
            pass
        facts += 1
        tmp = sorted(k for k in list(s.files) + list(s.dirs)
                     if k.startswith('tmp/') and k not in s.files_before and k not in s.dirs_before)
        if tmp:
            bad.append('step %d (%s): left in the temporary directory: %s' % (
                i, s.outcome, ', '.join(tmp[:4])))
        before = area_files(scn, s.files_before)
        extra = [k for k in area_files(scn, s.files) if k not in names and k not in before]
        extra = [k for k in extra if not any(out_name(scn, d) == k[1] for d in selected(scn))] \
            if scn['tool'] != 'download' else extra
        if extra:
            bad.append('step %d (%s): left beside the outputs: %s' % (i, s.outcome, extra[:4]))
        for r in s.reports:
            left = r.get('open_left')
            if left:
                bad.append('step %d (%s): files left open: %s' % (i, s.outcome, left[:4]))
            if r.get('implicit') and not disturbed(s) and s.outcome in ('ok', 'error'):
                bad.append('step %d: never closed (collected as garbage): %s' % (
                    i, r['implicit'][:4]))
        w = s.step['workers']
        if s.step['mode'] != 'beam':
            if s.report.get('max_temp', 0) > gen.temp_bound(w):
                bad.append('step %d: %d temporary items at a time with %d workers' % (
                    i, s.report['max_temp'], w))
            for r in s.reports:
                if (r.get('max_open') or 0) > gen.open_bound(w):
                    bad.append('step %d: %d files open at a time with %d workers' % (
                        i, r['max_open'], w))
    return bad, facts


def c09(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        if disturbed(s):
            continue
        after = area_files(scn, s.files)
        ok = all(complete(scn, refs, *names[k]) is not None for k in names)
        if not ok:
            continue
        if s.outcome not in ('ok',):
            bad.append('step %d: fails on this placement, works on plain local files: %s' % (
                i, str(s.report.get('detail'))[:400]))
            continue
        for k in names:
            facts += 1
            if k not in after:
                bad.append('step %d: %s/%s missing on this placement' % (i, k[0], k[1]))
            else:
                bad += check_content(scn, refs, names[k][0], names[k][1], k[0], k[1], after[k],
                                     'step %d: differs from plain local files' % i)
    return bad, facts


def c10(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        seen = {(a, n) for a, n, d in observed(scn, s) if d is not None}
        old = area_files(scn, s.files_before)
        seen |= {k for k, data in area_files(scn, s.files).items()
                 if k not in old or old[k] != data or not s.step.get('update')}
        for d in selected(scn):
            e = expect(scn, d)
            n = out_name(scn, d)
            facts += 1
            if e == 'fail' and ('out', n) in seen:
                bad.append('step %d: %s fails the checks but was published' % (i, n))
            if e == 'pass' and ('failed', n) in seen:
                bad.append('step %d: %s passes the checks but went to the failed output' % (i, n))
            if ('failed', n) in seen and not scn.get('failed'):
                bad.append('step %d: %s in a failed output that was not requested' % (i, n))
        if not disturbed(s):
            after = area_files(scn, s.files)
            # several values for a field are refused: an error, but never a publication
            multi = [d for d in selected(scn) if d.get('multi') and expect(scn, d) == 'fail']
            missing = [k for k in names if k not in after and names[k][0] not in multi]
            if s.outcome == 'ok' and missing:
                bad.append('step %d: not routed anywhere: %s' % (i, missing))
            if s.outcome == 'error' and not multi:
                bad.append('step %d: undisturbed run failed: %s' % (
                    i, str(s.report.get('detail'))[:300]))
    return bad, facts


def c11(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        after = area_files(scn, s.files)
        before = area_files(scn, s.files_before)
        if s.outcome == 'ok':
            for k in names:
                facts += 1
                if k not in after:
                    bad.append('step %d: success, but %s was not copied' % (i, k[1]))
        elif s.outcome == 'error' and not disturbed(s) and names:
            bad.append('step %d: undisturbed download failed: %s' % (
                i, str(s.report.get('detail'))[:300]))
        if s.outcome in ('ok', 'error'):
            for k in after:
                if k in names:
                    if s.outcome == 'error' and before.get(k) == after[k]:
                        continue
                    facts += 1
                    bad += check_content(scn, refs, names[k][0], names[k][1], k[0], k[1], after[k],
                                         'step %d' % i)
                elif k not in before:
                    bad.append('step %d: unexpected file %s/%s' % (i, k[0], k[1]))
    return bad, facts


def _stamp(text):
    try:
        t = datetime.fromisoformat(text)
    except ValueError:
        return None
    return (t if t.tzinfo else t.replace(tzinfo=timezone.utc)).timestamp()


def _meta(root):
    meta = {}
    for m in root.iter('custom-meta'):
        meta.setdefault(m.findtext('meta-name'), []).append(m.findtext('meta-value') or '')
    return meta


def c12(h, refs):
    from lxml import etree
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        after = area_files(scn, s.files)
        before = area_files(scn, s.files_before)
        limit = scn.get('limit')
        if s.outcome == 'ok':
            have = [k for k in names if k in after]
            want = min(limit, len(names)) if limit else len(names)
            if len(have) < want or (limit and len(have) != want and not before):
                bad.append('step %d: %d of %d selected files have an output, missing: %s' % (
                    i, len(have), want, [k[1] for k in names if k not in after][:4]))
        elif s.outcome == 'error' and not disturbed(s):
            bad.append('step %d: undisturbed run failed: %s' % (
                i, str(s.report.get('detail'))[:300]))
        for k in after:
            if k not in names and k not in before and s.outcome in ('ok', 'error'):
                bad.append('step %d: unexpected file %s/%s' % (i, k[0], k[1]))
        jumps = any(f[1] == 'jump' for f in s.fired())
        for k in names:
            if k not in after:
                continue
            doc = names[k][0]
            if after[k] == before.get(k):
                if s.outcome == 'ok' and not limit and doc['id'] in (s.step.get('update') or {}):
                    bad.append('step %d: success, but %s is still that of the previous source' % (
                        i, k[1]))
                continue
            facts += 1
            try:
                root = etree.fromstring(decode(k[1], after[k]))
            except (Undecodable, etree.XMLSyntaxError) as e:
                bad.append('step %d: %s: %s' % (i, k[1], e))
                continue
            src = docs.fix_source(doc)
            plain = etree.fromstring(src.lstrip().replace(b'&dagger;', b'&#x2020;'))
            had = _meta(plain)
            # what the source already said about a previous run comes first
            meta = {n: v[len(had[n]):] if n in had and v[:len(had[n])] == had[n] else v
                    for n, v in _meta(root).items()}
            old = [(r.get('id', ''), etree.tostring(r, with_tail=False, method='c14n'))
                   for r in plain.iter('ref')]
            new = [(r.get('id', ''), etree.tostring(r, with_tail=False, method='c14n'))
                   for r in root.iter('ref')]
            changed = [a[0] for a, b in zip(old, new) if a != b]
            want = {
                'fix-jats-malformatted-xml': 'true' if doc['kind'] in ('ws', 'dagger') else 'false',
                'fix-jats-changed-reference-count': str(len(changed)),
                'fix-jats-changed-reference-ids': ','.join(changed),
            }
            if [r[0] for r in old] != [r[0] for r in new]:
                bad.append('step %d: %s has the references of another file: %s' % (
                    i, k[1], [r[0] for r in new][:4]))
                continue
            for name, value in want.items():
                if meta.get(name) != [value]:
                    bad.append('step %d: %s: %s is %r, expected %r' % (
                        i, k[1], name, meta.get(name), value))
            stamps = meta.get('fix-jats-run-timestamp') or []
            if len(stamps) != 1:
                bad.append('step %d: %s: timestamps %r' % (i, k[1], stamps))
            elif not jumps:
                t = _stamp(stamps[0])
                lo = core.EPOCH + s.step.get('offset', 0)
                hi = lo + max(r.get('time') or 0 for r in s.reports)
                if t is None or not lo - 1e-3 <= t <= hi + 1e-3:
                    bad.append('step %d: %s: timestamp %s outside the run (%s .. %s)' % (
                        i, k[1], stamps[0], lo, hi))
    return bad, facts


def c13(h, refs):
    bad = []
    for i, s in enumerate(h.steps):
        for r in s.reports:
            if r['outcome'] in ('hang', 'wall'):
                bad.append('step %d: %s does not end: %s' % (i, r['proc'], r.get('detail')))
    return bad, len(h.steps)


def c14(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        before = area_files(scn, s.files_before)
        published = {k for k in before if k in names}
        for area, name, data in observed(scn, s):
            k = (area, name)
            if k not in names:
                continue
            facts += 1
            if data is None:
                if k in published:
                    bad.append('step %d: published output %s/%s disappeared' % (i, area, name))
                continue
            published.add(k)
            if data == before.get(k):
                continue
            bad += check_content(scn, refs, names[k][0], names[k][1], area, name, data,
                                 'step %d: visible output' % i)
        after = area_files(scn, s.files)
        # with error skipping, a document that failed keeps the output of the earlier run, if any
        excused = 0
        if s.step.get('skip') and disturbed(s):
            excused = 1000
        runs = runs_of(s)
        quiet = not disturbed(s)
        done = [r for r in runs if r['outcome'] == 'ok']
        if done:
            for k in names:
                facts += 1
                if k not in after:
                    if not excused or k in published:
                        bad.append('step %d: a run succeeded, but %s/%s is missing' % (
                            i, k[0], k[1]))
                elif not (excused and after[k] == before.get(k)):
                    bad += check_content(scn, refs, names[k][0], names[k][1], k[0], k[1], after[k],
                                         'step %d' % i)
            for k in after:
                if k not in names and k not in before and quiet:
                    bad.append('step %d: unexpected file %s/%s' % (i, k[0], k[1]))
        if quiet and all(complete(scn, refs, *names[k]) is not None for k in names):
            for r in runs:
                if r['outcome'] == 'error':
                    bad.append('step %d: undisturbed repetition failed: %s' % (
                        i, str(r.get('detail'))[:300]))
        if len(bad) > 5:
            break
    return bad[:6], facts


# -- text conservation -----------------------------------------------------------------------

def _local(tag):
    return tag.split('}')[-1] if isinstance(tag, str) else ''


def text_stream(node):
    """Text of the subtree in order, with a marker for every line break."""
    out = []

    def walk(e):
        if not isinstance(e.tag, str):
            return
        if _local(e.tag) == 'lb':
            out.append('\x00')
        if e.text:
            out.append(e.text)
        for ch in e:
            walk(ch)
            if ch.tail:
                out.append(ch.tail)
    walk(node)
    return ''.join(out)


def words_and_breaks(stream):
    parts = [p for p in re.split(r'(\x00)|\s+', stream) if p]
    while parts and parts[-1] == '\x00':
        parts.pop()
    while parts and parts[0] == '\x00':
        parts.pop(0)
    return parts


def outside_stream(root, container):
    """Elements, attributes and text outside the containers."""
    out = []

    def walk(e, tail):
        if e in container:
            out.append('<CONTAINER %s>' % sorted(e.attrib.items()))
        elif not isinstance(e.tag, str):
            out.append('<!%s %s>' % (type(e).__name__, e))
        else:
            out.append('<%s %s>' % (e.tag, sorted(e.attrib.items())))
            out.append((e.text or '').strip())
            for ch in e:
                walk(ch, True)
            out.append('</>')
        if tail and e not in container:
            out.append((e.tail or '').strip())
    walk(root, False)
    return ''.join(out)


def strip_tags(source):
    """Text of a possibly malformed document, with a marker for every line break."""
    text = source.decode('utf-8')
    text = re.sub(r'<\?.*?\?>', '', text)
    text = re.sub(r'<lb\b[^<>]*/>', '\x00', text)
    text = re.sub(r'<[^>]*>', '', text)
    return text.replace('&lt;', '<').replace('&gt;', '>').replace('&amp;', '&')


def tags_before(data, path):
    """Start tags before a container (of a possibly malformed document)."""
    from lxml import etree
    text = re.split(r'<%s\b' % path.split('/')[0], data.decode('utf-8'))[0]
    out = []
    for tag in re.findall(r'<[A-Za-z][^<>]*>', text):
        e = etree.fromstring(re.sub(r'/?>$', '/>', tag))
        out.append((e.tag, sorted(e.attrib.items())))
    return out


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def conserve(model, source, output, removing=False, malformed=False):
    """Differences between the text of a source and of its annotated version."""
    from lxml import etree
    try:
        b = etree.fromstring(output)
        if malformed:
            # parsed by nobody: the text between the tags is what there is to keep
            wa, wb = words_and_breaks(strip_tags(source)), words_and_breaks(text_stream(b))
            if [w for w in wa if w != '\x00'] != [w for w in wb if w != '\x00']:
                return ['words of the repaired document differ from its source']
            if wa != wb:
                return ['line breaks of the repaired document differ']
            path = docs.CONTAINER[model]
            ta, tb = tags_before(source, path), tags_before(output, path)
            source_text = re.search(r'<%s\b[^<>]*>' % path.split('/')[0], source.decode('utf-8'))
            ta.append(sorted(etree.fromstring(source_text.group(0)[:-1] + '/>').attrib.items()))
            tb.append(sorted(b.find(path.split('/')[0]).attrib.items()))
            return [] if ta == tb else ['elements before the container of the repaired document '
                                        'differ: %s, %s' % (ta, tb)]
        a = etree.fromstring(source, etree.XMLParser(recover=True))
    except etree.XMLSyntaxError as e:
        return ['output is not well-formed: %s' % e]
    path = docs.CONTAINER[model]
    ca, cb = a.findall(path), b.findall(path)
    if len(ca) != len(cb):
        return ['%d containers in the source, %d in the output' % (len(ca), len(cb))]
    bad = []
    ta, tb = ''.join(a.itertext()), ''.join(b.itertext())
    if removing:
        # whole tokens may be taken out, nothing may be added, repeated or reordered
        if not subsequence(re.sub(r'\s', '', tb), re.sub(r'\s', '', ta)):
            bad.append('output is not a part of the source text')
    elif ta != tb:
        n = 0
        while n < min(len(ta), len(tb)) and ta[n] == tb[n]:
            n += 1
        bad.append('text differs at %d: source %r, output %r' % (
            n, ta[max(0, n - 30):n + 40], tb[max(0, n - 30):n + 40]))
    wa, wb = ([w for c in cs for w in words_and_breaks(text_stream(c)) + ['</>']]
              for cs in (ca, cb))
    if not bad and wa != wb and not removing:
        n = 0
        while n < min(len(wa), len(wb)) and wa[n] == wb[n]:
            n += 1
        bad.append('line breaks differ: source %r, output %r' % (
            wa[max(0, n - 4):n + 5], wb[max(0, n - 4):n + 5]))
    oa, ob = outside_stream(a, ca), outside_stream(b, cb)
    if oa != ob:
        bad.append('content outside the container differs%s' % diff(oa.encode(), ob.encode()))
    return bad


def c08(h, refs):
    scn = h.scn
    bad, facts = [], 0
    names = out_names(scn)
    opts = scn.get('opts') or {}
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        after = area_files(scn, s.files)
        for k in names:
            if k not in after:
                if s.outcome == 'ok' and not disturbed(s):
                    bad.append('step %d: %s lost altogether' % (i, k[1]))
                continue
            doc = names[k][0]
            facts += 1
            try:
                data = decode(k[1], after[k])
            except Undecodable as e:
                bad.append('step %d: %s' % (i, e))
                continue
            removing = any(o.startswith('remove-') for o in opts)
            for m in conserve(scn['tool'], engine.plain_source(scn, doc), data, removing,
                              doc.get('mangle') is not None
                              and (doc['mangle'] < 4 or scn['tool'] == 'fulltext')):
                bad.append('step %d: %s: %s' % (i, k[1], m))
        if s.outcome == 'error' and not disturbed(s):
            bad.append('step %d: undisturbed run failed: %s' % (
                i, str(s.report.get('detail'))[:300]))
    return bad[:4], facts


# -- JATS fixing conserves content -----------------------------------------------------------

def article_stream(root):
    """What fixing must keep: all of it outside references, the text inside them."""
    out = []

    def walk(e, tail=True):
        if not isinstance(e.tag, str):
            out.append('<!%s %s>' % (type(e).__name__, e.text))
        elif _local(e.tag) == 'ref':
            out.append('<ref %s>%s</ref>' % (sorted(e.attrib.items()), ''.join(e.itertext())))
        else:
            out.append('<%s %s>%s' % (e.tag, sorted(e.attrib.items()), e.text or ''))
            for ch in e:
                walk(ch)
            out.append('</>')
        if tail:
            out.append(e.tail or '')
    around = []
    e = root.getprevious()
    while e is not None:
        around.insert(0, e)
        e = e.getprevious()
    for e in around:
        walk(e, False)
    walk(root, False)
    e = root.getnext()
    while e is not None:
        walk(e, False)
        e = e.getnext()
    return ''.join(out)


def without_added(root, had_group):
    """Takes the metadata out that the fixer adds."""
    group = root.find('custom-meta-group')
    if group is None:
        return
    if had_group is None:
        root.remove(group)
        return
    for m in list(group)[had_group:]:
        if m.tag == 'custom-meta' and (m.findtext('meta-name') or '').startswith('fix-jats-'):
            group.remove(m)


def c15(h, refs):
    from lxml import etree
    bad, facts = [], 0
    for i, s in enumerate(h.steps):
        scn = engine.at(h.scn, i)
        names = out_names(scn)
        after = area_files(scn, s.files)
        before = area_files(scn, s.files_before)
        for k in names:
            if k not in after:
                if s.outcome == 'ok' and not disturbed(s) and not scn.get('limit'):
                    bad.append('step %d: %s lost altogether' % (i, k[1]))
                continue
            if s.outcome != 'ok' and after[k] == before.get(k):
                continue
            facts += 1
            src = docs.fix_source(names[k][0])
            a = etree.fromstring(src.lstrip().replace(b'&dagger;', b'&#x2020;'))
            try:
                b = etree.fromstring(decode(k[1], after[k]))
            except (Undecodable, etree.XMLSyntaxError) as e:
                bad.append('step %d: %s: %s' % (i, k[1], e))
                continue
            group = a.find('custom-meta-group')
            without_added(b, None if group is None else len(group))
            if a.getroottree().docinfo.doctype != b.getroottree().docinfo.doctype:
                bad.append('step %d: %s: document type differs: %r' % (
                    i, k[1], b.getroottree().docinfo.doctype))
            ta, tb = article_stream(a), article_stream(b)
            if ta != tb:
                bad.append('step %d: %s: content differs from its source%s' % (
                    i, k[1], diff(tb.encode(), ta.encode())))
        if s.outcome == 'error' and not disturbed(s):
            bad.append('step %d: undisturbed run failed: %s' % (
                i, str(s.report.get('detail'))[:300]))
    return bad[:4], facts


JUDGE = dict(C15=c15, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09,
             C10=c10, C11=c11, C12=c12, C13=c13, C14=c14)
