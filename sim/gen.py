"""Scenario generators: one function per property, every choice drawn from the given PRNG."""
from . import docs

MODELS = ['header', 'segmentation', 'fulltext', 'reference', 'reference_segmenter',
          'affiliation_address', 'figure', 'table']
# cheaper and concurrency-richer models a little more often
WEIGHTS = dict(header=2, segmentation=2, fulltext=3, reference=2, reference_segmenter=2,
               affiliation_address=2, figure=3, table=2, fix_jats=4, download=4)

OPTS = {
    'header': [{}, {}, {'matcher': 'complex'}, {'use-line-number-annotator': True},
               {'no-preserve-tags': True}],
    'segmentation': [{}, {}, {'no-merge-references': True}, {'no-preserve-fields': 'page'},
                     {'no-preserve-tags': True}],
    'fulltext': [{}, {}, {'no-extend-to-line': True},
                 {'expand-to-previous-untagged-lines': True,
                  'expand-to-following-untagged-lines': True},
                 {'no-preserve-tags': True}],
    'reference': [{}, {}, {'segment-references': True}, {'include-idno-prefix': True},
                  {'no-preserve-tags': True}],
    'reference_segmenter': [{}, {}, {'no-preserve-tags': True},
                            {'use-line-number-annotator': True}],
    'affiliation_address': [{}, {}, {'segment-affiliation': True}, {'preserve-sub-tags': True},
                            {'no-preserve-tags': True}],
    'figure': [{}, {}, {'segment-figures': True}, {'preserve-sub-tags': True}],
    'table': [{}, {}, {'segment-tables': True}, {'preserve-sub-tags': True}],
}
# less common options, drawn in a quarter of the runs
MORE = {
    'header': [{'fields': 'title,abstract'}, {'always-preserve-fields': 'author'},
               {'matcher-lookahead-lines': 3}, {'matcher-score-threshold': 0.6},
               {'use-line-number-annotator': True, 'min-line-numbers-per-page': 2},
               {'xml-mapping-overrides': 'abstract.use-raw-text=true'}],
    'segmentation': [{'matcher': 'complex'}, {'fields': 'reference'},
                     {'always-preserve-fields': 'page'}, {'use-line-number-annotator': True},
                     {'no-preserve-tags': True, 'no-merge-references': True}],
    'fulltext': [{'sub-fields': 'xref-bib'}, {'fields': 'section_title,section_paragraph'},
                 {'matcher': 'complex'}, {'always-preserve-fields': 'figure'},
                 {'no-preserve-tags': True, 'expand-to-following-untagged-lines': True}],
    'reference': [{'remove-invalid-references': True},
                  {'remove-invalid-references': True, 'segment-references': True},
                  {'always-preserve-fields': 'reference'},
                  {'segment-references': True, 'include-idno-prefix': True}],
    'reference_segmenter': [{'fields': 'reference'}, {'matcher': 'complex'},
                            {'matcher-lookahead-lines': 1}],
    'affiliation_address': [{'remove-invalid-affiliations': True},
                            {'sub-fields': 'author_aff-institution'},
                            {'preserve-sub-tags': True, 'no-preserve-sub-fields': 'author_aff-label'},
                            {'segment-affiliation': True, 'remove-invalid-affiliations': True}],
    'figure': [{'sub-fields': 'figure-label'}, {'no-preserve-tags': True},
               {'preserve-sub-tags': True, 'no-preserve-sub-fields': 'figure-label'},
               {'segment-figures': True, 'preserve-sub-tags': True}],
    'table': [{'sub-fields': 'table-label'}, {'no-preserve-tags': True},
              {'preserve-sub-tags': True, 'no-preserve-sub-fields': 'table-label'},
              {'segment-tables': True, 'preserve-sub-tags': True}],
}
GATE_FIELDS = {'header': ['title', 'abstract', 'title,abstract'],
               'segmentation': ['abstract', 'title,abstract'],
               'fulltext': ['reference_list_title']}
GATE_ALIAS = {'reference_list_title': 'reflist'}

POOL = 14


def pick(rng, table):
    """table: {value: weight}"""
    items = sorted(table.items(), key=lambda kv: str(kv[0]))
    total = sum(w for _, w in items)
    x = rng.random() * total
    for v, w in items:
        x -= w
        if x < 0:
            return v
    return items[-1][0]


def pick_tool(rng, tools):
    return pick(rng, {t: WEIGHTS[t] for t in tools})


def doc(i, kind='good', **kw):
    d = dict(id='doc%02d' % i, kind=kind, v=0, size=1 + (i % 5 == 4))
    d.update(kw)
    return d


def zips(rng):
    return rng.choice([True] * 7 + ['GZ', 'bz2', 'deflate'])


def pick_docs(rng, n, kinds=None, gz=0.25, pool=POOL):
    """n distinct documents of the pool; kinds: {kind: weight}"""
    ids = rng.sample(range(max(pool, n)), n)
    out = []
    for i in ids:
        kind = pick(rng, kinds) if kinds else 'good'
        out.append(doc(i, kind, **({'gz': zips(rng)} if rng.random() < gz else {})))
    return out


def pick_store(rng, p=0.35):
    r = rng.random()
    if r < .4:
        return {}
    if r < .55:
        return dict(src='remote', xml='remote', out='remote')
    return {k: 'remote' for k in ('src', 'xml', 'out') if rng.random() < p}


def pick_opts(rng, tool):
    if tool in MORE and rng.random() < .25:
        return dict(rng.choice(MORE[tool]))
    return dict(rng.choice(OPTS.get(tool, [{}])))


def pick_step(rng, tool, modes=None, lines=0.4, workers=None, **kw):
    if tool == 'download':
        mode = 'threads'
    else:
        modes = modes or dict(threads=5, procs=2.5, beam=2)
        if tool == 'fix_jats':
            modes = {m: w for m, w in modes.items() if m != 'beam'}
        mode = pick(rng, modes)
    st = dict(mode=mode, workers=workers or rng.choice([1, 2, 2, 3, 3, 4, 7]),
              cfg=dict(p_io=rng.choice([0.03, .1, .3, .6]), p_lock=rng.choice([0, .02, .1, .3])),
              chunk=rng.choice([0, 0, 0, 50, 700]), latency=rng.choice([0, 0, 0, .02, 2.0]),
              salt='s%d' % rng.randrange(1000), names='n%d' % rng.randrange(1000),
              offset=rng.choice([0, 0, 12345.678, 3e7, -4e8]))
    if mode != 'procs' and rng.random() < lines:
        st['cfg']['line_mean'] = rng.choice([15, 60, 250, 1000])
        st['cfg']['line_cost'] = rng.choice([0, 0, 1e-4, .02, 3.0])
    if mode == 'beam':
        st['workers'] = rng.choice([1, 2, 3])
        st['beam'] = dict(bundle=rng.choice([1, 2, 3]), attempts=4,
                          dups=[i for i in range(6) if rng.random() < .2])
    st.update(kw)
    return st


ERRORS = ['eio', 'enospc', 'emfile', 'econn', 'memory', 'half', 'eacces', 'enoent', 'etime']
BENIGN = ['stall', 'jump']
OUTPUT_AREAS = {'out': .12, 'failed': .12, 'r-out': .2, 'r-failed': .2}
INPUT_AREAS = {'src': .08, 'xml': .08, 'r-src': .08, 'r-xml': .08}


def pick_areas(rng):
    r = rng.random()
    if r < .35:
        return dict(OUTPUT_AREAS)
    if r < .6:
        return dict(INPUT_AREAS)
    if r < .8:
        return {'tmp': .06}
    if r < .95:
        return {'*': rng.choice([.01, .04, .15])}
    return {'cfg': .2, 'list': .2}


def faults(rng, kinds, budget=None, areas=None, worker_budget=None, ops=None):
    f = dict(kinds=list(kinds), areas=areas or pick_areas(rng), budget=budget or rng.choice([1, 1, 2, 3]))
    if worker_budget is not None:
        f['worker_budget'] = worker_budget
    if ops:
        f['ops'] = ops
    if 'enospc' in kinds and rng.random() < .15:
        f['diskfull'] = True
    return f


def error_faults(rng, **kw):
    kinds = ERRORS if rng.random() < .6 else rng.sample(ERRORS, 3)
    return faults(rng, kinds, **kw)


def benign_faults(rng):
    return faults(rng, BENIGN, budget=3, areas={'*': .03})


CRASH = {'crash': ['crash'], 'interrupt': ['interrupt'], 'kill': ['kill', 'crash']}


def crash_faults(rng, mode):
    r = rng.random()
    if r < .6:
        kinds = ['crash']
    elif r < .8:
        kinds = ['interrupt', 'crash']
    else:
        kinds = ['crash', 'eio', 'enospc', 'econn', 'half']
    if mode == 'procs':
        kinds = kinds + ['kill']
    return faults(rng, kinds, budget=rng.choice([1, 1, 2]),
                  areas=dict(OUTPUT_AREAS) if rng.random() < .6 else {'*': rng.choice([.01, .05])})


def base(rng, tool, n, kinds=None, gz=0.25, remote=0.35, opts=True, **kw):
    scn = dict(tool=tool, docs=pick_docs(rng, n, kinds, gz), store=pick_store(rng, remote),
               opts=pick_opts(rng, tool) if opts else {})
    if tool in MODELS:
        scn['xgz'] = rng.random() < .25 and zips(rng)
    if tool != 'download' and rng.random() < .06:
        scn['debug'] = True
    if tool == 'fix_jats':
        if rng.random() < .5:
            scn['select'] = rng.choice(['list', 'list', 'dir'])
            scn['list_ext'] = rng.choice(['.tsv', '.lst', '.csv', '.tsv.gz'])
        for d in scn['docs']:
            d['sub'] = rng.choice(['', '', 'a/', 'a/b/', 'c.xml/', 'src/', 'in/src/'])
        scn['no_log_file'] = rng.random() < .3
    if tool == 'download':
        download_extras(rng, scn)
    spice(rng, scn)
    scn.update(kw)
    return scn


STEMS = ['doc1', 'doc10', 'doc100', 'doc', 'a.b', 'x.xml', 'UP per', 'd-\u00e9\u4e2d', 'n[1]', 'q{0}',
         '%41', '+p', 'doc.tei', '.hid', "it's", 'l' * 150, '1', 'doc.header.tei.xml']


# different names, however alike
CLOSE = ['doc', 'Doc', 'DOC', 'dOc', 'doc-', 'doc_', 'd\u00f6c', 'do\u0308c', 'd\u00d6c', 'd c', 'd  c', 'd%20c', 'd+c']


def spice(rng, scn):
    """Odd file names, equal names in different places, large files, malformed documents."""
    tool, ds = scn['tool'], scn['docs']
    r = rng.random()
    if rng.random() < .3:
        scn['tz'] = rng.choice(['XXX-5:30', 'YYY+8', 'ZZZ-12'])
    if r < .2:
        stems = rng.sample(STEMS if r < .14 else CLOSE, min(len(ds), 13))
        for d, stem in zip(ds, stems):
            d['file'] = stem
    elif r < .3 and tool in MODELS:
        # the same document plain and compressed
        twin = dict(ds[0])
        if twin.pop('gz', None) is None:
            twin['gz'] = True
        ds.append(twin)
    elif r < .45 and (tool == 'fix_jats' or tool == 'download' and (
            '{index}' in scn['doc_pattern'] or 'dir}' in scn['doc_pattern'])):
        subs = ['', 'a/', 'a/b/', 'k/', 'b/a/', 'same/', 'A/', 'src/', 'in/src/', 'src/a/']
        for d, sub in zip(ds, rng.sample(subs, min(len(ds), len(subs)))):
            d['file'], d['sub'] = 'same', sub
    if rng.random() < .06:
        rng.choice(ds)['pad'] = rng.choice([9000, 70000, 140000, 70001, 200001])
    if tool == 'download':
        for d in ds:
            d['size'] = rng.choice([1, 1, 2])
        if rng.random() < .12:
            scn['repeat'] = [rng.randrange(20) for _ in range(rng.randint(1, 3))]
    if tool == 'fix_jats' and scn.get('select') == 'list' and rng.random() < .15:
        scn['repeat'] = [rng.randrange(20) for _ in range(rng.randint(1, 3))]
    if rng.random() < .3:
        scn['spell'] = {}
        for what in ('src', 'xml', 'out', 'failed'):
            r = rng.random()
            if r < .3:
                scn['spell'][what] = 'slash'
            elif r < .6 and (tool in MODELS or tool == 'fix_jats' and scn.get('select') != 'list'):
                scn['spell'][what] = rng.choice(['rel', 'up', 'dot'])
    if tool in MODELS + ['fix_jats'] and rng.random() < (.2 if tool in MODELS else .35):
        for d in ds:
            if rng.random() < .8:
                d['wild'] = rng.randrange(400)
    if tool == 'fix_jats' and rng.random() < .08:
        rng.choice(ds)['size'] = rng.choice([12, 30])
    if tool in MODELS:
        for d in ds:
            if rng.random() < .3:
                d['outer'] = rng.randrange(400)
            if rng.random() < .12:
                d['twice'] = rng.randrange(400)
    if tool in MODELS and tool != 'affiliation_address' and rng.random() < .12:
        d = rng.choice(ds)
        if d['kind'] == 'good' and not d.get('gz'):
            d['mangle'] = rng.randrange(4, 200)
            if tool in ('fulltext', 'figure') and rng.random() < .5:
                d['mangle'] %= 4
                if rng.random() < .5:
                    d['outer'] = rng.randrange(400)
                if rng.random() < .5:
                    d['ending'] = rng.choice(['extra', 'cut', 'amp', 'raw'])


PATTERNS = [
    ('{filename}', '{filename}'),
    ('{filename}', '{document.name}.xml'),
    ('{name}.pdf.gz', '{document.name}.xml.gz'),
    ('{name}{ext}', '{name}{ext}'),
    ('{dir}{filename}', '{dir}{filename}'),
    ('{index}-{name}.pdf', '{index}-{document.name}.xml.gz'),
    ('{target.name}.pdf.gz', '{target.filename}'),
    ('{document.dir}{name}.pdf', '{document.dir}{document.name}.xml'),
    ('{index}.pdf', '{index}.xml.gz'),
    ('{name}.bz2', '{document.name}.xml.deflate'),
    ('{dir}{index}.PDF.GZ', 'x/{index}{ext}'),
]


def download_extras(rng, scn):
    scn['list_ext'] = rng.choice(['.tsv', '.lst', '.csv', '.lst.gz'])
    scn['doc_pattern'], scn['xml_pattern'] = rng.choice(PATTERNS)
    for d in scn['docs']:
        d['sub'] = rng.choice(['', '', 'a/', 'a/b/']) \
            if '{dir}' in scn['doc_pattern'] or '.dir}' in scn['doc_pattern'] else rng.choice(['', 'k/'])
        d['xgz'] = rng.random() < .4 and zips(rng)
    if not any(_pair(d) for d in scn['docs']):
        scn['docs'][0]['kind'] = 'good'


def _pair(d):
    return d['kind'] not in ('noxml', 'nodoc', 'neither')


def gate(rng, scn, n_bad=0.4):
    """Adds a quality gate and makes some documents fail it."""
    tool = scn['tool']
    scn['gate'] = rng.choice(['required', 'matching', 'both'])
    scn['gate_field'] = rng.choice(GATE_FIELDS[tool])
    if scn['gate'] == 'both' and rng.random() < .6:
        scn['gate_field2'] = rng.choice(GATE_FIELDS[tool])
    scn['failed'] = rng.random() < .65
    scn['opts'] = {k: v for k, v in scn['opts'].items() if k in ('no-merge-references',)}
    for d in scn['docs']:
        d.pop('mangle', None)
        d.pop('wild', None)
        if d['kind'] == 'good' and rng.random() < n_bad:
            d['kind'] = rng.choice(['gate-missing', 'gate-mismatch'])
            if tool != 'fulltext' and rng.random() < .4:
                d['which'] = rng.choice(['title', 'abstract'])
            if d['kind'] == 'gate-missing' and rng.random() < .5:
                d['bare'] = rng.choice(['bare', 'empty', 'blank', 'nested'])
            if d['kind'] == 'gate-mismatch' and tool != 'fulltext' and rng.random() < .5:
                d['partial'] = True
        elif d['kind'] == 'good' and rng.random() < .3:
            d['typo'] = True
    return scn


def maybe_gate(rng, scn, p=0.3):
    if scn['tool'] in docs.GATED and rng.random() < p:
        gate(rng, scn)
    return scn


BAD = dict(good=6, noxml=1, badxml=1, nocontainer=.5)
BADFIX = dict(good=5, ws=1.5, dagger=1.5, broken=1)
GOODFIX = dict(good=5, ws=1.5, dagger=1.5)
PAIRS = dict(good=5, noxml=1, nodoc=1, neither=.5)


def kinds_for(tool, bad):
    if tool == 'fix_jats':
        return BADFIX if bad else GOODFIX
    if tool == 'download':
        return PAIRS
    return BAD if bad else None


# -- one generator per property -----------------------------------------------------

def crowd(rng, tool, least=20, most=110):
    """A batch of many (small) documents."""
    n = rng.choice([least, 21, 21, 25, 31, 32, 33, 41, 50, 51, 64, 65, 81, 100, 101, 101, most])
    scn = dict(tool=tool, docs=[doc(i, size=1) for i in range(n)], store=pick_store(rng, .2), opts={})
    if tool == 'fix_jats':
        scn['select'] = rng.choice(['list', 'dir'])
        scn['list_ext'] = rng.choice(['.tsv', '.lst'])
        for d in scn['docs']:
            d['sub'] = rng.choice(['', 'a/', 'a/b/'])
    if tool == 'download':
        download_extras(rng, scn)
    for d in scn['docs']:
        if rng.random() < .1:
            d['gz'] = True
    st = pick_step(rng, tool, lines=0, workers=rng.choice([1, 2, 4, 8]))
    st['chunk'] = 0
    scn['steps'] = [st]
    return scn


def c01(rng):
    tool = pick_tool(rng, MODELS)
    if rng.random() < .02:
        scn = crowd(rng, rng.choice(['header', 'segmentation', 'table', 'affiliation_address']))
        if rng.random() < .3:
            scn['limit'] = rng.randint(20, len(scn['docs']))
        return scn
    r = rng.random()
    scn = base(rng, tool, rng.randint(1, 7), decoys=rng.random() < .5)
    maybe_gate(rng, scn, .5)
    st = pick_step(rng, tool)
    if r < .2:
        scn['limit'] = rng.randint(1, len(scn['docs']) + 1)
    elif r < .28:
        scn['select'] = 'single'
        scn['docs'] = scn['docs'][:2]
    elif r < .45:
        st['skip'] = True
        st['faults'] = error_faults(rng)
        if not scn.get('gate'):
            spoil(rng, scn)
    elif r < .6:
        st['faults'] = error_faults(rng)
    elif r < .75:
        st['faults'] = benign_faults(rng)
    scn['steps'] = [st]
    if r > .85 and not scn.get('limit'):
        scn['steps'].append(pick_step(rng, tool, resume=rng.random() < .5,
                                      update=updates(rng, scn)))
        if rng.random() < .3:
            scn['steps'][1].update(skip=True, faults=error_faults(rng))
    return scn


def spoil(rng, scn):
    for d in scn['docs']:
        if d['kind'] == 'good' and rng.random() < .3:
            d['kind'] = rng.choice(['noxml', 'badxml', 'nocontainer'])


def updates(rng, scn, p=.6):
    """Some sources are replaced before the step that follows."""
    new = 1 if rng.random() < .6 else dict(rot=1)   # rot: of the same size
    out = {d['id']: new for d in scn['docs'] if d['kind'] not in ('noxml', 'nodoc', 'neither')
           and rng.random() < .6}
    return out if out and rng.random() < p else None


def c02(rng):
    tool = pick_tool(rng, MODELS + ['fix_jats', 'download'])
    bad = rng.random() < .5
    if rng.random() < .012:
        # a single one of many
        scn = crowd(rng, rng.choice(['header', 'table', 'fix_jats']))
        d = rng.choice(scn['docs'])
        if scn['tool'] != 'fix_jats' and rng.random() < .5:
            d['kind'] = rng.choice(['noxml', 'badxml', 'nocontainer'])
            scn['steps'][0]['skip'] = rng.random() < .3
        else:
            scn['steps'][0]['faults'] = faults(rng, list(ERRORS))
        return scn
    scn = base(rng, tool, rng.randint(1, 6), kinds_for(tool, bad))
    if not bad:
        maybe_gate(rng, scn, .3)
    st = pick_step(rng, tool, lines=.25)
    if tool in MODELS and rng.random() < .55:
        st['skip'] = True
    if not bad or rng.random() < .5:
        kinds = list(ERRORS)
        if st['mode'] == 'procs' and rng.random() < .5:
            kinds += ['kill']
        st['faults'] = faults(rng, kinds)
        if rng.random() < .05 and st['mode'] == 'threads':
            st['thread_fail'] = 1
    scn['steps'] = [st]
    return scn


def c03(rng):
    tool = pick_tool(rng, MODELS + ['fix_jats'])
    bad = rng.random() < .35
    scn = base(rng, tool, rng.randint(2, 7), kinds_for(tool, bad and tool != 'fix_jats'), remote=.25)
    if not bad:
        maybe_gate(rng, scn, .3)
    if tool in MODELS and not scn.get('gate') and rng.random() < .25:
        for d in scn['docs']:
            d['wild'] = rng.randrange(400)
    st = pick_step(rng, tool, lines=.75, workers=rng.choice([1, 2, 3, 4, 5]))
    if bad:
        st['skip'] = True
        if rng.random() < .5:
            st['faults'] = error_faults(rng)
    elif rng.random() < .2:
        st['faults'] = benign_faults(rng)
    scn['steps'] = [st]
    return scn


def c04(rng):
    tool = pick_tool(rng, MODELS + ['fix_jats', 'fix_jats', 'download', 'download'])
    scn = base(rng, tool, rng.randint(1, 5), kinds_for(tool, False))
    maybe_gate(rng, scn, .35)
    if rng.random() < .15:
        rng.choice(scn['docs'])['pad'] = rng.choice([70000, 140000, 200001, 400000])
    mode = pick_step(rng, tool, lines=.15)
    mode['faults'] = crash_faults(rng, mode['mode']) if rng.random() < .6 else error_faults(
        rng, areas=dict(OUTPUT_AREAS) if rng.random() < .7 else None)
    mode['chunk'] = rng.choice([0, 30, 200])
    if tool in MODELS:
        mode['skip'] = rng.random() < .4
    scn['steps'] = [mode]
    if rng.random() < .4:
        # outputs of an earlier run are overwritten
        first = pick_step(rng, tool, lines=0)
        mode['update'] = updates(rng, scn)
        scn['steps'] = [first, mode]
    return scn


def c05(rng):
    tool = pick_tool(rng, MODELS)
    scn = base(rng, tool, rng.randint(2, 6))
    maybe_gate(rng, scn, .3)
    if rng.random() < .025:
        # more remaining documents than any page, batch or pool
        scn = crowd(rng, rng.choice(['header', 'table']))
        st = scn['steps'][0]
        if rng.random() < .5:
            st['faults'] = crash_faults(rng, st['mode'])
        else:
            st['faults'] = faults(rng, ERRORS, budget=3)
            st['skip'] = True
        scn['steps'].append(pick_step(rng, scn['tool'], lines=0, resume=True))
        return scn
    steps = []
    for i in range(rng.choice([1, 1, 2, 3])):
        st = pick_step(rng, tool, lines=.15, resume=bool(i) or rng.random() < .5)
        st['skip'] = rng.random() < .3
        st['faults'] = crash_faults(rng, st['mode']) if rng.random() < .7 else error_faults(rng)
        steps.append(st)
    steps.append(pick_step(rng, tool, lines=.1, resume=True))
    if not scn.get('gate') and rng.random() < .15:
        spoil(rng, scn)
        steps[-1]['skip'] = True
    scn['steps'] = steps
    return scn


def c06(rng):
    tool = pick_tool(rng, MODELS + ['fix_jats', 'fix_jats', 'download'])
    bad = rng.random() < .3
    scn = base(rng, tool, rng.randint(1, 5), kinds_for(tool, bad), decoys=rng.random() < .3)
    if not bad:
        maybe_gate(rng, scn, .3)
    if tool == 'fix_jats' and rng.random() < .3:
        scn.pop('spell', None)
        scn['out_is_src'] = rng.choice([True, 'dot', 'slashes', 'up', 'link', 'rel'])
        scn['store'] = {k: scn['store'].get('src', 'local') for k in ('src', 'out')}
    steps = []
    for i in range(rng.choice([1, 1, 2])):
        st = pick_step(rng, tool, lines=.2)
        if tool in MODELS:
            st['skip'] = rng.random() < .4
            st['resume'] = rng.random() < .3
        r = rng.random()
        if r < .35:
            st['faults'] = error_faults(rng)
        elif r < .65:
            st['faults'] = crash_faults(rng, st['mode'])
        steps.append(st)
    scn['steps'] = steps
    return scn


def c07(rng):
    tool = pick_tool(rng, MODELS + ['fix_jats', 'fix_jats', 'download', 'figure', 'fulltext'])
    r = rng.random()
    if r < .15:
        # bounded by the workers, not by the batch
        tool = rng.choice(['figure', 'fulltext', 'table', 'fix_jats', 'affiliation_address'])
        w = rng.choice([1, 1, 2])
        scn = base(rng, tool, max(temp_bound(w), open_bound(w)) + 3, kinds_for(tool, False))
        if rng.random() < .6:
            scn['store'] = dict(scn['store'], src='remote')
        scn['steps'] = [pick_step(rng, tool, modes=dict(threads=3, procs=1), lines=0, workers=w)]
        return scn
    bad = rng.random() < .4
    scn = base(rng, tool, rng.randint(1, 6), kinds_for(tool, bad))
    if not bad:
        maybe_gate(rng, scn, .25)
    st = pick_step(rng, tool, lines=.3)
    if tool in MODELS:
        st['skip'] = rng.random() < .6
    if r < .75:
        st['faults'] = error_faults(rng, budget=rng.choice([1, 2, 4]))
    elif r < .9:
        st['faults'] = faults(rng, ['interrupt'], budget=1, areas={'*': rng.choice([.02, .1])})
    scn['steps'] = [st]
    if rng.random() < .2:
        scn['steps'].append(pick_step(rng, tool, lines=0, resume=tool in MODELS))
    return scn


def temp_bound(workers):
    return 5 * workers + 3


def open_bound(workers):
    return 8 * workers + 8


def c08(rng):
    tool = pick_tool(rng, MODELS)
    scn = base(rng, tool, rng.randint(1, 5))
    maybe_gate(rng, scn, .2)
    if not scn.get('gate'):
        for d in scn['docs']:
            if rng.random() < .6:
                d['wild'] = rng.randrange(400)
    st = pick_step(rng, tool, lines=.3)
    st['chunk'] = rng.choice([0, 1, 13, 60, 700])
    if rng.random() < .05:
        d = scn['docs'][0]
        scn['docs'], scn['opts'] = [d], {}
        d.pop('mangle', None)
        d['kind'] = 'good'
        d['long'] = rng.choice([('lines', 1100), ('lines', 260), ('words', 1100), ('words', 5200), ('word', 5000),
                                ('blank', 5000), ('breaks', 300), ('elements', 300), ('deep', 40),
                                ('deep', 120)])
        st = pick_step(rng, tool, lines=0)
        st['chunk'] = 5000
    r = rng.random()
    if r < .35:
        st['faults'] = error_faults(rng)
        st['skip'] = True
    elif r < .5:
        st['faults'] = benign_faults(rng)
    scn['steps'] = [st]
    return scn


def c09(rng):
    tool = pick_tool(rng, MODELS + ['fix_jats', 'fix_jats', 'download', 'download'])
    scn = base(rng, tool, rng.randint(1, 4), kinds_for(tool, False), gz=.5)
    maybe_gate(rng, scn, .2)
    scn['xgz'] = rng.random() < .5 and zips(rng)
    if rng.random() < .15:
        rng.choice(scn['docs'])['pad'] = rng.choice([70001, 140000, 200001, 400000])
    scn['store'] = {k: 'remote' for k in ('src', 'xml', 'out') if rng.random() < .55}
    st = pick_step(rng, tool, lines=.2)
    st['chunk'] = rng.choice([0, 1, 17, 100, 1500])
    st['latency'] = rng.choice([0, .05, 3.0, 10.0])
    if rng.random() < .3:
        st['faults'] = benign_faults(rng)
    scn['steps'] = [st]
    return scn


def c10(rng):
    tool = pick_tool(rng, list(docs.GATED))
    scn = gate(rng, base(rng, tool, rng.randint(2, 6)), .5)
    if tool == 'header' and rng.random() < .2:
        for d in scn['docs']:
            if d['kind'] == 'gate-mismatch':
                d['multi'] = rng.choice([1, 2])
                d.pop('partial', None)
    st = pick_step(rng, tool, lines=.5)
    r = rng.random()
    steps = [st]
    if r < .25:
        st['faults'] = error_faults(rng)
        st['skip'] = rng.random() < .5
    elif r < .4:
        st['faults'] = crash_faults(rng, st['mode'])
    if r < .4 or rng.random() < .2:
        steps.append(pick_step(rng, tool, lines=.2, resume=rng.random() < .7))
        if rng.random() < .4:
            # targets of documents that failed the checks are corrected
            steps[-1]['update'] = {d['id']: dict(kind='good', v=1) for d in scn['docs']
                                   if d['kind'].startswith('gate-') and rng.random() < .7} or None
    scn['steps'] = steps
    return scn


def c11(rng):
    if rng.random() < .01:
        return crowd(rng, 'download', 30, 250)
    scn = base(rng, 'download', rng.randint(1, 9), PAIRS)
    for d in scn['docs']:
        d['size'] = rng.choice([1, 1, 2])
    st = pick_step(rng, 'download', lines=.5)
    st['workers'] = rng.choice([1, 1, 2, 3, 5, 8])
    st['chunk'] = rng.choice([0, 0, 300, 3000])
    if rng.random() < .15:
        scn['limit'] = rng.randint(1, len(scn['docs']) + 1)
    r = rng.random()
    if r < .3:
        st['faults'] = error_faults(rng)
    elif r < .45:
        st['faults'] = benign_faults(rng)
    scn['steps'] = [st]
    if rng.random() < .15:
        scn['steps'].append(pick_step(rng, 'download', lines=.2, update=updates(rng, scn)))
    return scn


def c12(rng):
    if rng.random() < .006:
        return crowd(rng, 'fix_jats')
    scn = base(rng, 'fix_jats', rng.randint(1, 9), GOODFIX)
    st = pick_step(rng, 'fix_jats', lines=.6)
    if rng.random() < .15:
        scn['limit'] = rng.randint(1, len(scn['docs']) + 1)
    if rng.random() < .1:
        scn['select'] = 'single'
        scn['docs'] = scn['docs'][:3]
    r = rng.random()
    if r < .2:
        st['faults'] = benign_faults(rng)
    elif r < .35:
        st['faults'] = error_faults(rng)
    scn['steps'] = [st]
    if rng.random() < .15:
        scn['steps'].append(pick_step(rng, 'fix_jats', lines=.2, update=updates(rng, scn)))
    return scn


def c13(rng):
    if rng.random() < .1:
        # both verdicts at the same time, much contention, no faults
        tool = rng.choice(sorted(GATE_FIELDS))
        scn = base(rng, tool, rng.randint(3, 7))
        gate(rng, scn, .5)
        scn['failed'] = True
        st = pick_step(rng, tool, modes=dict(threads=5, beam=1), lines=.6)
        st['workers'] = rng.choice([2, 3, 5])
        st['cfg']['p_lock'] = rng.choice([.3, .6])
        st['cfg']['p_io'] = rng.choice([.3, .6])
        scn['steps'] = [st]
        return scn
    tool = pick_tool(rng, MODELS + ['fix_jats', 'fix_jats', 'download', 'download'])
    bad = rng.random() < .4
    scn = base(rng, tool, rng.randint(1, 8), kinds_for(tool, bad))
    if not bad:
        maybe_gate(rng, scn, .2)
    st = pick_step(rng, tool, lines=.25)
    st['workers'] = rng.choice([1, 2, 3, 5, 9, 16])
    if tool in MODELS:
        st['skip'] = rng.random() < .4
        st['resume'] = rng.random() < .2
    r = rng.random()
    kinds = ERRORS + BENIGN
    if r < .75:
        if rng.random() < .4:
            kinds = kinds + ['interrupt']
        if st['mode'] == 'procs':
            kinds = kinds + ['kill']
        st['faults'] = faults(rng, kinds, budget=rng.choice([1, 2, 5, 10]))
    elif r < .9:
        # much of a larger batch fails
        scn = base(rng, tool, rng.randint(8, 24), kinds_for(tool, bad))
        st['workers'] = rng.choice([1, 2, 3, 5])
        st['faults'] = faults(rng, ERRORS, budget=60, areas={
            rng.choice(['out', 'src', 'xml', '*']): rng.choice([.1, .5, .9])})
    elif st['mode'] != 'beam':
        # what a killed run leaves behind must not hold up the next one
        st['faults'] = crash_faults(rng, st['mode'])
        scn['steps'] = [st, pick_step(rng, tool, lines=.1, resume=tool in MODELS and rng.random() < .5)]
        return scn
    if st['mode'] != 'beam' and rng.random() < .08:
        st['thread_fail'] = rng.choice([1, 2])
    scn['steps'] = [st]
    return scn


def c14(rng):
    tool = pick_tool(rng, MODELS + ['fix_jats', 'fix_jats', 'download'])
    scn = base(rng, tool, rng.randint(1, 4), kinds_for(tool, False), remote=.25)
    maybe_gate(rng, scn, .25)
    r = rng.random()
    if r < .45:
        st = pick_step(rng, tool, lines=.2)
        over = []
        for _ in range(2):
            o = pick_step(rng, tool, modes=dict(threads=3, procs=1, beam=1), lines=.2,
                          workers=rng.choice([1, 2]))
            over.append({k: o[k] for k in ('mode', 'workers', 'salt', 'names', 'cfg', 'chunk', 'beam')
                         if k in o})
            over[-1]['names'] += '-%d' % len(over)
            if rng.random() < .25:
                over[-1]['faults'] = crash_faults(rng, 'threads')
        st['overlap'] = over
        st['p_overlap'] = rng.choice([.05, .3, .6])
        steps = [st]
        if rng.random() < .3:
            steps.append(pick_step(rng, tool, lines=0))
    elif r < .7 and tool in MODELS:
        st = pick_step(rng, tool, modes=dict(beam=1), lines=.3)
        st['beam'] = dict(bundle=rng.choice([1, 2]), attempts=4,
                          dups=[i for i in range(5) if rng.random() < .6])
        if rng.random() < .5:
            st['faults'] = error_faults(rng, budget=rng.choice([1, 2, 3]))
        steps = [st]
    else:
        steps = [pick_step(rng, tool, lines=.2) for _ in range(rng.choice([2, 3]))]
        if rng.random() < .4:
            steps[0]['faults'] = crash_faults(rng, steps[0]['mode'])
        for st in steps[1:]:
            if rng.random() < .5:
                st['faults'] = error_faults(rng) if rng.random() < .7 else crash_faults(
                    rng, st['mode'])
                st['skip'] = tool in MODELS and rng.random() < .6
            if rng.random() < .3:
                st['update'] = updates(rng, scn, 1)
    scn['steps'] = steps
    return scn


def c15(rng):
    scn = base(rng, 'fix_jats', rng.randint(1, 7), GOODFIX, gz=.3)
    for d in scn['docs']:
        if rng.random() < .85:
            d['wild'] = rng.randrange(4000)
            d['size'] = rng.choice([1, 1, 3])
    st = pick_step(rng, 'fix_jats', lines=.3)
    st['chunk'] = rng.choice([0, 0, 1, 13, 60, 700])
    r = rng.random()
    if r < .2:
        st['faults'] = error_faults(rng)
    elif r < .35:
        st['faults'] = benign_faults(rng)
    elif r < .5:
        st['faults'] = crash_faults(rng, st['mode'])
    scn['steps'] = [st]
    if r < .5 and rng.random() < .5 or rng.random() < .15:
        scn['steps'].append(pick_step(rng, 'fix_jats', lines=.2, update=updates(rng, scn, .3)))
    return scn


def finish(fn):
    def generate(rng):
        scn = fn(rng)
        first = {}
        for d in scn['docs']:
            # twins share their target XML, hence whatever decides about it
            one = first.setdefault(d['id'], d)
            for k in ('kind', 'which', 'bare', 'partial', 'multi', 'typo', 'pad', 'size', 'v', 'wild'):
                if d is not one:
                    d.pop(k, None)
                    if k in one:
                        d[k] = one[k]
        if any(d.get('pad') or scn['tool'] == 'download' and d['size'] > 1 for d in scn['docs']):
            for st in scn['steps']:
                for part in [st] + list(st.get('overlap') or ()):
                    if 0 < part.get('chunk', 0) < 3000:
                        part['chunk'] = 5000
        for d in scn['docs']:
            if d['kind'] in ('badxml', 'nocontainer', 'broken') and rng.random() < .5:
                d['how'] = rng.choice(['empty', 'garbage', 'blank', 'cut'])
        for st in scn['steps']:
            for part in [st] + list(st.get('overlap') or ()):
                f = part.get('faults')
                # how Ctrl-C ends a pipeline is the runner's business, and the runner is a stub
                if f and part.get('mode', st['mode']) == 'beam' and 'interrupt' in f['kinds']:
                    f['kinds'] = [k for k in f['kinds'] if k != 'interrupt']
        return scn
    return generate


GEN = dict(C15=c15, C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09,
           C10=c10, C11=c11, C12=c12, C13=c13, C14=c14)
GEN = {k: finish(fn) for k, fn in GEN.items()}
