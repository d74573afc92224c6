"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'Sampled schedules, worker kinds and faults; the set of documents and their gate verdicts are known by '
           'construction of the generated corpus, the content by an undisturbed solo run of the same code.',
    'C02': 'Sampled storage errors, bad documents and worker deaths at every kind of I/O operation; errors of local '
           'directory listings (swallowed by glob) are not injected.',
    'C03': 'Differential: the same document alone, one worker, undisturbed, in the same and in seven other '
           'interpreters with other hash seeds.',
    'C04': 'Every version of every file that ever becomes visible under an output location is recorded, at every '
           'system call, with crashes at sampled operations; no loss of the page cache.',
    'C05': 'Sampled histories of up to three disturbed runs followed by one undisturbed resumed run.',
    'C06': 'Every mutating system call of every run is recorded and judged, and the whole tree is compared.',
    'C07': 'Census of temporary items and open files during and after runs with sampled errors and interrupts at '
           'result waits.',
    'C08': 'Text and line breaks of published documents against the generated source, for generated and wild mixed '
           'content under sampled schedules, chunkings and errors.',
    'C09': 'Differential: any placement, compression, chunking and latency against plain local files.',
    'C10': 'Gate verdicts are known by construction of the documents.',
    'C11': 'Pairing, names and content are known by construction of the lists.',
    'C12': 'Metadata is recomputed from the generated source and the simulated clock.',
    'C13': 'Deadlock, simulated-time, step and statement bounds; faults are bounded, so the run must end after them.',
    'C14': 'Overlapping simulated runs, duplicated and retried Beam bundles, repeated runs over existing outputs.',
    'C15': 'Content of published files against the generated source, for generated and wild references and articles '
           'under sampled schedules, chunkings, errors, crashes and repetitions.',
}
TITLES = {}
with open(os.path.join(HERE, 'properties.jsonl'), encoding='utf-8') as f:
    for line in f:
        p = json.loads(line)
        TITLES[p['id']] = p['title']
PURE = ('a pure function of its input: no schedule, clock, fault, crash or interleaving takes part in it, so '
        'simulation has nothing to decide; ')
manifest = dict(
    version=1,
    setup_cmd='/opt/venv/bin/python tools/setup.py',
    checks=[dict(
        property=k,
        quick_cmd='/opt/venv/bin/python check.py %s quick' % k,
        thorough_cmd='/opt/venv/bin/python check.py %s thorough' % k,
        evidence_file='evidence/%s.json' % k,
        technique='deterministic simulation with fault injection (seeded search over schedules and faults)',
        level='exploration',
        level_note=NOTES[k]) for k in sorted(NOTES)],
    not_applicable=[
        dict(property='P01', reason=PURE + 'matching quality belongs to example-based or property-based tests'),
        dict(property='P02', reason=PURE + 'configuration parsing and XPath selection on one in-memory tree'),
        dict(property='P04', reason=PURE + 'heuristics over one in-memory token sequence'),
    ],
    notes='No hooks in /repo: every seam is taken at the standard library, lxml is used as it is. The commits in /repo '
          'are fixes only (see known-findings.txt).',
)
assert set(TITLES) == set(NOTES) | {x['property'] for x in manifest['not_applicable']}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
