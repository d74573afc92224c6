"""Regenerates /verif/properties.jsonl (single source of the property texts)."""
import json
import os

PKG = 'sciencebeam_trainer_grobid_tools/'
AU = PKG + 'auto_annotate_utils.py'
AN = PKG + 'annotation/annotator.py'
GT = PKG + 'structured_document/grobid_training_tei.py'
FX = PKG + 'fix_jats_xml.py'
DL = PKG + 'download_source_files.py'
IO = PKG + 'utils/io.py'
XM = PKG + 'utils/xml.py'
MODELS = [PKG + 'auto_annotate_%s.py' % m for m in (
    'header', 'segmentation', 'fulltext', 'reference', 'reference_segmenter',
    'affiliation_address', 'figure', 'table')]
CHECKS = PKG + 'annotation/checks.py'


def p(id, title, statement, over, text, why, files, mechanism, observe, hook=None):
    return dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook))


PROPS = [
    p('C01', 'Every selected document gets exactly one outcome',
      'When an annotation run reports success, every selected source document has exactly one outcome: one complete '
      'file under its own name in the output location, or (only if it fails the quality checks) one such file in the '
      'failed-output location, or no file when no failed-output location was given, or (only with error skipping '
      'enabled and an actual error) no file. Every document matching the model\'s file pattern in the source location '
      'is selected, or exactly the requested number of distinct ones when a limit is given, and no file other than '
      'those outcomes appears in the output locations.',
      ['schedules', 'configurations', 'fault_sequences'],
      'for every worker count, worker kind (threads, processes, Beam), model, directory listing order, interleaving of '
      'workers and non-fatal storage behaviour',
      'The tests process one or two documents with one worker and one listing order; losing or duplicating a document '
      'needs a batch, several workers and a particular completion order.',
      [AU, AN] + MODELS,
      [('file selection, resume filter and limit', AU + ':AbstractAnnotatePipelineFactory.get_source_file_list'),
       ('pool submission and completion loop', AU + ':AbstractAnnotatePipelineFactory.run_local_pipeline'),
       ('Beam pipeline construction', AU + ':AbstractAnnotatePipelineFactory.configure_beam_pipeline')],
      ['files in output and failed-output locations after each run', 'exit status and error log']),
    p('C02', 'A document that cannot be processed is never silently lost',
      'If reading, annotating or writing any document fails, or a worker dies, a run without error skipping ends in an '
      'error instead of success. With error skipping the failure is reported in the log naming that document, no '
      'incomplete output is left for it, every other document is still processed completely, and the run succeeds. The same holds '
      'for the JATS fixing and source download tools, which have no error skipping and always end in an error.',
      ['fault_sequences', 'schedules', 'crash_points'],
      'for every storage fault or bad document at any position of the batch, every interleaving, worker count and '
      'worker kind (threads, processes, Beam)',
      'Tests raise at most one mocked error in a single-document run; they never inject a failing open, read, write, '
      'close, rename or directory creation, nor a dying worker, at an arbitrary point of a concurrent batch.',
      [AU, FX, DL, IO, XM, GT],
      [('error wrapping and --skip-errors', AU + ':AbstractAnnotatePipelineFactory._auto_annotate'),
       ('future.result() for every completed future', AU + ':run_local_pipeline'),
       ('error wrapping of the JATS fixer', FX + ':FixJatsProcessor.process_source_file'),
       ('pool.map re-raising copy errors', DL + ':copy_files')],
      ['exit status', 'error log records', 'output locations']),
    p('C03', 'An output depends only on its own document, not on the batch',
      'The bytes produced for a document (annotation tools, and the JATS fixer apart from its recorded run timestamp) '
      'are the same as when that document is processed alone by a single worker. They do not change with the worker '
      'count or kind, the interleaving of workers, the order in which files are listed, which other documents are in '
      'the batch or failed, or the interpreter\'s hash seed.',
      ['schedules', 'configurations', 'histories'],
      'for every interleaving of concurrently processed documents at statement granularity, every worker kind, listing '
      'order, batch composition and hash seed',
      'Shared mutable state between worker threads (configuration objects, exit stacks, caches, annotators) only shows '
      'with particular preemptions; tests run one document at a time in one interpreter.',
      [AU, FX, AN, GT, PKG + 'annotation/simple_matching_annotator.py',
       PKG + 'annotation/reference_annotator.py'] + MODELS,
      [('per-call annotators and structured documents', AU + ':_auto_annotate'),
       ('per-document fixed temporary copy', PKG + 'auto_annotate_figure.py:get_fixed_source_url'),
       ('one shared pipeline factory for all threads', AU + ':run_local_pipeline')],
      ['bytes of every output compared with a solo run of the same document']),
    p('C04', 'Published output files are complete or absent at every instant',
      'At every instant, whatever fault or crash happens, a file visible under an output name (annotated document, '
      'failed-checks document, fixed JATS file, downloaded file) is either the complete new content or the complete '
      'previous content. A partially written, empty or truncated file is never visible under such a name, and '
      'leftovers of a killed run carry names that no tool selects as input.',
      ['crash_points', 'fault_sequences', 'schedules'],
      'for every crash point and every short, torn or failing write, close, rename or read while an output is being '
      'produced, on local and remote storage, plain and compressed',
      'No test interrupts a write or injects a disk error; the window is a few instructions wide.',
      [IO, GT, FX, DL],
      [('saving annotated documents', GT + ':save_grobid_training_tei_structured_document'),
       ('saving fixed JATS', FX + ':fix_jats_xml_file'),
       ('copying downloads', DL + ':copy_file')],
      ['contents of every output name after each simulated crash or error, and at every step of the run']),
    p('C05', 'Interrupted runs plus a resumed run equal one uninterrupted run',
      'After any history of crashed, failed or interrupted annotation runs, one undisturbed run with resume enabled '
      'leaves the output location with exactly the documents, byte for byte, that a single uninterrupted run over the '
      'same inputs produces. A resumed run processes every selected document that has no output yet and never rewrites '
      'or deletes an output that already exists.',
      ['crash_points', 'histories', 'fault_sequences', 'schedules'],
      'for every number and position of crashes, errors and interrupts in the preceding runs and every worker '
      'configuration of each run',
      'The resume tests check the filter on one existing file; they never crash a run in the middle of a write and '
      'resume from what is really on disk.',
      [AU, GT],
      [('resume filter on existing outputs', AU + ':get_file_list_without_output_file'),
       ('output naming shared by writer and filter', AU + ':get_tei_xml_output_file_for_source_file')],
      ['output location after the resumed run', 'identity and modification times of pre-existing outputs']),
    p('C06', 'Runs never modify inputs or write outside their outputs',
      'With output locations apart from the inputs, no run of any tool ever changes, truncates, renames, deletes or creates anything in the source, target XML, '
      'file list or configuration locations. Everything it writes lies in the given output locations or in the '
      'temporary directory. The JATS fixer never overwrites its own source, even when its output location is the '
      'source location.',
      ['fault_sequences', 'schedules', 'crash_points', 'configurations'],
      'for every tool, option, interleaving, fault and crash point, for flat and nested source layouts',
      'Tests look at the one expected output only, not at everything a run touches, and never on error paths.',
      [AU, FX, DL, IO, XM] + MODELS,
      [('output path mapping', AU + ':get_tei_xml_output_file_for_source_file'),
       ('mirrored relative path and inequality check', FX + ':FixJatsProcessor.get_output_file_for_source_file'),
       ('fixing a private temporary copy', PKG + 'auto_annotate_figure.py:fix_source_file_to')],
      ['every mutating file operation and a content digest of the inputs']),
    p('C07', 'Temporary files and open handles never outlive the work',
      'When a run of any tool ends, successfully, with an error or by an interrupt (anything but being killed), no '
      'temporary file or directory it created remains, neither in the temporary directory nor beside the outputs, and '
      'every file it opened has been closed. While a batch runs, the temporary items and open files in existence are '
      'bounded by the number of workers, not by the number of documents processed so far.',
      ['fault_sequences', 'schedules', 'histories'],
      'for every fault at every I/O operation, every interleaving and batch length',
      'Tests do not census the temporary directory or descriptors, and no test makes an operation between creation '
      'and cleanup fail.',
      [IO, XM, AU, PKG + 'auto_annotate_figure.py', PKG + 'auto_annotate_fulltext.py'],
      [('temporary download and fixed copies', IO + ':auto_download_input_file'),
       ('cleanup of the per-document copy', AU + ':auto_annotate'),
       ('with-blocks around all file access', GT + ':load_xml_root')],
      ['temporary directory listing and table of open files at the end of each run and when each document finishes']),
    p('C08', 'Annotation conserves the document text exactly',
      'Every annotated document that is published carries exactly the text of its source document, character for '
      'character and in order, with every line break between two pieces of text kept, and everything else of '
      'the document element outside the annotated container unchanged (comments of a malformed source that had to be '
      'repaired excepted). This holds whatever the storage does while it is read and written (short reads, '
      'chunk boundaries, compression, remote transfer, transient errors, retries) and however documents are '
      'interleaved, except for text that an option explicitly asks to remove.',
      ['inputs', 'schedules', 'fault_sequences'],
      'for every source document, with one or several annotated containers, every model and option set, every read/write chunking '
      'and non-fatal fault, and every interleaving',
      'Tests compare a few hand-written documents read in one piece by one thread.',
      [GT, AN, IO, PKG + 'annotation/simple_matching_annotator.py'] + MODELS,
      [('token extraction and re-assembly', GT + ':_iter_extract_lines_from_element, _lines_to_tei'),
       ('loading from storage', GT + ':load_xml_root'),
       ('annotators only set tags', AN + ':annotate_structured_document_inplace')],
      ['text and line breaks of source versus published output']),
    p('C09', 'Where and how files are stored does not change results',
      'Running a tool on remote storage, on local storage, or on compressed instead of plain input files produces the '
      'same logical output, and compressed output names hold correctly compressed content. Results do not depend on '
      'how storage chunks, delays or reorders its responses.',
      ['configurations', 'schedules', 'fault_sequences'],
      'for every placement of sources, target XML and outputs on local or remote storage, plain or gzip, every chunk '
      'size, response latency and listing order',
      'Tests use small plain local files almost exclusively; the remote download path has no end-to-end test.',
      [IO, XM, GT, FX, DL],
      [('automatic download of remote inputs', IO + ':auto_download_input_file'),
       ('storage abstraction for reads and writes', GT + ':load_xml_root')],
      ['decoded output content per placement']),
    p('C10', 'The quality gate routes every document to the right place',
      'With required or must-match fields configured, a document whose required field is absent, or whose field value '
      'is not found in the annotated text, is never published in the output location: it goes to the failed-output '
      'location if one is given and is dropped otherwise. A document that satisfies the checks is published in the '
      'output location and never in the failed-output location. The verdict for a document is the same in every '
      'schedule, worker kind, retry and resumed run.',
      ['schedules', 'histories', 'configurations', 'fault_sequences'],
      'for every mix of passing and failing documents, interleaving, worker kind, retry, crash and resume history',
      'Tests gate one document per run; a verdict leaking between concurrently checked documents or a failed document '
      'surfacing after a retry or resume is out of their reach.',
      [AN, CHECKS, AU, PKG + 'auto_annotate_segmentation.py', PKG + 'auto_annotate_fulltext.py'],
      [('routing', AN + ':annotate_structured_document'),
       ('checks', CHECKS + ':is_structured_document_passing_checks'),
       ('segmentation checks', PKG + 'auto_annotate_segmentation.py:is_segmentation_structured_document_passing_checks')],
      ['location of each document whose verdict is known by construction']),
    p('C11', 'Downloads keep document and target paired and intact',
      'A successful source download copies, for every position of the two lists where both files exist, the document '
      'and its target, each with exactly the content of its source, to the names given by the output patterns, and '
      'nothing for positions where either is missing. Document and target of one position are never paired with '
      'another position, whatever the thread count, the order in which existence checks and copies complete, or the '
      'chunking of transfers. Without storage faults a download with at least one complete position succeeds.',
      ['schedules', 'fault_sequences', 'configurations'],
      'for every thread count, completion order of checks and copies, pattern of missing files, name pattern, '
      'compression and transfer fault',
      'Tests mock the copying and the lists; concurrency, missing-file patterns and transfer faults are not exercised.',
      [DL],
      [('pair filter', DL + ':filter_file_pair_exists'),
       ('output naming', DL + ':get_relative_output_filename'),
       ('concurrent copy', DL + ':copy_files')],
      ['decoded content of every file in the two output locations']),
    p('C12', 'Each fixed JATS file is mirrored and truthfully labelled',
      'A successful JATS fixing run writes, for every selected file, exactly one output at the same relative path '
      'below the output location, and nothing else. The metadata added to each output describes that very file: the '
      'count and identifiers of exactly its changed references, whether its XML had to be repaired to be parsed, and a '
      'timestamp within the run. Without faults a run over parseable or repairable files succeeds.',
      ['schedules', 'configurations', 'fault_sequences'],
      'for every batch, directory layout, clock value, worker count and kind, and interleaving',
      'Tests call the function on one file; metadata leaking between concurrently fixed files, wrong mirroring in '
      'nested layouts and clock behaviour are out of reach.',
      [FX, XM],
      [('mirrored output path', FX + ':FixJatsProcessor.get_output_file_for_source_file'),
       ('metadata', FX + ':get_fix_xml_meta_data_dict'),
       ('repair fallback', FX + ':fix_jats_xml_file')],
      ['output tree and metadata block of each output versus its source']),
    p('C13', 'Every run terminates once faults stop',
      'Every run of every tool ends, with success or an error, within a bounded number of steps after the last fault: '
      'no deadlock, no endless wait and no leftover worker keeps it alive, even when documents fail, a worker dies, '
      'storage was slow, or the user interrupts it.',
      ['schedules', 'fault_sequences'],
      'for every interleaving, worker count (including more workers than documents), worker kind and fault sequence',
      'A hang depends on who waits for whom in a particular schedule; tests run one schedule with real time.',
      [AU, FX, DL, XM],
      [('pool shutdown', AU + ':run_local_pipeline'),
       ('pool close/join', DL + ':run'),
       ('read loops', XM + ':parse_xml_or_get_error_line')],
      ['scheduler detects no runnable task, or the step bound is exceeded']),
    p('C14', 'Repeated or overlapping execution of a document is harmless',
      'Processing a document again (a retried or duplicated Beam bundle, a second run over existing outputs, or two '
      'overlapping runs with the same arguments) leaves the same output as processing it once. At no time does '
      'repetition make a published output disappear, become incomplete or mix content of two executions.',
      ['histories', 'schedules', 'crash_points', 'fault_sequences'],
      'for every retry and duplication pattern, every interleaving of two overlapping runs and every crash point in '
      'either',
      'Tests execute each document once; re-execution over existing and half-finished state is never tried.',
      [AU, GT, FX, DL, IO],
      [('deterministic output naming', AU + ':get_tei_xml_output_file_for_source_file'),
       ('picklable, stateless pipeline step', AU + ':configure_beam_pipeline'),
       ('publishing of outputs', IO)],
      ['output locations at every step and at the end of overlapping runs']),
    p('C15', 'JATS fixing conserves the content of every file',
      'Every fixed JATS file that is published carries exactly the text of its source, character for character and in '
      'order. Fixing changes only mark-up inside references and adds its own metadata; every element, attribute, '
      'comment and piece of text outside references, the document type and the order and identity of references are '
      'kept. This holds whatever the storage does while files are read and written (short reads, chunk boundaries, '
      'compression, encodings, transient errors, crashes and repetitions) and however files are interleaved. Without '
      'faults no parseable or repairable file makes the run fail.',
      ['inputs', 'schedules', 'fault_sequences', 'histories'],
      'for every JATS file, whatever annotations, links, nested elements and identifiers its references contain, and '
      'for every schedule, storage behaviour and repetition',
      'Tests fix single references they construct; loss of neighbouring text needs particular combinations of '
      'annotations, and whole files under faults are never run.',
      [FX, XM, IO],
      [('reference fixes', FX + ':fix_reference'),
       ('moving text between elements', FX + ':change_annotation_to_matching_text'),
       ('reading and repairing', XM + ':parse_xml'),
       ('writing', FX + ':fix_jats_xml_file')],
      ['text and structure of each output versus its source']),
    # pure functions: stated, not claimed
    p('P01', 'Annotations mark the text that the target XML describes',
      'For every document and target XML, the spans annotated with a field are those whose text matches the target '
      'value at or above the configured threshold, and fields are not annotated on unrelated text.',
      ['inputs'], 'for every source text and target XML',
      'Only sampled texts are tested.',
      [PKG + 'annotation/simple_matching_annotator.py', PKG + 'utils/fuzzy.py'],
      [('fuzzy search', PKG + 'utils/fuzzy.py'), ('matching', PKG + 'annotation/simple_matching_annotator.py')],
      ['tags in the output']),
    p('P02', 'XML mapping and segmentation configuration select what they say',
      'For every mapping configuration, each field takes exactly the values selected by its expressions and options, '
      'and overrides and field filters apply to exactly the named keys.',
      ['inputs', 'configurations'], 'for every mapping file, override and field selection',
      'Only sampled configurations are tested.',
      [PKG + 'annotation/target_annotation.py', AU],
      [('mapping evaluation', PKG + 'annotation/target_annotation.py')],
      ['target annotations']),
    p('P04', 'Line number, segmentation and reference post-processing heuristics',
      'For every token sequence, the line number, segmentation, affiliation and reference post-processing steps assign '
      'tags as documented by their options.',
      ['inputs', 'configurations'], 'for every token sequence and option',
      'Only sampled documents are tested.',
      [PKG + 'annotation/line_number_annotator.py', PKG + 'annotation/segmentation_annotator.py',
       PKG + 'annotation/reference_annotator.py'],
      [('post-processing annotators', PKG + 'annotation')], ['tags in the output']),
]


def main():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(path, 'w', encoding='utf-8') as fp:
        for prop in PROPS:
            assert len(prop['title']) <= 80, prop['title']
            fp.write(json.dumps(prop) + '\n')


if __name__ == '__main__':
    main()
