"""Installs the simulation, then imports the code under test from /repo (fresh bytecode)."""
import os
import sys

os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('GRPC_ENABLE_FORK_SUPPORT', '0')

REPO = os.environ.get('SIM_REPO', '/repo')
PACKAGE = 'sciencebeam_trainer_grobid_tools'
MODELS = ['header', 'segmentation', 'fulltext', 'reference', 'reference_segmenter',
          'affiliation_address', 'figure', 'table']
MODULES = {}


def boot():
    import warnings
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    from . import core
    core.install()
    from . import storage
    storage.install()
    import apache_beam  # noqa
    import lxml.etree  # noqa
    import lxml.builder  # noqa
    import lxml.objectify  # noqa
    import tqdm
    tqdm.tqdm.monitor_interval = 0
    from tqdm import std as tqdm_std
    tqdm_std.tqdm.monitor_interval = 0
    storage.install_late()
    from . import procs, remote, beamrunner  # noqa
    procs.install()
    sys.path.insert(0, REPO)
    sys.modules.pop(PACKAGE, None)
    import importlib
    # bytecode of the code under test is never taken from (or left in) a cache
    prefix = sys.pycache_prefix
    for name in ('sciencebeam_utils.beam_utils.io', 'sciencebeam_utils.beam_utils.main',
                 'sciencebeam_utils.beam_utils.files', 'sciencebeam_utils.utils.csv',
                 'sciencebeam_utils.utils.xml', 'sciencebeam_utils.utils.file_list',
                 'sciencebeam_utils.utils.progress_logger',
                 'sciencebeam_utils.tools.check_file_list', 'regex', 'multiprocessing.dummy',
                 'multiprocessing.pool', 'apache_beam.io.localfilesystem',
                 'apache_beam.io.filesystems', 'encodings.idna', 'getpass', 'html.parser'):
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    sys.pycache_prefix = '/nonexistent-sim-pycache'
    try:
        for m in MODELS:
            MODULES[m] = importlib.import_module('%s.auto_annotate_%s' % (PACKAGE, m))
        MODULES['fix_jats'] = importlib.import_module(PACKAGE + '.fix_jats_xml')
        MODULES['download'] = importlib.import_module(PACKAGE + '.download_source_files')
    finally:
        sys.pycache_prefix = prefix
    package_dir = os.path.dirname(os.path.abspath(sys.modules[PACKAGE].__file__))
    assert package_dir == os.path.join(REPO, PACKAGE), package_dir
    core.install_line_preemption(package_dir)
    # beam looks these up lazily; do it once outside the simulation
    from apache_beam.io.filesystems import FileSystems
    FileSystems.exists('/nonexistent')
    os.environ.setdefault('USER', 'sim')
    from apache_beam.options.pipeline_options import PipelineOptions
    PipelineOptions.from_dictionary({})
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()


def call_main(tool, argv):
    import inspect
    main = MODULES[tool].main
    try:
        params = inspect.signature(main).parameters
    except (TypeError, ValueError):
        params = {}
    if 'save_main_session' in params:
        return main(argv, save_main_session=False)
    return main(argv)
