"""SimRunner: interprets a Beam pipeline inside the simulation.

Real: pipeline construction, DoFns, pickling of DoFns (one copy per worker).  Stub: the runner;
it has the at-least-once semantics of a distributed runner: bundles are processed by several
workers in any order, may be executed twice, and a failing bundle is retried a few times.
"""
import threading

from apache_beam.internal import pickler
from apache_beam.runners.runner import PipelineResult, PipelineRunner, PipelineState
from apache_beam.transforms import core as beam_core

from . import core


class Unsupported(core.SimAbort):
    pass


class Config:
    workers = 2
    bundle = 2
    attempts = 4
    duplicates = ()   # indices of bundles executed twice
    salt = 0


class _Result(PipelineResult):
    def __init__(self):
        super().__init__(PipelineState.DONE)

    def wait_until_finish(self, duration=None):
        return self._state

    def cancel(self):
        return self._state


class SimRunner(PipelineRunner):
    def run_pipeline(self, pipeline, options):
        values = {}
        for part in pipeline._root_transform().parts:
            self._eval(part, values)
        return _Result()

    def _inputs(self, part, values):
        ins = list(part.main_inputs.values()) if part.main_inputs else []
        out = []
        for pv in ins:
            if pv in values:
                out.extend(values[pv])
        return out

    def _eval(self, part, values):
        t = part.transform
        outs = list(part.outputs.values())
        if isinstance(t, beam_core.Create):
            for o in outs:
                values[o] = list(t.values)
            return
        if isinstance(t, beam_core.Impulse):
            for o in outs:
                values[o] = [b'']
            return
        if isinstance(t, beam_core.ParDo):
            if t.args or t.kwargs or getattr(t, 'raw_side_inputs', None) and any(t.raw_side_inputs):
                raise Unsupported('ParDo with side inputs')
            result = self._pardo(t.fn, self._inputs(part, values))
            for o in outs:
                values[o] = result
            return
        if type(t).__name__ in ('Reshuffle',):
            data = self._inputs(part, values)
            for o in outs:
                values[o] = data
            return
        if part.parts:
            for sub in part.parts:
                self._eval(sub, values)
            return
        if type(t).__name__ == 'Flatten':
            data = self._inputs(part, values)
            for o in outs:
                values[o] = data
            return
        raise Unsupported('transform %r' % (type(t).__name__,))

    def _pardo(self, fn, elements):
        payload = pickler.dumps(fn)
        n = max(1, Config.bundle)
        bundles = [(i // n, elements[i:i + n]) for i in range(0, len(elements), n)]
        work = list(bundles) + [b for b in bundles if b[0] in Config.duplicates]
        lock = threading.Lock()
        results = {}
        errors = []

        def process(bundle):
            dofn = pickler.loads(payload)
            dofn.setup()
            out = []
            try:
                dofn.start_bundle()
                for e in bundle:
                    r = dofn.process(e)
                    if r is not None:
                        out.extend(r)
                dofn.finish_bundle()
            finally:
                dofn.teardown()
            return out

        def worker():
            while True:
                with lock:
                    if not work or errors:
                        return
                    index, bundle = work.pop(0)
                for attempt in range(Config.attempts):
                    try:
                        out = process(bundle)
                    except Exception as e:  # pylint: disable=broad-except
                        if attempt + 1 == Config.attempts:
                            with lock:
                                errors.append(e)
                        continue
                    with lock:
                        results.setdefault(index, out)
                    break

        threads = [threading.Thread(target=worker) for _ in range(max(1, Config.workers))]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors:
            raise RuntimeError('pipeline failed: %s' % (errors[0],)) from errors[0]
        return [e for i in sorted(results) for e in results[i]]
