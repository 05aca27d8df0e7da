"""
Observes and steers a run of orthority from outside: wraps the rasterio dataset methods, cv2.remap and the thread
pool, records the log that PipelineLog.tla describes, makes chosen steps fail and enforces the order of jobs.
"""
import threading
import time
from concurrent.futures import ThreadPoolExecutor
from contextlib import contextmanager

import cv2
import rasterio
from rasterio.errors import RasterioIOError, WindowError
from rasterio.io import BufferedDatasetWriter, DatasetReader, DatasetWriter
from rasterio.vrt import WarpedVRT

EXC = dict(
    rasterio=lambda: RasterioIOError('injected'),
    os=lambda: OSError(28, 'injected: no space left on device'),
    memory=lambda: MemoryError('injected'),
    runtime=lambda: RuntimeError('injected'),
    cv=lambda: cv2.error('injected'),
    value=lambda: ValueError('injected'),
    key=lambda: KeyError('injected'),
    window=lambda: WindowError('injected'),
    timeout=lambda: TimeoutError('injected'),
    notfound=lambda: FileNotFoundError('injected'),
    index=lambda: IndexError('injected'),
    zero=lambda: ZeroDivisionError('injected'),
    stop=lambda: StopIteration('injected'),
    crs=lambda: rasterio.errors.CRSError('injected'),
)


class Recorder:
    def __init__(self, order=None, workers=None, faults=(), delay=0.0, linger=0.0):
        self.log = []
        self.lock = threading.RLock()
        self.cond = threading.Condition(self.lock)
        self.labels = {}
        self.keep = []
        self.workers = workers
        self.delay = delay
        self.linger = linger
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.local = threading.local()
        self.threads = {}
        self.jobs = 0
        self.order = [tuple(o) for o in order] if order else None
        self.done = set()
        self.followed = True
        self.shape = dict(count=0, width=0, height=0)
        self.active = True
        self.fault_error = None

    # ------------------------------------------------------------------ log
    def thread(self):
        i = threading.get_ident()
        with self.lock:
            return self.threads.setdefault(i, f't{len(self.threads)}')

    def add(self, **e):
        with self.lock:
            if self.active:
                self.log.append(e)

    def label(self, ds):
        if isinstance(ds, WarpedVRT):
            src = ds.src_dataset
            if src is not None:
                ds = src
        with self.lock:
            if id(ds) not in self.labels:
                writer = isinstance(ds, (DatasetWriter, BufferedDatasetWriter)) and ds.mode != 'r'
                if writer:
                    name = 'out' if not any(v == 'out' for v in self.labels.values()) else f'out{len(self.labels)}'
                    self.shape = dict(count=ds.count, width=ds.width, height=ds.height)
                else:
                    base = str(ds.name).split('/')[-1].split('.')[0]
                    name = base if base not in self.labels.values() else f'{base}#{len(self.labels)}'
                self.labels[id(ds)] = name
                self.keep.append(ds)
            return self.labels[id(ds)]

    # --------------------------------------------------------------- faults
    def fail(self, op, ds):
        with self.lock:
            base = ds.split('#')[0]
            for key in (f'{op}', f'{op}:{base}'):
                n = self.counts[key] = self.counts.get(key, 0) + 1
                for f in self.faults:
                    if f['op'] == key and (f['n'] == n or f['n'] == 0):
                        self.add(ev='fault', th=self.thread(), op=key)
                        return EXC[f['exc']]()
        return None

    # ---------------------------------------------------------------- gates
    def pass_gate(self, ev, job):
        """Wait until all that comes before (ev, job) in the order has happened."""
        if self.order is None or (ev, job) not in self.order_index:
            return
        k = self.order_index[(ev, job)]
        before = self.order_list[:k]
        with self.cond:
            end = time.time() + 3
            while self.followed and not all(b in self.done for b in before):
                left = end - time.time()
                if left <= 0:
                    self.followed = False
                    self.cond.notify_all()
                    break
                self.cond.wait(left)
            self.done.add((ev, job))
            self.cond.notify_all()

    def mark(self, *items):
        with self.cond:
            self.done.update(items)
            self.cond.notify_all()

    def set_order(self):
        if self.order is None:
            return
        self.order_list = [(o[0], o[1]) for o in self.order]
        self.order_index = {o: k for k, o in enumerate(self.order_list)}


def _win(w, ds):
    if w is None:
        return [0, 0, ds.width, ds.height]
    if isinstance(w, tuple) and not hasattr(w, 'col_off'):
        (r0, r1), (c0, c1) = w
        return [int(c0), int(r0), int(c1 - c0), int(r1 - r0)]
    return [int(w.col_off), int(w.row_off), int(w.width), int(w.height)]


def _wrap(rec, cls, name, op):
    orig = getattr(cls, name)

    def method(self, *args, **kwargs):
        if not rec.active:
            return orig(self, *args, **kwargs)
        ds = rec.label(self)
        e = dict(th=rec.thread(), ds=ds, op=op)
        if op in ('write', 'mask'):
            e['win'] = _win(kwargs.get('window'), self)
            if op == 'mask':
                e['bands'] = [0]
            else:
                idx = args[1] if len(args) > 1 else kwargs.get('indexes')
                e['bands'] = (
                    list(range(1, self.count + 1)) if idx is None else [int(idx)] if isinstance(idx, int) else [int(i) for i in idx]
                )
        rec.add(ev='begin', **e)
        try:
            ex = rec.fail(op, ds)
            if rec.delay:
                time.sleep(rec.delay)
            if ex is not None:
                raise ex
            r = orig(self, *args, **kwargs)
        except BaseException:
            rec.add(ev='end', th=e['th'], ds=ds, op='failed')
            raise
        rec.add(ev='end', **e)
        return r

    return orig, method


@contextmanager
def installed(rec):
    """Install the wrappers for the duration of the context."""
    saved = []

    def patch(obj, name, new):
        own = name in vars(obj) if isinstance(obj, type) else True
        saved.append((obj, name, getattr(obj, name), own))
        setattr(obj, name, new)

    rec.set_order()
    for cls in (DatasetReader, DatasetWriter, BufferedDatasetWriter, WarpedVRT):
        for name, op in (
            ('read', 'read'), ('read_masks', 'read'), ('dataset_mask', 'read'), ('write', 'write'), ('write_mask', 'mask'),
            ('build_overviews', 'overviews'),
        ):  # fmt: skip
            if hasattr(cls, name):
                patch(cls, name, _wrap(rec, cls, name, op)[1])

    for cls in (DatasetReader, DatasetWriter, BufferedDatasetWriter):
        orig_close = getattr(cls, 'close')

        def close(self, orig_close=orig_close):
            if rec.active and not self.closed:
                ds = rec.label(self)
                r = orig_close(self)
                rec.add(ev='close', ds=ds)
                ex = rec.fail('close', ds)
                if ex is not None:
                    raise ex
                return r
            return orig_close(self)

        patch(cls, 'close', close)

    orig_remap = cv2.remap

    def remap(*args, **kwargs):
        if not rec.active:
            return orig_remap(*args, **kwargs)
        job = getattr(rec.local, 'job', None)
        ex = rec.fail('remap', 'src')
        if ex is not None:
            raise ex
        r = orig_remap(*args, **kwargs)
        if job is not None and not getattr(rec.local, 'computed', False):
            rec.local.computed = True
            rec.pass_gate('computed', job)
        return r

    patch(cv2, 'remap', remap)

    orig_submit = ThreadPoolExecutor.submit
    orig_init = ThreadPoolExecutor.__init__

    def init(self, max_workers=None, *args, **kwargs):
        return orig_init(self, rec.workers or max_workers, *args, **kwargs)

    def submit(self, fn, /, *args, **kwargs):
        with rec.lock:
            rec.jobs += 1
            k = rec.jobs

        def run(*a, **kw):
            rec.pass_gate('start', k)
            rec.local.job, rec.local.computed = k, False
            rec.add(ev='start', th=rec.thread(), job=k)
            try:
                if rec.linger:
                    time.sleep(rec.linger)
                ex = rec.fail('job', 'pool')
                if ex is not None:
                    raise ex
                return fn(*a, **kw)
            finally:
                rec.local.job = None
                rec.add(ev='stop', th=rec.thread(), job=k)
                rec.mark(('start', k), ('computed', k), ('stop', k))

        return orig_submit(self, run, *args, **kwargs)

    patch(ThreadPoolExecutor, '__init__', init)
    patch(ThreadPoolExecutor, 'submit', submit)
    try:
        yield rec
    finally:
        rec.active = False
        for obj, name, old, own in reversed(saved):
            if own:
                setattr(obj, name, old)
            else:
                delattr(obj, name)


def call(rec, func):
    """Run func under the recorder; the log ends some time after the call."""
    with installed(rec):
        try:
            func()
            rec.add(ev='return')
            out = dict(outcome='return')
        except Exception as ex:
            rec.add(ev='raise')
            out = dict(outcome='raise', error=f'{type(ex).__name__}: {ex}')
        # is anything still going on?
        n = len(rec.log)
        time.sleep(0.05)
        if len(rec.log) > n or sum(e['ev'] == 'start' for e in rec.log) != sum(e['ev'] == 'stop' for e in rec.log):
            time.sleep(0.7)
    out.update(log=rec.log, shape=rec.shape, followed=rec.followed, jobs=rec.jobs)
    return out
