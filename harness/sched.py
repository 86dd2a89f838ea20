"""A thread pool whose completion order is an input: every submitted task runs atomically, in the order given by a permutation."""

import contextlib
from concurrent.futures import Executor, Future
from unittest import mock


class Pool(Executor):
    def __init__(self, perm=None, max_workers=None, **k):
        self.perm, self.todo, self.done = perm, [], []

    def submit(self, fn, /, *a, **k):
        f = Future()
        self.todo.append((f, fn, a, k))
        return f

    def run(self):
        todo, self.todo = self.todo, []
        n = len(todo)
        order = [p for p in (self.perm or []) if p < n]
        order += [i for i in range(n) if i not in order]
        for i in order:
            f, fn, a, k = todo[i]
            try:
                f.set_result(fn(*a, **k))
            except Exception as e:  # as a pool does
                f.set_exception(e)
            self.done.append(f)

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        self.run()
        return iter([f.result() for f in fs])

    def shutdown(self, wait=True, **k):
        self.run()


@contextlib.contextmanager
def scheduled(perm, given=()):
    """Thread pools created inside run (and complete) their tasks in the order ``perm`` (and so do the ``given`` ones)."""
    import concurrent.futures as cf

    from corrct import param_tuning

    pools = list(given)

    def mk(*a, **k):
        pools.append(Pool(perm))
        return pools[-1]

    def completed(fs, timeout=None):
        fs = list(fs)
        for p in pools:
            p.run()
        done = [f for p in pools for f in p.done if f in fs]
        return iter(done + [f for f in fs if f not in done])

    with mock.patch.object(cf, "ThreadPoolExecutor", mk), mock.patch.object(cf, "as_completed", completed), \
            mock.patch.object(param_tuning, "ThreadPoolExecutor", mk), mock.patch.object(param_tuning, "as_completed", completed):
        yield pools


def order(c, n):
    p = c.permutation("schedule", n)
    return [int(c.concretize(p[i])) for i in range(n)]
