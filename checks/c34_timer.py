"""C34: the timer measures the scaled elapsed time of its last run and hides nothing."""
import contextlib
import io
import time
import types

BOUNDS = ("any clock readings (nondecreasing reals), any positive scale; one or two runs of one or two timers in every nesting, with start/stop or as context, "
          "bodies that end or raise")
ASSUMPTIONS = ["the clock is a function of the time module bound in qmat.utils; its readings are arbitrary"]


def cases(tier):
    return [dict(name='timer', fn='timer'), dict(name='context', fn='context'), dict(name='nested', fn='nested')]


class Clock:
    """Replaces the clock of qmat.utils by given readings."""

    def __init__(self, q, H, n):
        t = H.reals('t', n)
        for i in range(1, n):
            H.assume(t[i] >= t[i - 1])
        self.t, self.n, self.mod = t, 0, q.utils

    def read(self):
        self.n += 1
        return self.t[self.n - 1]

    def __enter__(self):
        names = ('time', 'perf_counter', 'monotonic')
        stub = types.SimpleNamespace(**{n: self.read for n in names})
        fns = [getattr(time, n) for n in names]
        self.old = {}
        for k, v in list(vars(self.mod).items()):
            if v is time:
                self.old[k] = v
                setattr(self.mod, k, stub)
            elif any(v is f for f in fns):
                self.old[k] = v
                setattr(self.mod, k, self.read)
        self.out = io.StringIO()
        self.red = contextlib.redirect_stdout(self.out)
        self.red.__enter__()
        return self

    def __exit__(self, *a):
        self.red.__exit__(*a)
        for k, v in self.old.items():
            setattr(self.mod, k, v)


def timer(q, H):
    """start and stop, twice."""
    s = H.real('scale', lo=0, open_=True)
    c = q.utils.Timer('stuff', s, 'took') if H.choice('calling', (0, 1)) else q.utils.Timer(name='stuff', scale=s, descr='took')
    d = q.utils.Timer('other')
    with Clock(q, H, 6) as clock:
        t = clock.t
        c.start()
        c.stop()
        H.eq('first', c.tWall, (t[1] - t[0]) / s)
        c.start()
        d.start()
        c.stop()
        H.eq('second', c.tWall, (t[4] - t[2]) / s)
        d.stop()
        H.eq('default scale', d.tWall, t[5] - t[3])
        H.eq('kept', c.tWall, (t[4] - t[2]) / s)
    out = clock.out.getvalue().splitlines()
    H.same('lines', len(out), 6)
    H.same('names', [('stuff' in out[i], 'other' in out[i]) for i in (0, 2, 3)], [(True, False), (True, False), (False, True)])
    H.same('descriptions', ['took' in out[1], 'took' in out[4], 'tWall' in out[5]], [True, True, True])


def context(q, H):
    s = H.real('scale', lo=0, open_=True)
    fail = H.choice('body', (0, 1))
    c = q.utils.Timer('stuff', scale=s)
    with Clock(q, H, 2) as clock:
        t = clock.t
        raised = False
        try:
            with c:
                if fail:
                    raise KeyError('body')
        except KeyError:
            raised = True
        H.same('exceptions pass', raised, bool(fail))
        H.eq('elapsed', c.tWall, (t[1] - t[0]) / s)


def nested(q, H):
    a, b = q.utils.Timer('a', scale=2), q.utils.Timer('b')
    with Clock(q, H, 4) as clock:
        t = clock.t
        with a:
            with b:
                pass
        H.eq('inner', b.tWall, t[2] - t[1])
        H.eq('outer', a.tWall, (t[3] - t[0]) / 2)
