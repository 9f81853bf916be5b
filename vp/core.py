"""What check modules use."""


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The check itself is at fault: never a verdict about the code."""


class Reject(Exception):
    """The case is outside the domain of the property (kept rare, and counted)."""


class Sub:
    def __init__(
        self, name, strategy, judge, quick, thorough=None, examples=(), warm=3, fork_safe_warm=True, schedules=False
    ):
        self.name = name
        self.strategy = strategy
        self.judge = judge
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.examples = list(examples)
        self.warm = warm
        self.fork_safe_warm = fork_safe_warm
        # The judge runs threads: what it sees may not show again on the next try.
        self.schedules = schedules


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def close(a, b, tol, what):
    import numpy as np

    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    check(a.shape == b.shape, "%s: shape %s instead of %s", what, a.shape, b.shape)
    ok = np.abs(a - b) <= tol
    if not ok.all():
        i = int(np.argmin(ok.ravel()))
        raise Violation(
            "%s: got %r, expected %r (tolerance %.3g)"
            % (what, a.ravel()[i].item(), b.ravel()[i].item(), float(np.broadcast_to(np.asarray(tol, dtype=float), a.shape).ravel()[i]))
        )
