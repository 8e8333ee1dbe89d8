"""A controllable clock. install() runs before the code under test is imported,
so it holds however that code gets at the clock. Disengaged, it is the real one.
"""
import contextlib
import time

_real = {n: getattr(time, n) for n in ("time", "monotonic", "perf_counter")}


class _State:
    on = False
    calls = 0
    offset = 0.0
    tick = 0.0
    jump_at = None
    jump = 0.0
    flow = False


S = _State()


def _wrap(name):
    real = _real[name]

    def clock():
        if not S.on:
            return real()
        S.calls += 1
        S.offset += S.tick
        if S.jump_at is not None and S.calls >= S.jump_at:
            S.offset += S.jump() if callable(S.jump) else S.jump
            S.jump_at = None
        return (real() if S.flow else S.base[name]) + S.offset
    return clock


def install():
    for n in _real:
        setattr(time, n, _wrap(n))


@contextlib.contextmanager
def virtual(tick=1e-3, jump_at=None, jump=0.0, flow=False):
    """Every reading of the clock advances it by tick seconds; the jump_at-th
    one also by jump seconds. With flow, real time passes as well."""
    S.base = {n: f() for n, f in _real.items()}
    S.calls, S.offset, S.tick, S.jump_at, S.jump = 0, 0.0, tick, jump_at, jump
    S.flow = flow
    S.on = True
    try:
        yield S
    finally:
        S.on = False
