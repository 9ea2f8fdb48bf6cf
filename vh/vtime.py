"""An event loop on which time passes only when nothing else can happen: hours of waiting take no time at all."""
import asyncio
import contextlib
import selectors

_loop = None


class _Selector(selectors.DefaultSelector):
    now = 0.0

    def select(self, timeout=None):
        r = super().select(0)
        if r:
            return r
        if timeout is None:
            raise RuntimeError("every task waits for something that will not happen")
        self.now += max(timeout, 0)
        return r


class Loop(asyncio.SelectorEventLoop):
    def __init__(self):
        self.vsel = _Selector()
        super().__init__(self.vsel)
        self._clock_resolution = 0.001       # wider than the rounding of large times

    def time(self):
        return self.vsel.now


@contextlib.contextmanager
def patient():
    """A virtual-time loop is this thread's current loop inside."""
    global _loop
    own = asyncio.get_event_loop()
    if _loop is None or _loop.is_closed():
        _loop = Loop()
    if not _loop._scheduled:
        _loop.vsel.now = 0.0
    asyncio.set_event_loop(_loop)
    try:
        yield _loop
    finally:
        asyncio.set_event_loop(own)
