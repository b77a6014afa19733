"""A virtual-time asyncio event loop.  Callbacks run in FIFO order as in asyncio; time only moves
when the harness says so; datagram endpoints are recorded instead of opened.  Used for both
the symbolic and the native runs, with asyncio's own Future/Task/gather/wait_for on top."""
import asyncio
import collections
from asyncio import events, futures, tasks


class FakeTransport:
    def __init__(self, loop, protocol, remote, local):
        self.loop, self.protocol, self.remote, self.local = loop, protocol, remote, local
        self.sent = []
        self.closed = False
        self.onsend = None

    def sendto(self, data, addr=None):
        self.sent.append((data[:], addr))
        if self.onsend is not None:
            self.onsend(self, data, addr)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.loop.call_soon(self.protocol.connection_lost, None)

    def abort(self):
        self.close()

    def is_closing(self):
        return self.closed

    def get_extra_info(self, name, default=None):
        return default

    # harness side
    def deliver(self, data, addr=("::1", 4123, 0, 0)):
        self.protocol.datagram_received(data, addr)


class VLoop(asyncio.AbstractEventLoop):
    def __init__(self):
        self._now = 0
        self._ready = collections.deque()
        self._io = []
        self._timers = []
        self._seq = 0
        self.errors = []
        self.endpoints = []
        self.on_endpoint = None
        self.opening = None
        self.steps = 0
        self.step_limit = 20000
        self.all_tasks = []
        self._closed = False

    # -- clock and scheduling
    def time(self):
        return self._now

    def get_debug(self):
        return False

    def is_running(self):
        return True

    def is_closed(self):
        return self._closed

    def call_soon(self, cb, *args, context=None):
        h = events.Handle(cb, args, self, context)
        self._ready.append(h)
        return h

    call_soon_threadsafe = call_soon

    def call_io(self, cb, *args):
        """as a datagram arriving at once: seen by the next poll, hence behind everything ready by then"""
        self._io.append(events.Handle(cb, args, self, None))

    def call_later(self, delay, cb, *args, context=None):
        return self.call_at(self._now + delay, cb, *args, context=context)

    def call_at(self, when, cb, *args, context=None):
        h = events.TimerHandle(when, cb, args, self, context)
        self._seq += 1
        self._timers.append((self._seq, h))
        return h

    def _timer_handle_cancelled(self, h):
        self._timers = [t for t in self._timers if t[1] is not h]

    def create_future(self):
        return asyncio.Future(loop=self)

    def create_task(self, coro, *, name=None, context=None):
        t = asyncio.Task(coro, loop=self, name=name or "t", context=context)
        t._log_destroy_pending = False
        self.all_tasks.append((t, coro))
        return t

    def call_exception_handler(self, ctx):
        self.errors.append(ctx.get("exception") or ctx.get("message"))

    def default_exception_handler(self, ctx):
        self.call_exception_handler(ctx)

    async def create_datagram_endpoint(self, factory, local_addr=None, remote_addr=None, **kw):
        if self.opening is not None:
            # the harness may let it take its time, or fail
            f = self.opening(remote_addr, local_addr)
            if f is not None:
                await f
        proto = factory()
        tr = FakeTransport(self, proto, remote_addr, local_addr)
        self.endpoints.append(tr)
        if self.on_endpoint is not None:
            self.on_endpoint(tr)
        proto.connection_made(tr)
        return tr, proto

    async def shutdown_asyncgens(self):
        pass

    def run_in_executor(self, executor, fn, *args):
        f = self.create_future()
        try:
            f.set_result(fn(*args))
        except Exception as e:
            f.set_exception(e)
        return f

    # -- harness side
    def settle(self):
        """Run every callback that is ready."""
        while self._ready or self._io:
            # one iteration of asyncio's loop: poll, then what is ready
            self._ready.extend(self._io)
            self._io.clear()
            for _ in range(len(self._ready)):
                h = self._ready.popleft()
                self.steps += 1
                if self.steps > self.step_limit:
                    raise RuntimeError("event loop does not settle")
                if not h._cancelled:
                    h._run()

    def pending_timers(self):
        return [h for _, h in self._timers if not h._cancelled]

    def next_timer(self):
        best = None
        for seq, h in self._timers:
            if h._cancelled:
                continue
            if best is None or h._when < best[1]._when:
                best = (seq, h)
        return best

    def fire_next(self):
        """Advance time to the next timer and run it; False if there is none."""
        t = self.next_timer()
        if t is None:
            return False
        self._timers.remove(t)
        if t[1]._when > self._now:
            self._now = t[1]._when
        t[1]._scheduled = False
        if not t[1]._cancelled:
            t[1]._run()
        self.settle()
        return True

    def advance(self, dt):
        """Let dt seconds pass, running every timer due in that time."""
        end = self._now + dt
        self.settle()
        while True:
            t = self.next_timer()
            if t is None or t[1]._when > end:
                break
            self.fire_next()
        self._now = end

    def finish(self, fut, limit=200):
        """Let time pass until fut is done."""
        self.settle()
        n = 0
        while not fut.done():
            n += 1
            if n > limit or not self.fire_next():
                return False
        return True

    def dispose(self):
        self._ready.clear()
        self._io.clear()
        self._timers = []
        for t, coro in self.all_tasks:
            try:
                t._log_destroy_pending = False
                if t.done() and not t.cancelled():
                    t.exception()
                coro.close()
            except BaseException:
                pass
        self.all_tasks = []
        self._closed = True


def activate(loop):
    events._set_running_loop(None)
    if loop is not None:
        events._set_running_loop(loop)
