"""Deterministic scheduler of client threads.

Exactly one thread runs at any time.  Clients give up control when they start an operation, when they ask for a file
lock, when they wait (SQLite's busy handler, time.sleep), between the functions of a batch and between the elements of a
traversal; the scheduler then chooses, from the seed or from a recorded list of choices, who continues, how much simulated time
passes, and whether a client is stalled.
"""
import threading

from sim import vfs
from sim.core import Violation

WORLD = vfs.WORLD


class Client(object):
    def __init__(self, idx, body):
        self.idx = idx
        self.body = body
        self.sem = threading.Semaphore(0)
        self.wake = None
        self.done = False
        self.error = None
        self.thread = None


class Scheduler(object):
    def __init__(self, ctx, rng, choices=None, stall=0.0, dt=0.002, cap=6000, sticky=0.5, crash_step=None, on_crash=None):
        self.ctx = ctx
        self.rng = rng
        self.choices = list(choices) if choices is not None else None
        self.record = []
        self.stall = stall
        self.dt = dt
        self.cap = cap
        self.sticky = sticky
        self.crash_step = crash_step
        self.on_crash = on_crash
        self.killed = False
        self.clients = []
        self.by_thread = {}
        self.main = threading.Semaphore(0)
        self.clock = 0            # logical time of history events
        self.steps = 0
        self.preemptions = 0
        self.stalled = 0
        self.fault_at = {}

    # -- called by client threads -----------------------------------------------------------------
    def me(self):
        return self.by_thread.get(threading.get_ident())

    def pause(self, wake=None):
        c = self.me()
        if c is None:
            return False
        if self.killed:
            return True
        c.wake = wake
        self.main.release()
        c.sem.acquire()
        return True

    def at_lock(self, handle, level):
        self.pause()

    def sleep(self, seconds):
        c = self.me()
        if c is None:
            return False
        if self.killed:
            return True
        return self.pause(WORLD.now + seconds)

    def tick(self):
        self.clock += 1
        return self.clock

    # -- main thread ------------------------------------------------------------------------------------
    def run(self, bodies):
        old = WORLD.sched
        for i, b in enumerate(bodies):
            self.clients.append(Client(i, b))
        WORLD.sched = self
        try:
            for c in self.clients:
                c.thread = threading.Thread(target=self.thread_main, args=(c,), daemon=True)
                c.thread.start()
                self.main.acquire()
            self.loop()
        finally:
            WORLD.sched = old
        for c in self.clients:
            c.thread.join()
        for c in self.clients:
            if c.error is not None:
                raise c.error

    def thread_main(self, c):
        self.by_thread[threading.get_ident()] = c
        self.main.release()
        c.sem.acquire()
        try:
            c.body(c.idx)
        except BaseException as e:
            c.error = e
        finally:
            c.done = True
            self.main.release()

    def loop(self):
        last = None
        while True:
            alive = [c for c in self.clients if not c.done]
            if not alive:
                return
            if self.crash_step is not None and self.steps >= self.crash_step and not self.killed:
                self.killed = True
                self.on_crash()
                for c in alive:
                    c.wake = None
                # let every client run into the dead machine
                for c in alive:
                    c.sem.release()
                    self.main.acquire()
                    n = 0
                    while not c.done:
                        n += 1
                        if n > 10000:
                            raise Violation('hang', 'a client does not end after the machine died')
                        c.sem.release()
                        self.main.acquire()
                return
            ready = [c for c in alive if c.wake is None or c.wake <= WORLD.now]
            if not ready:
                WORLD.now = min(c.wake for c in alive)
                continue
            self.steps += 1
            if self.steps > self.cap:
                self.killed = True
                raise Violation('no-progress', 'clients %s have not finished after %d scheduling steps' % ([c.idx for c in alive], self.steps))
            c, dt, stall = self.choose(ready, last)
            WORLD.now += dt
            if stall:
                self.stalled += 1
                self.ctx.fault('stall')
                c.wake = WORLD.now + stall
                continue
            if last is not None and last is not c and not last.done:
                self.preemptions += 1
            last = c
            c.wake = None
            self.ctx.log('run', c.idx)
            c.sem.release()
            self.main.acquire()

    def choose(self, ready, last):
        if self.choices is not None:
            if self.choices:
                i, dt, stall = self.choices.pop(0)
                for c in ready:
                    if c.idx == i:
                        return c, dt, stall
            c = last if last in ready else ready[0]
            return c, 0.0005, 0
        r = self.rng
        if last in ready and r.random() < self.sticky:
            c = last
        else:
            c = r.choice(ready)
        dt = r.random() * self.dt
        stall = 0
        if self.stall and r.random() < self.stall:
            stall = r.choice((0.05, 0.5, 3.0, 7.0)) * (0.5 + r.random())
        self.record.append([c.idx, round(dt, 6), round(stall, 3)])
        if stall:
            stall = round(stall, 3)
        return c, round(dt, 6), stall
