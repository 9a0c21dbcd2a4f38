"""Controlled scheduler for real threads: exactly one thread runs at a time, and the running thread may be
preempted at every traced event (source line, call or bytecode instruction of the library and of the callbacks).
The alternatives are decided by the explorer's Chooser, at most `budget` preemptions per execution."""
import _thread, os, sys


class Sem:
    """Binary semaphore, initially taken."""
    __slots__ = ('lock',)

    def __init__(self):
        self.lock = _thread.allocate_lock()
        self.lock.acquire()

    def acquire(self, timeout=-1):
        return self.lock.acquire(True, timeout)

    def release(self):
        try:
            self.lock.release()
        except RuntimeError:
            pass


class Scheduler:
    def __init__(self, ch, bodies, files, events='line'):
        self.ch = ch
        self.n = len(bodies)
        self.bodies = bodies
        self.files = files
        self.events = events
        self.sems = [Sem() for _ in bodies]
        self.done = [False] * self.n
        self.current = None
        self.free = False
        self.blocked = False      # set when the chosen schedule cannot be followed because of a lock
        self.results = [None] * self.n
        self.error = None
        self.progress = 0
        self.finished = [Sem() for _ in bodies]
        self.switches = []
        self.points = 0
        self._cache = {}

    def _traced(self, code):
        f = code.co_filename
        r = self._cache.get(f)
        if r is None:
            r = self._cache[f] = any(f == x or f.startswith(x) for x in self.files)
        return r

    def _mktrace(self, tid):
        ev = self.events

        ch, budget = self.ch, self.ch.budget

        def local(frame, event, arg):
            if ch.used >= budget and self.current == tid:
                # no preemption is left: the rest of the execution is determined
                sys.settrace(None)
                return None
            if event == ev:
                self.point(tid, frame)
            return local

        def tracer(frame, event, arg):
            if event != 'call' or not self._traced(frame.f_code):
                return None
            if ch.used >= budget and self.current == tid:
                sys.settrace(None)
                return None
            if ev == 'opcode':
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            if ev == 'call':
                self.point(tid, frame)
                return None
            return local
        return tracer

    def point(self, tid, frame):
        if self.free:
            return
        if self.current != tid:
            self._wait(tid)
            if self.free:
                return
        self.progress += 1
        self.points += 1
        others = [i for i in range(self.n) if i != tid and not self.done[i]]
        if not others:
            return
        try:
            c = self.ch.dev(1 + len(others), 'point')
        except BaseException as e:
            self._fail(e)
            return
        if c:
            self.switches.append(f'T{tid}->T{others[c - 1]} at {os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}')
            self._give(others[c - 1])
            self._wait(tid)

    def _give(self, tid):
        self.current = tid
        self.sems[tid].release()

    def _wait(self, tid):
        while True:
            seen = self.progress
            if self.sems[tid].acquire(timeout=1):
                if self.current == tid or self.free:
                    return
            elif self.free:
                return
            elif self.progress == seen and not self.done[tid]:
                # the running thread is blocked outside our control (a lock held here): let everything run
                self.blocked = True
                self.free = True
                for s in self.sems:
                    s.release()
                return

    def _fail(self, e):
        self.error = self.error or e
        self.free = True
        for s in self.sems:
            s.release()

    def _thread(self, tid):
        self._wait_start(tid)
        try:
            sys.settrace(self._mktrace(tid))
            try:
                self.results[tid] = self.bodies[tid]()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[tid] = e
            self._fail(e)
        self.done[tid] = True
        self.progress += 1
        if not self.free and self.current == tid:
            rest = [i for i in range(self.n) if not self.done[i]]
            if rest:
                try:
                    nxt = rest[self.ch.choose(len(rest), 'next')]
                except BaseException as e:
                    self._fail(e)
                    nxt = None
                if nxt is not None:
                    self._give(nxt)
        self.finished[tid].release()

    def _wait_start(self, tid):
        self.sems[tid].acquire()

    def run(self):
        for i in range(self.n):
            _thread.start_new_thread(self._thread, (i,))
        self._give(self.ch.choose(self.n, 'start'))
        for s in self.finished:
            s.acquire()
        if self.error is not None:
            raise self.error
        return self.results
