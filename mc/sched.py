# -*- coding: utf-8 -*-
"""
Controlled scheduler: runs Python threads one at a time, switching only where a
schedule says so.  Switch points are the bytecode instructions of the code under
test which can touch shared state (everything except stack and local-variable
instructions: switching between two local instructions is equivalent to
switching before the next non-local one).  Locks are replaced by cooperative
ones, so a deadlock is a state where every unfinished thread waits for a lock.

install() must be called before the code under test is imported.
"""
import _thread
import dis
import os
import sys
import threading
import time

import core

real_lock = _thread.allocate_lock
real_rlock = _thread.RLock

LOCAL = set('''LOAD_FAST STORE_FAST DELETE_FAST LOAD_CONST POP_TOP DUP_TOP DUP_TOP_TWO ROT_TWO ROT_THREE ROT_FOUR NOP
    JUMP_FORWARD JUMP_ABSOLUTE BUILD_TUPLE BUILD_LIST BUILD_SET BUILD_MAP BUILD_STRING BUILD_SLICE BUILD_CONST_KEY_MAP
    EXTENDED_ARG SETUP_LOOP POP_BLOCK SETUP_FINALLY SETUP_EXCEPT END_FINALLY POP_FINALLY BEGIN_FINALLY CALL_FINALLY
    POP_EXCEPT RERAISE RETURN_VALUE LOAD_CLOSURE MAKE_FUNCTION LIST_APPEND SET_ADD MAP_ADD IS_OP FORMAT_VALUE
    LOAD_REVDB_VAR UNARY_NOT LIST_TO_TUPLE JUMP_IF_NOT_EXC_MATCH BUILD_LIST_FROM_ARG CONTINUE_LOOP BREAK_LOOP
    RESUME PUSH_NULL COPY SWAP CACHE PRECALL KW_NAMES LOAD_FAST_AND_CLEAR LOAD_FAST_CHECK RETURN_CONST JUMP_BACKWARD
    JUMP_BACKWARD_NO_INTERRUPT POP_JUMP_IF_NONE POP_JUMP_IF_NOT_NONE PUSH_EXC_INFO CHECK_EXC_MATCH RETURN_GENERATOR
    COPY_FREE_VARS MAKE_CELL LOAD_ASSERTION_ERROR LOAD_BUILD_CLASS END_FOR INTERPRETER_EXIT LOAD_FAST_LOAD_FAST
    CALL_INTRINSIC_1 YIELD_VALUE GET_YIELD_FROM_ITER POP_JUMP_IF_NOT_EXC_MATCH'''.split())
BOOLS = set('COMPARE_OP IS_OP CONTAINS_OP UNARY_NOT'.split())
WRITES = set('''STORE_ATTR STORE_GLOBAL STORE_SUBSCR DELETE_ATTR DELETE_GLOBAL DELETE_SUBSCR STORE_NAME STORE_DEREF
    INPLACE_ADD INPLACE_OR INPLACE_AND INPLACE_SUBTRACT INPLACE_XOR'''.split())
MUTATORS = set('''add update append setdefault pop clear extend remove popitem discard insert appendleft popleft
    __setattr__ __setitem__ setattr move_to_end sort reverse acquire release __enter__'''.split())

current = None          # the Run in progress


class Deadlock(BaseException):
    pass


class CoopLock(object):
    """ Lock / RLock whose acquire() yields to the scheduler instead of blocking """
    reentrant = False

    def __init__(self):
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            run = current
            if run is None or me not in run.by_ident:
                if timeout is not None and timeout >= 0:
                    return False
                raise Deadlock('lock held by a finished thread')
            if timeout is not None and timeout >= 0 and not run.others_can_run(me):
                return False
            run.blocked(me, self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None or (self.reentrant and self.owner != _thread.get_ident()):
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count <= 0:
            self.count = 0
            self.owner = None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == _thread.get_ident()

    def _release_save(self):
        r = (self.owner, self.count)
        self.owner, self.count = None, 0
        return r

    def _acquire_restore(self, r):
        self.acquire()
        self.owner, self.count = r


class CoopRLock(CoopLock):
    reentrant = True


def install():
    assert 'pymorphy2' not in sys.modules
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    threading._allocate_lock = CoopLock
    threading._RLock = CoopRLock
    threading._CRLock = CoopRLock
    _thread.allocate_lock = CoopLock
    _thread.allocate = CoopLock
    _thread.RLock = CoopRLock


_ops = {}
_keep = []
_rebound = {}


def rebound(code):
    """ names of module globals which some function of the module rebinds """
    mod = None
    for m in list(sys.modules.values()):
        if getattr(m, '__file__', None) == code.co_filename:
            mod = m
    if mod is None:
        return None
    key = code.co_filename
    if key not in _rebound:
        names = set()
        with open(code.co_filename, 'rb') as f:
            todo = [compile(f.read(), code.co_filename, 'exec')]
        first = True
        while todo:
            c = todo.pop()
            for ins in dis.get_instructions(c):
                if ins.opname in ('STORE_GLOBAL', 'DELETE_GLOBAL'):
                    names.add(ins.argval)
            todo.extend(k for k in c.co_consts if hasattr(k, 'co_code'))
            first = False
        _rebound[key] = names
    return _rebound[key]


def interesting(code, coarse):
    """ offsets of the switch points of a code object """
    key = (id(code), coarse)
    r = _ops.get(key)
    if r is not None:
        return r
    r = set()
    after = False
    prev = None
    names = rebound(code)
    for ins in dis.get_instructions(code):
        op = ins.opname
        shared = op not in LOCAL
        if op == 'LOAD_GLOBAL' and names is not None and ins.argval not in names:
            shared = False
        if op.startswith(('POP_JUMP', 'JUMP_IF')) and prev in BOOLS:
            shared = False
        if coarse:
            write = op in WRITES or op in ('SETUP_WITH', 'BEFORE_WITH') or \
                (op.startswith('LOAD') and ins.argval in MUTATORS) or (op == 'BINARY_OP' and '=' in ins.argrepr)
            if write:
                r.add(ins.offset)
                after = True
            elif after and shared:
                # the state right after the write (the call, for a method)
                r.add(ins.offset)
                after = op in ('CALL_METHOD', 'CALL', 'CALL_FUNCTION')
        elif shared:
            r.add(ins.offset)
        if op not in ('CACHE', 'EXTENDED_ARG', 'NOP'):
            prev = op
    _ops[key] = r
    _keep.append(code)
    return r


PKG = os.path.join(core.REPO, 'pymorphy2') + os.sep


class Run(object):
    """
    One execution of `bodies` (functions) as threads.
    schedule: (order, [(step k, thread to switch to), ...]): at the k-th switch
    point (counted over the whole run) control goes to that thread; when a thread
    finishes or blocks, the first runnable one in `order` continues.
    """

    def __init__(self, bodies, order=None, switches=(), coarse=False, watch=True, repeat=None, limit=60):
        self.bodies = bodies
        self.n = len(bodies)
        self.order = list(order or range(self.n))      # who goes first, and next when a thread cannot go on
        self.switches = dict(switches)
        self.coarse = coarse
        self.last = max(self.switches) if self.switches else -1
        self.repeat = repeat        # an instruction is a switch point only that many times per thread
        self.seen = {}
        self.watch = watch          # record the trace
        self.quiet = False
        self.step = 0
        self.steps_of = [0] * self.n
        self.trace = []                     # thread at each step
        self.results = [None] * self.n
        self.errors = [None] * self.n
        self.done = [False] * self.n
        self.waiting = [None] * self.n
        self.sems = [real_lock() for _ in bodies]
        for s in self.sems:
            s.acquire()
        self.over = real_lock()
        self.over.acquire()
        self.finished = real_lock()
        self.finished.acquire()
        self.by_ident = {}
        self.first = self.order[0]
        self.deadlock = None
        self.free = False
        self.limit = limit
        self.importing = [0] * self.n

    # --- running

    def go(self):
        global current
        current = self
        started = []
        for i in range(self.n):
            _thread.start_new_thread(self._main, (i,))
        # wait until all threads have registered
        t = time.time()
        while len(self.by_ident) < self.n:
            time.sleep(0.0002)
            if time.time() - t > 30:
                raise AssertionError('threads do not start')
        self.sems[self.first].release()
        ok = self.finished.acquire(True, self.limit)
        if not ok:
            # a thread is stuck outside the control of the scheduler
            self.free = True
            for s in self.sems:
                try:
                    s.release()
                except RuntimeError:
                    pass
            if not self.finished.acquire(True, 20):
                self.deadlock = 'threads do not finish (held: %r)' % (self.done,)
        current = None
        self.over.release()
        return self

    def _main(self, i):
        me = _thread.get_ident()
        # Tracing is switched on before any thread starts and off after all have
        # finished: CPython rewrites bytecode when it is switched.
        sys.settrace(self._tracer(i))
        self.by_ident[me] = i
        self.sems[i].acquire()
        if self.deadlock is None:
            try:
                self.results[i] = self.bodies[i]()
            except Deadlock as e:
                self.deadlock = self.deadlock or str(e)
            except BaseException:
                import traceback
                self.errors[i] = traceback.format_exc()
        self.done[i] = True
        self._next(i)
        if not self.free:
            self.over.acquire()
            self.over.release()
        sys.settrace(None)

    def _next(self, i):
        """ thread i cannot go on (finished): pick the next """
        if self.deadlock is not None:
            for k in range(self.n):
                if not self.done[k]:
                    self.waiting[k] = None
                    self._wake(k)
                    return
        for j in self.order:
            if not self.done[j] and not self._stuck(j):
                self._wake(j)
                return
        if not all(self.done):
            self.deadlock = 'deadlock: every remaining thread waits for a lock'
            for k in range(self.n):
                if not self.done[k]:
                    self._wake(k)
                    return
        try:
            self.finished.release()
        except RuntimeError:
            pass

    def _stuck(self, j):
        lock = self.waiting[j]
        return lock is not None and lock.owner is not None

    def _wake(self, j):
        try:
            self.sems[j].release()
        except RuntimeError:
            pass

    def _switch(self, i, j):
        if self.free or i == j:
            return
        self._wake(j)
        self.sems[i].acquire()
        if self.deadlock is not None and not self.free:
            raise Deadlock(self.deadlock)

    def others_can_run(self, me):
        i = self.by_ident[me]
        return any(not self.done[j] and not self._stuck(j) for j in range(self.n) if j != i)

    def blocked(self, me, lock):
        i = self.by_ident[me]
        if self.deadlock is not None:
            raise Deadlock(self.deadlock)
        if self.free:
            time.sleep(0.001)
            return
        self.waiting[i] = lock
        for j in self.order:
            if j != i and not self.done[j] and not self._stuck(j):
                self._switch(i, j)
                self.waiting[i] = None
                return
        self.deadlock = 'deadlock: every unfinished thread waits for a lock'
        raise Deadlock(self.deadlock)

    def point(self, i, frame=None):
        if self.repeat is not None:
            key = (i, id(frame.f_code), frame.f_lasti)
            c = self.seen[key] = self.seen.get(key, 0) + 1
            if c > self.repeat:
                return
        k = self.step
        self.step += 1
        self.steps_of[i] += 1
        if self.watch:
            self.trace.append(i)
        elif k >= self.last:
            self.quiet = True           # nothing left to decide: run at full speed
        j = self.switches.get(k)
        if j is not None and not self.done[j] and not self._stuck(j):
            self._switch(i, j)

    def _tracer(self, i):
        coarse = self.coarse

        def local(frame, event, arg):
            if self.quiet:
                return local
            if event == 'opcode':
                if frame.f_lasti in offsets(frame) and not self.importing[i] and not self.free:
                    self.point(i, frame)
            return local

        def offsets(frame):
            return interesting(frame.f_code, coarse)

        def module(frame, event, arg):
            if event == 'return':
                self.importing[i] -= 1
            return module

        def glob(frame, event, arg):
            code = frame.f_code
            if self.quiet or not code.co_filename.startswith(PKG):
                return None
            if code.co_name == '<module>':
                self.importing[i] += 1
                return module
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
            return local
        return glob


def warm_up():
    """ CPython 3.12 delivers opcode events only after the first request for them """
    def f():
        return 1

    def tr(frame, event, arg):
        frame.f_trace_opcodes = True
        return tr
    for _ in range(2):
        sys.settrace(tr)
        f()
        sys.settrace(None)


def prepare():
    """ compute the switch points of all code of the package (before forking) """
    import gc
    todo = [f.__code__ for f in gc.get_objects() if hasattr(f, '__code__') and hasattr(f, '__globals__')]
    seen = set()
    while todo:
        c = todo.pop()
        if id(c) in seen or not c.co_filename.startswith(PKG):
            continue
        seen.add(id(c))
        for coarse in (False, True):
            interesting(c, coarse)
        todo.extend(k for k in c.co_consts if hasattr(k, 'co_code'))
