"""Deterministic scheduler of threads: one runs at a time, control moves to another one at chosen points (probe calls, lines of the library)."""
import os, sys, threading, time


class Sched:
    def __init__(self, rng, n, rate=1.0):
        self.rng = rng
        self.n = n
        self.rate = rate                    # probability of a switch at a switch point
        self.gates = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.steps = 0
        self.points = 0
        self.trace = []                     # sequence of threads that took over, for counting interleavings
        self.stolen = 0
        self.ids = {}

    def point(self):
        """A switch point in the current thread."""
        me = self.ids.get(threading.get_ident())
        if me is None: return
        self.points += 1
        if self.rng.random() >= self.rate: return
        others = sorted(self.alive)
        if not others: return
        k = self.rng.choice(others)
        if k == me: return
        self.hand(k)
        self.wait(me)

    def hand(self, k):
        self.steps += 1
        if len(self.trace) < 4000: self.trace.append(k)
        self.gates[k].release()

    def wait(self, me):
        while not self.gates[me].acquire(timeout=1.5):
            seen = (self.steps, self.points)
            if self.gates[me].acquire(timeout=1.5): return
            if (self.steps, self.points) == seen:
                self.stolen += 1            # the running thread is blocked (on a lock held by this one?): go on
                return

    def run(self, tasks):
        """Run functions in threads of their own; list of results."""
        results = [None] * self.n
        def body(k):
            self.ids[threading.get_ident()] = k
            self.wait(k)
            try: results[k] = tasks[k]()
            except BaseException as ex: results[k] = ex
            finally:
                sys.settrace(None)
                self.alive.discard(k)
                if self.alive: self.hand(self.rng.choice(sorted(self.alive)))
        threads = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(self.n)]
        for t in threads: t.start()
        self.hand(self.rng.randrange(self.n))
        end = time.time() + 120
        for t in threads: t.join(max(0, end - time.time()))
        self.hung = any(t.is_alive() for t in threads)
        return results


def traced(sched, fun, root):
    """Call fun() with a switch point at every line of the files under `root`."""
    def local(frame, event, arg):
        if event == 'line': sched.point()
        return local
    cache = {}
    def start(frame, event, arg):
        f = frame.f_code.co_filename
        ok = cache.get(f)
        if ok is None: ok = cache[f] = os.path.realpath(f).startswith(root)
        return local if ok else None
    sys.settrace(start)
    try: return fun()
    finally: sys.settrace(None)
