"""Programs under the harness' scheduler: their links, and the search through
schedules."""
import vf

WRAP = ("pthread_create pthread_join pthread_detach pthread_cancel pthread_setcancelstate pthread_testcancel "
        "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_cond_wait pthread_cond_timedwait "
        "pthread_cond_signal pthread_cond_broadcast read write recv send close pipe fdopen gettimeofday clock_gettime time "
        "select nanosleep clock_nanosleep usleep sleep getchar getc fgetc").split()


def link(*more):
    return ["-Wl," + ",".join("--wrap=" + w for w in list(WRAP) + list(more))]


def points(log):
    "choice points in a log: (alternatives, taken, could go on)"
    out = []
    for x in log:
        if x.startswith("? "):
            a = x.split()
            out.append((int(a[1]), int(a[2]), int(a[3])))
    return out


class Search:
    """Runs with at most `bound' preemptions, each schedule once, breadth
    first by their number: give() hands out schedules, took() learns what
    choices there were."""
    def __init__(self, bound, limit, r):
        self.bound, self.limit, self.r = bound, limit, r
        self.todo, self.given, self.cut = {0: [[]]}, 0, False

    def give(self, n):
        out = []
        for b in sorted(self.todo):
            q = self.todo[b]
            while q and len(out) < n and self.given < self.limit:
                i = self.r.randrange(len(q))
                q[i], q[-1] = q[-1], q[i]
                out.append((b, q.pop()))
                self.given += 1
            if out:
                break
        if self.given >= self.limit and any(self.todo.values()):
            self.cut = True
        return out

    def took(self, b, prefix, pts):
        for i in range(len(prefix), len(pts)):
            n, c, what = pts[i]
            cost = b + (what == 1)
            if cost > self.bound:
                continue
            base = prefix + [0] * (i - len(prefix))
            for alt in range(1, n):
                self.todo.setdefault(cost, []).append(base + [alt])
