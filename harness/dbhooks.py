"""Faults, kills and schedules inside SQLite, without touching the implementation.

sqlite3.connect is wrapped so that every connection of this process reports its statements:
Python-level calls (Cursor.execute/executemany/executescript/close) to `HOOK.call`, and each
statement that SQLite runs (one per row) to `HOOK.trace`.
"""
import sqlite3
import threading

_connect = sqlite3.connect


class Hook:
    """does nothing; subclasses override"""

    def call(self, con, kind):
        pass

    def trace(self, con, sql):
        pass

    def opened(self, con):
        pass


class State(threading.local):
    hook = Hook()


STATE = State()


class Cursor(sqlite3.Cursor):
    def execute(self, *a, **k):
        STATE.hook.call(self.connection, 'execute')
        return super().execute(*a, **k)

    def executemany(self, *a, **k):
        STATE.hook.call(self.connection, 'executemany')
        return super().executemany(*a, **k)

    def executescript(self, *a, **k):
        STATE.hook.call(self.connection, 'executescript')
        return super().executescript(*a, **k)

    def close(self):
        STATE.hook.call(self.connection, 'close')
        return super().close()


class Connection(sqlite3.Connection):
    def cursor(self, factory=Cursor):
        return super().cursor(factory)


def connect(*args, **kw):
    kw['timeout'] = 0.02
    kw.setdefault('factory', Connection)
    con = _connect(*args, **kw)
    hook = STATE.hook
    if type(hook) is not Hook:
        hook.opened(con)
        con.set_trace_callback(lambda sql: hook.trace(con, sql))
    return con


def install():
    sqlite3.connect = connect
    sqlite3.dbapi2.connect = connect


class use:
    def __init__(self, hook):
        self.hook = hook

    def __enter__(self):
        self.old = STATE.hook
        STATE.hook = self.hook
        return self.hook

    def __exit__(self, *_):
        STATE.hook = self.old


class RaiseAt(Hook):
    """the n-th call fails"""

    def __init__(self, n, exc):
        self.n, self.exc, self.seen, self.fired = n, exc, 0, False

    def call(self, con, kind):
        if kind == 'close':
            return
        self.seen += 1
        if self.seen == self.n:
            self.fired = True
            raise self.exc


class InterruptAt(Hook):
    """SQLite interrupts the statement that reaches the n-th progress point"""

    def __init__(self, n, step=20):
        self.n, self.step, self.seen, self.fired = n, step, 0, False

    def opened(self, con):
        def progress():
            self.seen += 1
            if self.seen == self.n:
                self.fired = True
                return 1
            return 0
        con.set_progress_handler(progress, self.step)


class TraceAt(Hook):
    """an action when SQLite is about to run its n-th statement"""

    def __init__(self, n, action):
        self.n, self.action, self.seen, self.fired = n, action, 0, False

    def opened(self, con):
        # write pages to the file before the commit, as a big transaction would
        con.execute('PRAGMA cache_size=4')

    def trace(self, con, sql):
        self.seen += 1
        if self.seen == self.n and not self.fired:
            self.fired = True
            self.action()


class Scheduler:
    """lets one thread run at a time; a baton passes at statements, as the phases say"""

    def __init__(self, phases):
        self.phases = [list(p) for p in phases]
        self.cond = threading.Condition()
        self.done = set()
        self.clock = 0

    def settle(self):
        while self.phases and (self.phases[0][1] <= 0 or self.phases[0][0] in self.done):
            self.phases.pop(0)

    def wait(self, tid):
        """until it is the turn of the thread"""
        with self.cond:
            self.settle()
            self.cond.notify_all()
            while self.phases and self.phases[0][0] != tid:
                if not self.cond.wait(20):
                    raise RuntimeError('schedule is stuck')
                self.settle()

    def arrive(self, tid):
        """the thread is about to run its next statement"""
        with self.cond:
            if self.phases and self.phases[0][0] == tid:
                self.phases[0][1] -= 1
        self.wait(tid)
        with self.cond:
            self.clock += 1

    def finish(self, tid):
        with self.cond:
            self.done.add(tid)
            self.settle()
            self.cond.notify_all()

    def tick(self):
        with self.cond:
            self.clock += 1
            return self.clock


class Scheduled(Hook):
    def __init__(self, sched, tid):
        self.sched, self.tid = sched, tid

    def trace(self, con, sql):
        self.sched.arrive(self.tid)


class Count(Hook):
    def __init__(self):
        self.calls = self.traces = 0

    def opened(self, con):
        pass

    def call(self, con, kind):
        if kind != 'close':
            self.calls += 1

    def trace(self, con, sql):
        self.traces += 1


def dump(path, skip=()):
    """every row of every table as text, with a number for identical ones"""
    con = _connect(path, timeout=5)
    try:
        con.text_factory = bytes
        rows = set()
        tables = [r[0].decode() for r in con.execute(
            "SELECT name FROM sqlite_master WHERE type='table' ORDER BY name")]
        for t in tables:
            if t.startswith('sqlite_'):
                continue
            names = [r[1].decode() for r in con.execute('PRAGMA table_info("%s")' % t)]
            keep = [i for i, n in enumerate(names) if (t, n) not in skip]
            seen = {}
            for row in con.execute('SELECT * FROM "%s"' % t):
                text = '%s:%r' % (t, [(names[i], row[i]) for i in keep])
                seen[text] = seen.get(text, 0) + 1
                rows.add('%s#%d' % (text, seen[text]))
        return rows
    finally:
        con.close()


def schema(path):
    """the structure of a database, without the text of its statements"""
    con = _connect(path, timeout=5)
    try:
        out = {}
        for (t,) in con.execute("SELECT name FROM sqlite_master WHERE type='table' ORDER BY name"):
            if t.startswith('sqlite_'):
                continue
            idx = []
            for r in con.execute('PRAGMA index_list("%s")' % t):
                cols = [c[2] for c in con.execute('PRAGMA index_info("%s")' % r[1])]
                idx.append([r[1] if r[3] == 'c' else '', r[2], r[3], cols])
            sql = con.execute('SELECT sql FROM sqlite_master WHERE name=?', (t,)).fetchone()[0]
            out[t] = {
                'columns': [[r[1].lower(), r[2].upper(), r[3], r[5]]
                            for r in con.execute('PRAGMA table_info("%s")' % t)],
                'foreign': sorted([r[2].lower(), r[3].lower(), (r[4] or '').lower(), r[5], r[6]]
                                  for r in con.execute('PRAGMA foreign_key_list("%s")' % t)),
                'indices': sorted(idx, key=repr),
                'autoincrement': int('AUTOINCREMENT' in sql.upper()),
            }
        return out
    finally:
        con.close()
