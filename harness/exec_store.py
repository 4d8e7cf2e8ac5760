"""Run database histories with the implementation.

content: {kind:"content", files, saves:[...], loads:[...]} -> observations (C15)
history: {kind:"history", files, savable, ops} -> events (C17, C18)
"""
import io
import json
import os
import shutil
import sys
import tempfile

import dbhooks
import obs

TEMPLATE = [None]


def quiet(f, *a, **k):
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        return f(*a, **k)
    finally:
        sys.stdout = old


def new_db(work):
    """an empty database, created by the migration tool once per process"""
    if TEMPLATE[0] is None:
        from pyulog.migrate_db import migrate_db
        TEMPLATE[0] = os.path.join(work, 'template.sqlite3')
        if os.path.exists(TEMPLATE[0]):
            os.unlink(TEMPLATE[0])
        quiet(migrate_db, TEMPLATE[0])
    d = tempfile.mkdtemp(dir=work)
    path = os.path.join(d, 'db.sqlite3')
    shutil.copy(TEMPLATE[0], path)
    return d, path


def handle(path):
    from pyulog.db import DatabaseULog
    return DatabaseULog.get_db_handle(path)


def dblog(u):
    o = obs.log(u)
    o['incompat'] = [int(x) for x in u._incompat_flags]
    o['offsets'] = [obs.u64(x) for x in u._appended_offsets]
    o['sha'] = u.sha256sum
    return o


def text_of(o):
    return json.dumps(o, sort_keys=True)


def write_file(d, n, data):
    p = os.path.join(d, 'f%d.ulg' % n)
    if not os.path.exists(p):
        with open(p, 'wb') as f:
            f.write(data)
    return p


def from_file(h, d, n, data, via='path', **kw):
    from pyulog.db import DatabaseULog
    if via == 'bytesio':
        return DatabaseULog(h, log_file=io.BytesIO(data), **kw)
    p = write_file(d, n, data)
    if via == 'path':
        return DatabaseULog(h, log_file=p, **kw)
    f = open(p, 'rb')
    if via == 'closed':
        f.close()
    return DatabaseULog(h, log_file=f, **kw)


# ---- C15 --------------------------------------------------------------------
def run_content(case, work):
    import hashlib
    from pyulog.db import DatabaseULog
    d, path = new_db(work)
    try:
        h = handle(path)
        saved, res = {}, []
        try:
            with obs.time_limit(60):
                for s in case['saves']:
                    data = bytes(case['files'][s['file'] - 1])
                    kw = {}
                    if not s['all']:
                        kw['message_name_filter_list'] = [bytes(n).decode() for n in s['names']]
                    o = from_file(h, d, s['file'], data, s['via'], **kw)
                    o.save(append_json=True) if s['json'] else o.save()
                    if s['drop']:
                        o.delete()
                    else:
                        saved[s['file']] = o.primary_key
        except Exception as e:
            f = obs.failed(e)
            f['detail'] = 'saving: ' + f['detail']
            return [f for _ in case['loads']]
        for ld in case['loads']:
            try:
                with obs.time_limit(30):
                    if ld['fresh']:
                        h = handle(path)
                    pk = saved[ld['file']]
                    if ld['bysum']:
                        sha = hashlib.sha256(bytes(case['files'][ld['file'] - 1])).hexdigest()
                        pk = DatabaseULog.primary_key_from_sha256sum(h, sha)
                    if ld['how'] == 'direct':
                        u = DatabaseULog(h, primary_key=pk, lazy=False)
                    else:
                        u = DatabaseULog(h, primary_key=pk)
                        u.load(lazy=False)
                    o = dblog(u)
                    o['sha_ok'] = int(o['sha'] == hashlib.sha256(
                        bytes(case['files'][ld['file'] - 1])).hexdigest())
                    res.append(o)
            except Exception as e:
                res.append(obs.failed(e))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- histories ----------------------------------------------------------------
REFS = {}


def reference(work, data):
    """what a full load of a file gives when it is alone in a database"""
    key = bytes(data)
    if key not in REFS:
        d, path = new_db(work)
        from pyulog.db import DatabaseULog
        try:
            o = from_file(handle(path), d, 0, key)
            o.save()
            REFS[key] = text_of(dblog(DatabaseULog(handle(path), primary_key=o.primary_key, lazy=False)))
        except Exception as e:
            REFS[key] = 'no reference: %r' % (e,)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return REFS[key]


class Fault(Exception):
    pass


class World:
    def __init__(self, case, work):
        from pyulog.db import DatabaseULog
        self.cls = DatabaseULog
        self.case, self.work = case, work
        self.d, self.path = new_db(work)
        self.files = [bytes(f) for f in case['files']]
        # files with equal bytes are one content; contents are numbered by their first file
        self.refs = {c: (reference(work, self.file_of(c)) if case['savable'][c - 1] else None)
                     for c in range(1, len(case['savable']) + 1)}
        self.objs, self.keys, self.h = {}, [], handle(self.path)
        self.rows, self.tokens = set(), {}
        self.known = set()
        self.last = None

    def file_of(self, c):
        return self.files[c - 1]

    def content_of(self, u):
        t = text_of(dblog(u))
        for c, r in self.refs.items():
            if r == t:
                return c
        return 0

    def sha(self, c):
        import hashlib
        return hashlib.sha256(self.file_of(c)).hexdigest()

    def observe(self, ev):
        """the database as a new session sees it"""
        rows = dbhooks.dump(self.path)
        tok = lambda s: [self.tokens.setdefault(x, len(self.tokens) + 1) for x in sorted(s)]
        ev['added'], ev['removed'] = tok(rows - self.rows), tok(self.rows - rows)
        if self.last is None or ev['added'] or ev['removed']:
            h = handle(self.path)
            find = [self.cls.primary_key_from_sha256sum(h, self.sha(c)) or 0
                    for c in range(1, len(self.case['savable']) + 1)]
            self.known |= {p for p in find if p}
            loads = []
            for p in sorted({p for p in find if p}):
                try:
                    loads.append([p, self.content_of(self.cls(h, primary_key=p, lazy=False))])
                except Exception:
                    loads.append([p, 0])
            exists = [p for p in sorted(self.known | {max(self.known, default=0) + 1})
                      if self.cls.exists_in_db(h, p)]
            self.last = {'find': find, 'loads': loads, 'exists': exists}
        self.rows = rows
        ev.update(self.last)
        return ev

    def key(self, p):
        """the p-th key handed out, or one that never was"""
        return self.keys[p - 1] if 0 < p <= len(self.keys) else 1000 + p

    def note_key(self, p):
        if p and p not in self.keys:
            self.keys.append(p)

    def faulty(self, fault, f):
        """run f with a fault; gives outcome and whether the fault can have had an effect"""
        if fault is None:
            return f()
        kind = fault['kind']
        if kind == 'raise':
            exc = {'op': self_error('disk I/O error'), 'int': KeyboardInterrupt(),
                   'mem': MemoryError()}[fault['exc']]
            with dbhooks.use(dbhooks.RaiseAt(fault['n'], exc)):
                return f()
        if kind == 'interrupt':
            with dbhooks.use(dbhooks.InterruptAt(fault['n'])):
                return f()
        other = dbhooks._connect(self.path, timeout=0.02, isolation_level=None)
        try:
            if kind == 'reader':        # the commit cannot get its lock
                other.execute('BEGIN')
                other.execute('SELECT COUNT(*) FROM ULog').fetchall()
            elif kind == 'writer':      # nor can the first write
                other.execute('BEGIN IMMEDIATE')
            elif kind == 'exclusive':   # nor any read
                other.execute('BEGIN EXCLUSIVE')
            return f()
        finally:
            other.close()

    def outcome(self, f, fault=None):
        try:
            with obs.time_limit(30):
                self.faulty(fault, f)
            return 'ok'
        except (Exception, KeyboardInterrupt) as e:
            return 'timeout' if isinstance(e, obs.Timeout) else type(e).__name__

    def killed(self, f, n):
        """run f in a child process that dies when SQLite is about to run its n-th statement"""
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                with dbhooks.use(dbhooks.TraceAt(n, lambda: os._exit(9))):
                    try:
                        f()
                        msg = 'ok'
                    except Exception as e:
                        msg = type(e).__name__
                os.write(w, msg.encode())
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        msg = b''
        while True:
            b = os.read(r, 100)
            if not b:
                break
            msg += b
        os.close(r)
        os.waitpid(pid, 0)
        return msg.decode() or 'died'

    def run(self, op):
        name = op[0]
        ev = {'op': name, 'o': 0, 'c': 0, 'p': 0, 'lazy': 0, 'fault': 0, 'pk': 0, 'content': 0}
        opt = op[-1] if isinstance(op[-1], dict) else {}
        fault = opt.get('fault')
        ev['fault'] = int(fault is not None)
        if name == 'new':
            o, c = op[1], op[2]
            ev.update(o=o, c=c)

            def f():
                self.objs[o] = from_file(self.h, self.d, opt.get('copy', c), self.file_of(c),
                                         opt.get('via', 'path'))
            ev['outcome'] = self.outcome(f)
        elif name == 'open':
            o, p, lz = op[1], self.key(op[2]), op[3]
            ev.update(o=o, p=p, lazy=lz)

            def f():
                self.objs[o] = self.cls(self.h, primary_key=p, lazy=bool(lz))
            ev['outcome'] = self.outcome(f)
            if ev['outcome'] == 'ok' and not lz:
                ev['content'] = self.content_of(self.objs[o])
        elif name in ('savedies', 'deletedies'):
            n = opt.get('n', 1)
            if name == 'savedies':
                c = op[1]
                ev['c'] = c
                u = from_file(self.h, self.d, c, self.file_of(c))
                ev['outcome'] = self.killed(lambda: u.save(append_json=bool(opt.get('json'))), n)
            else:
                ev['p'] = self.key(op[1])
                try:
                    u = self.cls(self.h, primary_key=ev['p'])
                except Exception:
                    return None
                ev['outcome'] = self.killed(u.delete, n)
        else:
            o = op[1]
            if o not in self.objs:
                return None
            u = self.objs[o]
            ev['o'] = o
            if name == 'load':
                lz = op[2]
                ev['lazy'] = lz
                ev['outcome'] = self.outcome(lambda: u.load(lazy=bool(lz)))
                if ev['outcome'] == 'ok' and not lz:
                    ev['content'] = self.content_of(u)
            elif name == 'save':
                ev['outcome'] = self.outcome(
                    (lambda: u.save(append_json=True)) if opt.get('json') else u.save, fault)
            elif name == 'delete':
                ev['outcome'] = self.outcome(u.delete, fault)
            else:
                raise ValueError(name)
        if ev['o'] and ev['o'] in self.objs:
            ev['pk'] = self.objs[ev['o']].primary_key or 0
        self.observe(ev)
        for p in ev['find']:
            self.note_key(p)
        return ev

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)


def self_error(text):
    import sqlite3
    return sqlite3.OperationalError(text)


def run_history(case, work):
    w = World(case, work)
    try:
        events = []
        for op in case['ops']:
            ev = w.run(op)
            if ev is not None:
                events.append(ev)
        return {'savable': case['savable'], 'events': events}
    finally:
        w.close()


def count_statements(case, work):
    """how many calls and statements saving and deleting a file takes"""
    d, path = new_db(work)
    res = {}
    try:
        u = from_file(handle(path), d, 0, bytes(case['file']))
        for name in ('save', 'delete'):
            with dbhooks.use(dbhooks.Count()) as c:
                getattr(u, name)()
            res[name] = [c.calls, c.traces]
    except Exception as e:
        return {'save': [40, 80], 'delete': [3, 5], 'error': repr(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


# ---- C16: lazy, cached and full access ------------------------------------------
def sorted_dataset(ds):
    o = obs.dataset(ds)
    o['cols'].sort(key=lambda c: c['name'])
    return o


def dataset_state(ds, refs):
    """("number of the dataset", "all" | "none" | "other")"""
    o = sorted_dataset(ds)
    for i, r in enumerate(refs):
        if (r['name'], r['multi']) == (o['name'], o['multi']):
            if text_of(o) == text_of(r):
                return i + 1, 'all'
            return i + 1, 'none' if not o['cols'] else 'other'
    return 0, 'other'


def run_access(case, work):
    from pyulog import ULog
    from pyulog.db import DatabaseULog
    d, path = new_db(work)
    try:
        h = handle(path)
        pks = []
        for n, f in enumerate(case['files']):
            u = from_file(h, d, n, bytes(f))
            u.save(append_json=bool(n % 2))
            pks.append(u.primary_key)
        pk = pks[case['which']]
        ref = DatabaseULog(h, primary_key=pk, lazy=False)
        # the samples of the file itself
        refs = [sorted_dataset(x) for x in quiet(ULog, io.BytesIO(bytes(case['files'][case['which']]))).data_list]
        buf = io.BytesIO()
        ref.write_ulog(buf)
        refbytes = buf.getvalue()

        def meta(u):
            o = dblog(u)
            o.pop('data')
            return text_of(o)
        refmeta = meta(ref)
        names = [(x.name, x.multi_id) for x in ref.data_list]
        objs, kept, events = {}, [], []
        for op in case['ops']:
            ev = {'op': op[0], 'o': op[1], 'd': 0, 'lazy': 0, 'caching': 0, 'entry': 0, 'fresh': 0, 'data': 'none',
                  'meta': 1, 'list': [], 'written': 0, 'outcome': 'ok'}
            o = op[1]
            try:
                with obs.time_limit(30):
                    if op[0] == 'construct':
                        ev['lazy'] = op[2]
                        if op[2]:
                            objs[o] = DatabaseULog(h, primary_key=pk)
                        else:
                            objs[o] = DatabaseULog(handle(path), primary_key=pk, lazy=False)
                    elif op[0] == 'neither':
                        DatabaseULog(h, lazy=bool(op[2]))
                    elif op[0] == 'both':
                        DatabaseULog(h, primary_key=pk, log_file=io.BytesIO(bytes(case['files'][case['which']])), lazy=bool(op[2]))
                    elif op[0] == 'nokey':
                        DatabaseULog(h, primary_key=max(pks) + 1, lazy=bool(op[2]))
                    elif op[0] == 'load':
                        ev['lazy'] = op[2]
                        objs[o].load(lazy=bool(op[2]))
                    elif op[0] == 'get':
                        k, lz, caching = op[2:5]
                        ev.update(d=k, lazy=lz, caching=caching)
                        if 0 < k <= len(names):
                            name, multi = names[k - 1]
                        else:
                            name, multi = case['unknown']
                        kw = {}
                        if lz or k % 2:
                            kw['lazy'] = bool(lz)
                        if not caching or k % 3:
                            kw['caching'] = bool(caching)
                        if multi == 0 and k % 2:
                            ds = objs[o].get_dataset(name, **kw)
                        else:
                            ds = objs[o].get_dataset(name, multi, **kw)
                        ev['entry'] = int(any(ds is x for x in objs[o].data_list))
                        ev['fresh'] = int(not any(ds is x for x in kept))
                        kept.append(ds)
                        num, ev['data'] = dataset_state(ds, refs)
                        if num != k:
                            ev['data'] = 'other'
                    elif op[0] == 'write':
                        buf = io.BytesIO()
                        try:
                            objs[o].write_ulog(buf)
                        finally:
                            ev['written'] = int(buf.getvalue() == refbytes) if buf.getvalue() else 0
            except Exception as e:
                ev['outcome'] = 'timeout' if isinstance(e, obs.Timeout) else type(e).__name__
            if o in objs:
                ev['meta'] = int(meta(objs[o]) == refmeta)
                kept += [x for x in objs[o].data_list if not any(x is y for y in kept)]
                ev['list'] = [list(dataset_state(x, refs)) for x in objs[o].data_list]
            events.append(ev)
        return {'n': len(names), 'events': events}
    except Exception as e:
        return {'error': repr(e)[:300]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- C22: JSON copies of the series ----------------------------------------------
def json_value(v):
    return ['n'] if v is None else obs.value(v)


def no_constant(name):
    raise ValueError(name)


def json_field(text, valid):
    pairs = None
    try:
        pairs = json.loads(text, object_pairs_hook=list, parse_constant=no_constant)
        entries = []
        for k, v in pairs:
            if isinstance(v, (list, bool)) or not (k.isascii() and k.isdigit()):
                return [0, []]
            entries.append([obs.u64(int(k)), json_value(v)])
        return [int(valid == 1), entries]
    except Exception:
        return [0, []]


def run_json(case, work):
    import sqlite3
    paths = []
    try:
        with obs.time_limit(60):
            for js in (True, False):
                d, path = new_db(work)
                paths.append((d, path))
                u = from_file(handle(path), d, 1, bytes(case['files'][0]), case['via'])
                u.save(append_json=js)
            same = dbhooks.dump(paths[0][1], {('ULogField', 'ValueJson')}) == \
                dbhooks.dump(paths[1][1], {('ULogField', 'ValueJson')})
            con = dbhooks._connect(paths[0][1])
            out = []
            for did, name, multi in con.execute('SELECT Id, DatasetName, MultiId FROM ULogDataset').fetchall():
                fields = []
                for fname, text, valid in con.execute(
                        'SELECT TopicName, ValueJson, json_valid(ValueJson) FROM ULogField WHERE DatasetId=?', (did,)):
                    fields.append([obs.text(fname)] + json_field(text, valid))
                out.append([obs.text(name), multi, fields])
            con.close()
        return [{'outcome': 'ok', 'json': out, 'same': int(same)}]
    except Exception as e:
        return [obs.failed(e)]
    finally:
        for d, _ in paths:
            shutil.rmtree(d, ignore_errors=True)


# ---- C19: two sessions -------------------------------------------------------------
COUNTS = {}


def rows_of(work, data):
    key = bytes(data)
    if key not in COUNTS:
        d, path = new_db(work)
        try:
            u = from_file(handle(path), d, 0, key)
            u.save()
            COUNTS[key] = len(dbhooks.dump(path))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return COUNTS[key]


def run_race(case, work):
    import threading
    w = World({'files': case['files'], 'savable': [1] * len(case['files'])}, work)
    try:
        counts = [rows_of(work, f) for f in w.files]
        init = {}
        for c in case['stored']:
            u = from_file(w.h, w.d, c, w.file_of(c))
            u.save()
            init[c] = u.primary_key
        sched = dbhooks.Scheduler(case['phases'])
        results = []
        threads = []
        partial = {c: {text_of(x) for x in json.loads(w.refs[c])['data']} for c in w.refs}

        def prepare(op, h):
            """what an operation needs is made before the race"""
            ev = {'op': op[0], 'c': 0, 'p': 0, 'pk': 0, 'content': 0, 'outcome': 'ok'}
            if op[0] == 'save':
                ev['c'] = op[1]
                u = from_file(h, w.d, 10 + op[1], w.file_of(op[1]))

                def f():
                    u.save()
                    ev['pk'] = u.primary_key
            elif op[0] == 'delete':
                ev['p'] = init[op[1]]
                u = w.cls(h, primary_key=ev['p'])
                f = u.delete
            elif op[0] == 'open':
                ev['p'] = init[op[1]]

                def f():
                    if op[2]:       # lazily, then everything at once
                        u = w.cls(h, primary_key=ev['p'])
                        u.load(lazy=False)
                    else:
                        u = w.cls(h, primary_key=ev['p'], lazy=False)
                    ev['obj'] = u
            elif op[0] == 'get':
                ev['p'] = init[op[1]]
                u = w.cls(h, primary_key=ev['p'])
                ds = u.data_list[op[2] % len(u.data_list)]

                def f():
                    ev['obj'] = u.get_dataset(ds.name, ds.multi_id, caching=bool(op[2] % 2))
            else:
                ev['c'] = op[1]

                def f():
                    ev['pk'] = w.cls.primary_key_from_sha256sum(h, w.sha(op[1])) or 0
            return ev, f

        def session(tid, prepared):
            try:
                sched.wait(tid)
                for ev, f in prepared:
                    ev['first'] = sched.tick()
                    try:
                        with dbhooks.use(dbhooks.Scheduled(sched, tid)):
                            f()
                    except Exception as e:
                        ev['outcome'] = type(e).__name__
                        del e
                    ev['last'] = sched.tick()
            finally:
                sched.finish(tid)

        for tid, prog in enumerate(case['programs']):
            h = handle(w.path)
            prepared = [prepare(op, h) for op in prog]
            for ev, _ in prepared:
                ev['s'] = tid
                results.append(ev)
            threads.append(threading.Thread(target=session, args=(tid, prepared), daemon=True))
        for t in threads:
            t.start()
        for t in threads:
            t.join(40)
            if t.is_alive():
                return {'error': 'the sessions block each other for ever'}
        for ev in results:
            u = ev.pop('obj', None)
            if u is None or ev['outcome'] != 'ok':
                continue
            if ev['op'] == 'open':
                ev['content'] = w.content_of(u)
            else:
                t = text_of(obs.dataset(u))
                for c in partial:
                    if t in partial[c] and (ev['content'] == 0 or init.get(c) == ev['p']):
                        ev['content'] = c
        ev = w.observe({})
        keys = set(init.values()) | {r['pk'] for r in results if r['pk']}
        h = handle(w.path)
        return {'init': [[p, c] for c, p in init.items()], 'ops': results, 'find': ev['find'], 'loads': ev['loads'],
                'exists': [p for p in sorted(keys | set(range(1, 9))) if w.cls.exists_in_db(h, p)],
                'rows': len(w.rows), 'counts': counts}
    except Exception as e:
        return {'error': repr(e)[:300]}
    finally:
        w.close()


def count_trace(case, work):
    """number of statements SQLite runs for each operation"""
    res = {}
    d, path = new_db(work)
    try:
        for name in ('save', 'open', 'get', 'find', 'delete'):
            h = handle(path)
            if name == 'save':
                u = from_file(h, d, 0, bytes(case['file']))
                f = u.save
            elif name == 'delete':
                f = u.delete
            elif name == 'find':
                f = lambda: type(u).primary_key_from_sha256sum(h, u.sha256sum)
            elif name == 'open':
                f = lambda: type(u)(h, primary_key=u.primary_key, lazy=False)
            else:
                v = type(u)(h, primary_key=u.primary_key)
                f = lambda: v.get_dataset(v.data_list[0].name, v.data_list[0].multi_id)
            with dbhooks.use(dbhooks.Count()) as c:
                f()
            res[name] = c.traces
    except Exception as e:
        return {'save': 80, 'open': 40, 'get': 6, 'find': 3, 'delete': 4, 'error': repr(e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return res


KINDS = {'race': run_race, 'trace': count_trace, 'json': run_json, 'access': run_access, 'content': run_content, 'history': run_history, 'count': count_statements}


def run_case(case, work):
    return KINDS[case['kind']](case, work)


if __name__ == '__main__':
    dbhooks.install()
    obs.main(run_case)
