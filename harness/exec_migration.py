"""Run migrations with the implementation.

scripts: custom migration scripts (C21); real: the scripts of the repository on populated
databases (C20).  Both give {cur, exists, ver, done, events}.
"""
import os
import shutil
import sqlite3
import sys
import tempfile
from unittest.mock import patch

import dbhooks
import obs
from exec_store import dblog, from_file, handle, quiet, text_of

HERE = os.path.dirname(os.path.abspath(__file__))


def version_of(path):
    con = dbhooks._connect(path, timeout=5)
    try:
        return con.execute('PRAGMA user_version').fetchone()[0]
    finally:
        con.close()


def script_text(n, kind, style):
    body = ('CREATE TABLE IF NOT EXISTS mark (id INTEGER PRIMARY KEY AUTOINCREMENT, s INT, part INT);\n'
            'INSERT INTO mark (s, part) VALUES (%d, 1);\n'
            'CREATE TABLE t%d (x INT);\n' % (n, n))
    if kind == 'failing':
        body += ['INSERT INTO no_such_table VALUES (1);\n', 'CREATE TABLE t%d (again INT);\n' % n,
                 'THIS IS NOT SQL;\n'][style % 3]
    body += 'INSERT INTO mark (s, part) VALUES (%d, 2);\n' % n
    if kind == 'unwrapped':
        return [body + 'COMMIT;\n', 'BEGIN;\n' + body, body, '-- a comment first\n' + body + 'COMMIT;',
                'BEGIN;\n' + body + 'COMMIT;\nCREATE TABLE IF NOT EXISTS late%d (x INT);\n' % n,
                'CREATE TABLE early%d (x INT);\nBEGIN;\n' % n + body + 'COMMIT;\n',
                'BEGIN;\n' + body + 'ROLLBACK;\n', 'BEGIN;\n' + body + 'COMMIT;\nSELECT 1;'][style % 8]
    return ['BEGIN;\n' + body + 'COMMIT;\n', '\n  BEGIN;' + body + '  COMMIT;  \n\n', 'BEGIN;' + body + 'COMMIT;'][style % 3]


def write_scripts(d, kinds, style):
    sql = os.path.join(d, 'sql')
    shutil.rmtree(sql, ignore_errors=True)
    os.makedirs(sql)
    for n, kind in enumerate(kinds, 1):
        if kind != 'missing':
            with open(os.path.join(sql, 'pyulog.%d.sql' % n), 'w') as f:
                f.write(script_text(n, kind, style + n))
    return sql


def marks(path):
    """the scripts whose effect is in the database, in order; negative: only in part"""
    con = dbhooks._connect(path, timeout=5)
    try:
        tables = {r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'")}
        if 'mark' not in tables:
            return [-int(t[1:]) for t in sorted(tables) if t[:1] == 't' and t[1:].isdigit()]
        seen, order = {}, []
        for s, part in con.execute('SELECT s, part FROM mark ORDER BY id'):
            if s not in seen:
                order.append(s)
            seen.setdefault(s, []).append(part)
        done = [s if seen[s] == [1, 2] and 't%d' % s in tables else -s for s in order]
        return done + [-int(t[1:]) for t in sorted(tables) if t[:1] == 't' and t[1:].isdigit()
                       and int(t[1:]) not in seen]
    finally:
        con.close()


def in_child(f, n):
    """run f in a child that dies when SQLite is about to run its n-th statement"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with dbhooks.use(dbhooks.TraceAt(n, lambda: os._exit(9))):
                try:
                    f()
                    msg = 'ok'
                except Exception as e:
                    msg = type(e).__name__
            os.write(w, msg.encode())
        finally:
            os._exit(0)
    os.close(w)
    msg = os.read(r, 200)
    os.close(r)
    os.waitpid(pid, 0)
    return msg.decode() or 'died'


def call(path, sql, noop, force, cli):
    """migrate, as a function or as the command line tool"""
    from pyulog import migrate_db
    if not cli:
        kw = {}
        if noop:
            kw['noop'] = True
        if force:
            kw['force'] = True
        if sql is not None:
            kw['sql_dir'] = sql
        quiet(migrate_db.migrate_db, path, **kw)
        return
    argv = ['ulog_migratedb', '-d', path]
    if sql is not None:
        argv += ['-s', sql]
    argv += ['-n'] * noop + ['-f'] * force
    with patch.object(sys, 'argv', argv):
        quiet(migrate_db.main)


def migrate(path, sql, op):
    def f():
        call(path, sql, op['noop'], op['force'], op.get('cli', 0))
    fault = op.get('fault')
    if fault and fault['kind'] == 'kill':
        return in_child(f, fault['n'])
    try:
        with obs.time_limit(40):
            if not fault:
                f()
            elif fault['kind'] == 'raise':
                with dbhooks.use(dbhooks.RaiseAt(fault['n'], sqlite3.OperationalError('disk I/O error'))):
                    f()
            elif fault['kind'] == 'interrupt':
                with dbhooks.use(dbhooks.InterruptAt(fault['n'], 5)):
                    f()
            else:
                other = dbhooks._connect(path, timeout=0.02, isolation_level=None)
                try:
                    if fault['kind'] == 'reader':
                        other.execute('BEGIN')
                        other.execute('SELECT COUNT(*) FROM sqlite_master').fetchall()
                    else:
                        other.execute('BEGIN IMMEDIATE')
                    f()
                finally:
                    other.close()
        return 'ok'
    except Exception as e:
        return 'timeout' if isinstance(e, obs.Timeout) else type(e).__name__


def accepts(path, f):
    """can log objects be made on this database?"""
    from pyulog.db import DatabaseULog
    res = set()
    for kw in ({'log_file': f}, {'primary_key': 1}, {'primary_key': 1, 'lazy': False}):
        try:
            DatabaseULog(handle(path), **kw)
            res.add(1)
        except ValueError:
            res.add(0)
        except (KeyError, sqlite3.OperationalError):
            res.add(1)      # it got past the version
        except Exception:
            res.add(2)
    return res.pop() if len(res) == 1 else 2


def run_scripts(case, work):
    from pyulog.db import DatabaseULog
    d = tempfile.mkdtemp(dir=work)
    path = os.path.join(d, 'db.sqlite3')
    log = os.path.join(d, 'a.ulg')
    with open(log, 'wb') as f:
        f.write(bytes(case['log']))
    try:
        start = case['start']
        if start != -2:
            con = dbhooks._connect(path)
            con.execute('CREATE TABLE somebody (x INT)')
            con.execute('INSERT INTO somebody VALUES (42)')
            for v in range(1, start + 1):
                con.executescript(script_text(v, 'good', 0))
            con.execute('PRAGMA user_version=%d' % max(0, start))
            con.commit()
            con.close()
        res = {'cur': case['cur'], 'exists': int(os.path.exists(path)), 'ver': max(0, start),
               'done': marks(path) if start != -2 else [], 'events': []}
        with patch.object(DatabaseULog, 'SCHEMA_VERSION', case['cur']):
            for op in case['runs']:
                sql = write_scripts(d, op['scripts'], case['style'])
                foreign = dbhooks.dump(path) if os.path.exists(path) else set()
                out = migrate(path, sql, op)
                exists = os.path.exists(path)
                after = dbhooks.dump(path) if exists else set()
                res['events'].append({
                    'noop': op['noop'], 'force': op['force'], 'fault': int('fault' in op), 'scripts': op['scripts'],
                    'outcome': out, 'exists': int(exists), 'ver': version_of(path) if exists else 0,
                    'done': marks(path) if exists else [], 'kept': 1,
                    'foreign': int({x for x in foreign if not x.startswith('mark')}
                                   == {x for x in after if not x.startswith('mark')}),
                    'accepted': accepts(path, log) if exists else 0})
        return res
    except Exception as e:
        return {'error': repr(e)[:300]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- the scripts of the repository on populated databases ----------------------
REF = {}


def references(work):
    """the schema of every version, as the code creates it from nothing"""
    if not REF:
        from pyulog.db import DatabaseULog
        cur = DatabaseULog.SCHEMA_VERSION
        for v in range(1, cur + 1):
            d = tempfile.mkdtemp(dir=work)
            path = os.path.join(d, 'x.sqlite3')
            with patch.object(DatabaseULog, 'SCHEMA_VERSION', v):
                call(path, None, 0, 0, 0)
            REF[v] = dbhooks.schema(path)
            shutil.rmtree(d)
        REF['cur'] = cur
    return REF


def old_database(path, version):
    """an empty database as the tool created it when `version` was current"""
    con = dbhooks._connect(path, isolation_level=None)
    con.execute('PRAGMA foreign_keys=on')
    for v in range(1, version + 1):
        with open(os.path.join(HERE, 'schemas', 'pyulog.%d.sql' % v)) as f:
            con.executescript(f.read())
        con.execute('PRAGMA user_version=%d' % v)
    con.close()


def populate(path, source):
    """copy the rows of a current database, as far as the old schema has a place for them"""
    src, con = dbhooks._connect(source), dbhooks._connect(path)
    src.execute('BEGIN')
    for (t,) in src.execute("SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").fetchall():
        have = [r[1] for r in con.execute('PRAGMA table_info("%s")' % t)]
        names = [r[1] for r in src.execute('PRAGMA table_info("%s")' % t) if r[1] in have]
        if not names:
            continue
        cols = ','.join('"%s"' % n for n in names)
        for row in src.execute('SELECT %s FROM "%s"' % (cols, t)):
            con.execute('INSERT INTO "%s" (%s) VALUES (%s)' % (t, cols, ','.join('?' * len(names))), row)
    con.commit()
    con.close()
    src.close()


def counts(path):
    con = dbhooks._connect(path, timeout=5)
    try:
        return {t: con.execute('SELECT COUNT(*) FROM "%s"' % t).fetchone()[0] for (t,) in con.execute(
            "SELECT name FROM sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'").fetchall()}
    finally:
        con.close()


def run_real(case, work):
    from pyulog.db import DatabaseULog
    d = tempfile.mkdtemp(dir=work)
    path = os.path.join(d, 'db.sqlite3')
    try:
        ref = references(work)
        cur = ref['cur']
        source = os.path.join(d, 'source.sqlite3')
        call(source, None, 0, 0, 0)
        truth = {}
        start = case['start']

        def loaded(p, pk):
            o = dblog(DatabaseULog(handle(p), primary_key=pk, lazy=False))
            if start == 1:      # there was no place for the checksum
                o.pop('sha')
            return text_of(o)
        logs = [bytes(f) for f in case['logs']]
        for n, data in enumerate(logs):
            u = from_file(handle(source), d, n, data)
            u.save(append_json=bool(n % 2) and start >= 3)
            truth[u.primary_key] = loaded(source, u.primary_key)
        if case['hole']:        # a log deleted before leaves a gap in the keys
            u = DatabaseULog(handle(source), primary_key=min(truth))
            u.delete()
            truth.pop(min(truth))
        if start > 0:
            old_database(path, start)
            populate(path, source)
        elif start == -1:
            dbhooks._connect(path).execute('PRAGMA user_version').fetchone()
            open(path, 'ab').close()
        if start <= 0:
            truth = {}
        fresh = os.path.join(d, 'f0.ulg')
        res = {'cur': cur, 'exists': int(os.path.exists(path)), 'ver': max(0, start),
               'done': list(range(1, max(0, start) + 1)), 'events': []}
        for op in case['runs']:
            exists = os.path.exists(path)
            before, nbefore = (dbhooks.dump(path), counts(path)) if exists else (set(), {})
            vbefore = version_of(path) if exists else 0
            out = migrate(path, None, op)
            exists = os.path.exists(path)
            ver = version_of(path) if exists else 0
            after = dbhooks.dump(path) if exists else set()
            sch = dbhooks.schema(path) if exists else {}
            done = list(range(1, ver + 1))
            if (ver in ref and ver != vbefore and sch != ref[ver]) or (ver == 0 and sch):
                done = [-1] + done
            if ver == vbefore:
                kept = before == after
            else:
                n = counts(path)
                kept = all(n.get(t) == c for t, c in nbefore.items() if c)
            if ver == cur:
                for pk, t in truth.items():
                    try:
                        if loaded(path, pk) != t:
                            kept = False
                    except Exception:
                        kept = False
            res['events'].append({
                'noop': op['noop'], 'force': op['force'], 'fault': int('fault' in op), 'scripts': ['good'] * cur,
                'outcome': out, 'exists': int(exists), 'ver': ver, 'done': done, 'kept': int(kept), 'foreign': 1,
                'accepted': accepts(path, fresh) if exists else 0})
        # the migrated database works: deleting a log removes its rows and nothing else
        if exists and ver == cur and truth:
            pk = sorted(truth)[case['probe'] % len(truth)]
            before = dbhooks.dump(path)
            try:
                DatabaseULog(handle(path), primary_key=pk).delete()
                rest = {p: loaded(path, p) for p in truth if p != pk}
                ok = rest == {p: t for p, t in truth.items() if p != pk}
                for p in rest:
                    DatabaseULog(handle(path), primary_key=p).delete()
                ok = ok and not dbhooks.dump(path)
                u = from_file(handle(path), d, 0, logs[0])
                u.save()
                want = truth.get(1)
                ok = ok and (want is None or loaded(path, u.primary_key) == want)
            except Exception:
                ok = False
            if not ok:
                res['events'][-1]['kept'] = 0
        return res
    except Exception as e:
        return {'error': repr(e)[:300]}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def count_statements(case, work):
    """statements that SQLite runs to migrate from each version"""
    res = {}
    for v in range(0, 5):
        d = tempfile.mkdtemp(dir=work)
        path = os.path.join(d, 'db.sqlite3')
        try:
            if v:
                old_database(path, v)
            with dbhooks.use(dbhooks.Count()) as c:
                call(path, None, 0, 0, 0)
            res[v] = [c.calls, c.traces]
        except Exception:
            res[v] = [10, 150]
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return res


KINDS = {'scripts': run_scripts, 'real': run_real, 'count': count_statements}


def run_case(case, work):
    return KINDS[case['kind']](case, work)


if __name__ == '__main__':
    dbhooks.install()
    obs.main(run_case)
