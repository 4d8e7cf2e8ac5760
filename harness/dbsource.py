"""Logs that come from a database instead of a file.

A mode says how the log object was obtained:
  unsaved   DatabaseULog from the file, not saved
  saved     the object that saved the log (the first of its content; afterwards like full)
  full      loaded by primary key with all samples
  fresh     the same through a new handle of the database
  relazy    loaded lazily, then load(lazy=False)
  lazy      loaded without samples
  lazyget   loaded lazily, then every dataset fetched
  twice     loaded with all samples twice
"""
import io
import os
import shutil

WRITABLE = ['unsaved', 'saved', 'full', 'fresh', 'relazy', 'twice']
COMPLETE = WRITABLE + ['lazyget']


class Unsavable(Exception):
    """an integer of the log does not fit the database"""


class Source:
    """one database, in which logs are stored when they are first asked for"""

    def __init__(self, work):
        import exec_store
        self.store = exec_store
        self.d, self.path = exec_store.new_db(work)
        self.h = exec_store.handle(self.path)
        self.keys = {}
        self.n = 0

    def from_file(self, data, via, kw):
        from pyulog.db import DatabaseULog
        if via == 'bytesio':
            return DatabaseULog(self.h, log_file=io.BytesIO(data), **kw)
        self.n += 1
        p = os.path.join(self.d, 'f%d.ulg' % self.n)
        with open(p, 'wb') as f:
            f.write(data)
        return DatabaseULog(self.h, log_file=p if via == 'path' else open(p, 'rb'), **kw)

    def log(self, data, mode, via='path', names=None, strict=False, json=False):
        from pyulog.db import DatabaseULog
        kw = {}
        if names is not None:
            kw['message_name_filter_list'] = names
        if strict:
            kw['disable_str_exceptions'] = False
        if mode == 'unsaved':
            return self.from_file(data, via, kw)
        key = (data, tuple(names) if names is not None else None)
        if key not in self.keys:
            o = self.from_file(data, via, kw)
            try:
                o.save(append_json=True) if json else o.save()
            except OverflowError as e:
                raise Unsavable() from e
            self.keys[key] = o.primary_key
            if mode == 'saved':
                return o
        pk = self.keys[key]
        if mode == 'fresh':
            return DatabaseULog(self.store.handle(self.path), primary_key=pk, lazy=False)
        if mode in ('lazy', 'relazy', 'lazyget'):
            u = DatabaseULog(self.h, primary_key=pk)
            if mode == 'relazy':
                u.load(lazy=False)
            elif mode == 'lazyget':
                for d in list(u.data_list):
                    u.get_dataset(d.name, d.multi_id)
            return u
        u = DatabaseULog(self.h, primary_key=pk, lazy=False)
        if mode == 'twice':
            u.load(lazy=False)
        return u

    def close(self):
        shutil.rmtree(self.d, ignore_errors=True)

