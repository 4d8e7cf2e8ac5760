"""Runs of the tools in a tree of files: case = {files, paths, others, runs} -> {start, runs}.

Every run is also done by itself: in a new process, in a tree with nothing but the logs.
Only recorded here: which files there are, and which of them have the same content.
"""
import contextlib
import gc
import hashlib
import io
import json
import lzma
import os
import re
import shutil
import sys

import exec_tools
import obs

DIRS = ('logs', 'work', 'out')
KML_ID = re.compile(rb' id="[^"]*"|#[A-Za-z]*_?\d+')


def digest(path, data):
    """of the content; KML ids are names without meaning"""
    if data.lstrip().startswith(b'<?xml'):
        data = KML_ID.sub(b'', data)
    return hashlib.sha256(data).hexdigest()


def listing(root):
    res = []
    for d, _, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with open(p, 'rb') as h:
                res.append([obs.text(os.path.relpath(p, root)), digest(p, h.read())])
    return sorted(res)


def plant(root, case, others):
    shutil.rmtree(root, ignore_errors=True)
    for d in DIRS:
        os.makedirs(os.path.join(root, d))
    todo = [(os.path.join(*(bytes(x).decode() for x in p)), bytes(f)) for f, p in zip(case['files'], case['paths'])]
    todo += [(bytes(p).decode(), bytes(c)) for p, c in others]
    for p, c in todo:
        os.makedirs(os.path.dirname(os.path.join(root, p)), exist_ok=True)
        with open(os.path.join(root, p), 'wb') as h:
            h.write(c)


# ---- one run, in the directory work of the tree -------------------------------------------
def where(root, path, absolute):
    return os.path.join(root, path) if absolute else os.path.relpath(os.path.join(root, path))


def no_network(*args, **kw):
    return io.BytesIO(lzma.compress(b'{"defs": []}'))


def do_run(root, case, run):
    """what the run says, as text"""
    tool = run['tool']
    name = lambda b: bytes(b).decode()
    log = where(root, os.path.join(*(name(x) for x in case['paths'][run['log'] - 1])), run['absolute'])
    out = where(root, name(run['out']), run['absolute']) if run['out'] else None
    odir = where(root, name(run['dir']), run['absolute']) if run['dir'] else None
    strict = run['strict']
    ign = [] if strict else ['-i']
    names = ','.join(name(n) for n in run['names']) if not run['all'] else None
    main = exec_tools.run_main
    if tool == 'csv':
        if run['cli']:
            main('ulog2csv', [log] + (['-m', names] if names else []) + (['-o', odir] if odir else [])
                 + (['-ts', str(run['ts'])] if run['ts'] else []) + (['-te', str(run['te'])] if run['te'] else []) + ign)
        else:
            from pyulog.ulog2csv import convert_ulog2csv
            convert_ulog2csv(log, names, odir, ',', run['ts'] or None, run['te'] or None, not strict)
        return ''
    if tool == 'gps':
        main('extract_gps_dump', [log] + ([] if strict else ['-x']) + (['-i', str(run['instance'])] if run['instance'] else [])
             + (['-o', odir] if odir else []))
        return ''
    if tool == 'kml':
        if run['cli'] or not out:
            main('ulog2kml', [log] + (['-o', out] if out else []) + ign)
        else:
            from pyulog.ulog2kml import convert_ulog2kml
            kw = {k: v for k, v in run['options'].items() if v is not None}
            convert_ulog2kml(log, out, disable_str_exceptions=not strict, **kw)
        return ''
    if tool == 'params':
        text = main('params', (['-d', 'system'] if run['needs'] else []) + (['-f', run['format']] if run['format'] else [])
                    + (['-t'] if run['ts'] else []) + (['-l', ';'] if run['te'] else [])
                    + (['--ignore'] if not strict else []) + [log] + ([out] if out else []))
        return repr(text)
    if tool == 'info':
        return repr(main('info', [log] + (['-v'] if run['cli'] else []) + ign))
    if tool == 'messages':
        return repr(main('messages', [log] + ign))
    if tool == 'extract':
        from pyulog.extract_message import extract_message
        return repr(extract_message(log, name(run['names'][0]), disable_str_exceptions=not strict,
                                    time_s=run['ts'] or None, time_e=run['te'] or None))
    from pyulog import ULog
    if tool == 'load':
        return repr(obs.log(ULog(log, disable_str_exceptions=not strict)))
    if tool == 'write':
        ULog(log, disable_str_exceptions=not strict).write_ulog(out)
        return ''
    if tool == 'store':
        return store(log, out, strict)
    raise ValueError(tool)


def store(log, out, strict):
    """save into a database file and load from it"""
    from pyulog.db import DatabaseULog
    if not os.path.exists(out):
        exec_tools.run_main('migrate_db', ['-d', out])
    h = DatabaseULog.get_db_handle(out)
    u = DatabaseULog(h, log_file=log, disable_str_exceptions=not strict)
    pk = DatabaseULog.primary_key_from_sha256sum(h, DatabaseULog.calc_sha256sum(log))
    if pk is None:
        u.save()
        pk = u.primary_key
    return repr(obs.log(DatabaseULog(h, primary_key=pk, lazy=False)))


def one(root, case, run):
    os.chdir(os.path.join(root, 'work'))
    res = {'outcome': 'ok', 'said': ''}
    try:
        with obs.time_limit(20), contextlib.redirect_stderr(io.StringIO()):
            res['said'] = hashlib.sha256(do_run(root, case, run).encode('utf-8', 'surrogatepass')).hexdigest()
    except Exception as e:
        res['outcome'] = obs.failed(e)['outcome']
    gc.collect()
    res['after'] = listing(root)
    return res


def forked(fn):
    """the JSON value of fn() in a new process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, 'w') as f:
                json.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return json.loads(data)


def run_case(case, work):
    gc.freeze()         # the cases need not be looked at by every collection
    root = os.path.join(work, 'tree')
    numbers = {}

    def number(x):
        return numbers.setdefault(x, len(numbers) + 1)

    def tree(lst):
        return [[p, number(c)] for p, c in lst]

    def alone(run):
        plant(root, case, [])
        before = listing(root)
        res = forked(lambda: one(root, case, run))
        return {'outcome': res['outcome'], 'said': number(res['said']), 'before': tree(before), 'after': tree(res['after'])}
    refs, known = [], {}
    for run in case['runs']:
        key = json.dumps(run, sort_keys=True)
        if key not in known:
            known[key] = alone(run)
        refs.append(known[key])
    plant(root, case, case['others'])
    start = tree(listing(root))
    results = forked(lambda: [one(root, case, run) for run in case['runs']])
    runs = [{'outcome': x['outcome'], 'said': number(x['said']), 'after': tree(x['after']), 'ref': ref}
            for x, ref in zip(results, refs)]
    shutil.rmtree(root, ignore_errors=True)
    return {'start': start, 'runs': runs}


if __name__ == '__main__':
    # the modules, but no runs, before the first case
    import importlib
    import urllib.request
    urllib.request.urlopen = no_network
    exec_tools.stub_parser()
    for m in ('ulog2csv', 'extract_gps_dump', 'ulog2kml', 'params', 'info', 'messages', 'extract_message', 'db', 'migrate_db'):
        importlib.import_module('pyulog.' + m)
    obs.main(run_case)
