"""Write logs / compare logs with the implementation.

via says how a log is opened: "bytesio", "path", "file", or "db:MODE:HOW:JSON" through a database.

write: case = {kind: "write", file, via} -> {outcome, before, after, reload, w1, w1again, w2};
       `before` comes from the file when the log is written from a database
eq:    case = {kind: "eq", files, loads: [[file, via]], cmps: [[i, j]]} -> {outcome, cmps}
"""
import io
import os

import dbsource
import obs


def open_log(data, via, work, names=None, source=None):
    from pyulog import ULog
    if via.startswith('db:'):
        _, mode, how, json = via.split(':')
        return source.log(data, mode, how, names, json=json == '1')
    if via == 'bytesio':
        return ULog(io.BytesIO(data), names)
    path = os.path.join(work, 'in.ulg')
    with open(path, 'wb') as f:
        f.write(data)
    return ULog(path if via == 'path' else open(path, 'rb'), names)


def write(u, via, work):
    if via == 'bytesio':
        b = io.BytesIO()
        u.write_ulog(b)
        return b.getvalue()
    path = os.path.join(work, 'out.ulg')
    if via == 'path':
        u.write_ulog(path)
    else:
        with open(path, 'wb') as f:
            u.write_ulog(f)
    with open(path, 'rb') as f:
        return f.read()


def run_write(case, work):
    res = {'outcome': 'ok', 'version': case['file'][7] if len(case['file']) > 7 else 0,
           'db': int(case['via'].startswith('db:'))}
    source = dbsource.Source(work) if res['db'] else None
    out = case.get('out', case['via'])
    try:
        with obs.time_limit(30):
            u = open_log(bytes(case['file']), case['via'], work, case.get('names'), source)
            res['before'] = obs.log(open_log(bytes(case['file']), 'bytesio', work, case.get('names')) if source else u)
            w1 = write(u, out, work)
            res['after'] = obs.log(u)
            res['w1again'] = list(write(u, 'bytesio', work))
            res['w1'] = list(w1)
            u2 = open_log(w1, out, work)
            res['reload'] = obs.log(u2)
            res['w2'] = list(write(u2, 'bytesio', work))
    except dbsource.Unsavable:
        return {'outcome': 'unsavable', 'w1': []}
    except Exception as e:
        f = obs.failed(e)
        return {'outcome': f['outcome'], 'detail': f['detail'], 'w1': [], 'db': res['db']}
    finally:
        if source:
            source.close()
    return res


def cmp(f):
    try:
        r = f()
        return int(r) if isinstance(r, bool) else 2
    except Exception:
        return 2


def parts(u, most):
    """what a log consists of: (kind, where, object)"""
    out = [('fmt', [list(n.encode())], m) for n, m in list(u.message_formats.items())]
    out += [('msg', [i + 1], m) for i, m in enumerate(u.logged_messages)]
    out += [('tag', [int(t), i + 1], m) for t, ms in u.logged_messages_tagged.items() for i, m in enumerate(ms)]
    out += [('drop', [i + 1], d) for i, d in enumerate(u.dropouts)]
    out += [('data', [list(d.name.encode()), int(d.multi_id)], d) for d in u.data_list]
    out += [('field', [list(d.name.encode()), int(d.multi_id), i + 1], f)
            for d in u.data_list for i, f in enumerate(d.field_data)]
    kept = []
    for kind in ('fmt', 'msg', 'tag', 'drop', 'data', 'field'):
        kept.append([p for p in out if p[0] == kind][:most])
    return kept


def compare_parts(a, b, most):
    return [[kind, x, y, cmp(lambda: p == q), cmp(lambda: p != q)]
            for ps, qs in zip(parts(a, most), parts(b, most)) for kind, x, p in ps for _, y, q in qs]


def run_eq(case, work):
    source = dbsource.Source(work) if any(via.startswith('db:') for _, via in case['loads']) else None
    try:
        with obs.time_limit(30):
            logs = [open_log(bytes(case['files'][f - 1]), via, work, source=source) for f, via in case['loads']]
            return {'outcome': 'ok', 'cmps': [
                [i, j, cmp(lambda: logs[i - 1] == logs[j - 1]), cmp(lambda: logs[i - 1] != logs[j - 1])]
                for i, j in case['cmps']],
                'parts': [[i, j, compare_parts(logs[i - 1], logs[j - 1], case['most'])] for i, j in case['cmps'][:case['nparts']]
                          if not (case['loads'][i - 1][1] + case['loads'][j - 1][1]).count('db:')]}
    except dbsource.Unsavable:
        return {'outcome': 'unsavable'}
    except Exception as e:
        return obs.failed(e)
    finally:
        if source:
            source.close()


def run_probe(case, work):
    """which files can be loaded, and fit the database"""
    source, res = dbsource.Source(work), []
    for f in case['files']:
        try:
            with obs.time_limit(30):
                open_log(bytes(f), 'bytesio', work)
        except Exception:
            res.append(0)
            continue
        try:
            with obs.time_limit(30):
                source.log(bytes(f), 'full')
            res.append(1)
        except dbsource.Unsavable:
            res.append(0)
        except Exception:
            res.append(1)
    source.close()
    return res


RUN = {'write': run_write, 'eq': run_eq, 'probe': run_probe}


def run_case(case, work):
    return RUN[case['kind']](case, work)


if __name__ == '__main__':
    obs.main(run_case)
