"""Histories of log objects in one process: case = {files, options, ops} -> {shown, events}."""
import gc
import io
import os

import obs


class Numbers:
    """the same number for the same value"""

    def __init__(self):
        self.n = {}
        self.values = []

    def of(self, text, value=None):
        if text not in self.n:
            self.n[text] = len(self.n) + 1
            self.values.append(value)
        return self.n[text]


def open_source(data, via, path):
    """(source for the constructor, file object to close)"""
    if via == 'bytesio':
        return io.BytesIO(data), None
    with open(path, 'wb') as f:
        f.write(data)
    if via == 'path':
        return path, None
    f = open(path, 'rb')
    return f, f


def answers(u):
    """what the queries of a log say, as text"""
    out = [safe(u.get_version_info), safe(u.get_version_info, 'ver_sw'), safe(u.get_version_info_str)]
    for g in (0, 1, 2, 7):
        out.append(sorted((k, repr(v)) for k, v in u.get_default_parameters(g).items()))
    out += [m.log_level_str() for m in u.logged_messages]
    out += [m.log_level_str() for ms in u.logged_messages_tagged.values() for m in ms]
    for d in u.data_list:
        for name in d.data:
            out.append([name, [(int(t), repr(v)) for t, v in d.list_value_changes(name)]])
    return repr(out)


def safe(f, *a):
    try:
        return f(*a)
    except Exception:
        return None


def overwrite(arr):
    arr[...] = 0


def spoil(u, how):
    """somebody changes what the object gave out"""
    if how % 3 != 1:
        for d in list(u.data_list):
            for arr in d.data.values():
                safe(overwrite, arr)
            if how % 2:
                safe(d.data.clear)
                safe(d.field_data.clear)
                d.name, d.multi_id = 'spoilt', 9
    if how % 3 != 2:
        for ls in u.msg_info_multiple_dict.values():
            for x in ls:
                safe(x.clear)
            safe(ls.append, ['spoilt'])
        for m in u.message_formats.values():
            safe(m.fields.clear)
        for dic in (u.msg_info_dict, u.msg_info_multiple_dict, u.initial_parameters, u.message_formats,
                    u.get_default_parameters(0), u.get_default_parameters(1), u.get_default_parameters(5)):
            safe(dic.clear)
            dic['spoilt'] = 1
        for m in u.logged_messages:
            m.message, m.timestamp, m.log_level = 'spoilt', 1, 48
        for ms in u.logged_messages_tagged.values():
            ms.clear()
        for lst in (u.logged_messages, u.changed_parameters, u.dropouts, u.data_list):
            lst.append(lst[0] if lst else None)
            if how % 2:
                lst.clear()


def run_case(case, work):
    from pyulog import ULog
    files = [bytes(f) for f in case['files']]
    path = os.path.join(work, 'log.ulg')
    shown, said = Numbers(), Numbers()
    objs, spoilt, events = {}, set(), []
    for op in case['ops']:
        ev = {'op': op['op'], 'k': op['k'], 'f': op.get('f', 0), 'o': op.get('o', 0), 'path': 0, 'name': [], 'multi': 0,
              'found': 0, 'bytes': 0, 'views': [], 'outcome': 'ok'}
        k = op['k']
        try:
            with obs.time_limit(20):
                if op['op'] == 'load':
                    opt = case['options'][op['o'] - 1]
                    via = op['via']
                    ev['path'] = int(via != 'bytesio')
                    src, handle = open_source(files[op['f'] - 1], via, path)
                    kw = {}
                    if not opt['all']:
                        kw['message_name_filter_list'] = [bytes(x).decode() for x in opt['names']]
                    if opt['header']:
                        kw['parse_header_only'] = True
                    try:
                        u = ULog(src, **kw)
                    finally:
                        if handle:
                            handle.close()
                    objs[k] = u
                    spoilt.discard(k)
                elif op['op'] == 'lookup':
                    ev['name'], ev['multi'] = list(op['name'].encode()), op['multi']
                    args = (op['name'],) if op['multi'] == 0 and op['short'] else (op['name'], op['multi'])
                    d = objs[k].get_dataset(*args)
                    at = [i + 1 for i, x in enumerate(objs[k].data_list) if x is d]
                    ev['found'] = at[0] if at else -1
                elif op['op'] == 'query':
                    ev['bytes'] = said.of(answers(objs[k]))
                elif op['op'] == 'write':
                    out = os.path.join(work, 'written.ulg')
                    try:
                        if op['via'] == 'path':
                            objs[k].write_ulog(out)     # overwrites what is there
                            with open(out, 'rb') as f:
                                ev['bytes'] = said.of(f.read())
                        else:
                            b = io.BytesIO()
                            objs[k].write_ulog(b)
                            ev['bytes'] = said.of(b.getvalue())
                    except Exception as e:
                        ev['bytes'] = said.of(type(e).__name__)
                        raise
                elif op['op'] == 'spoil':
                    spoil(objs[k], op['how'])
                    spoilt.add(k)
                elif op['op'] == 'drop':
                    del objs[k]
                    spoilt.discard(k)
                    gc.collect()
        except Exception as e:
            ev['outcome'] = 'timeout' if isinstance(e, obs.Timeout) else type(e).__name__
            if op['op'] == 'spoil':
                spoilt.add(k)
        for x in sorted(objs):
            if x not in spoilt:
                try:
                    o = obs.log(objs[x])
                except Exception as e:
                    o = obs.failed(e)
                ev['views'].append([x, shown.of(repr(o), o)])
        events.append(ev)
    return {'shown': shown.values, 'events': events}


if __name__ == '__main__':
    obs.main(run_case)
