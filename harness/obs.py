"""Observation of implementation objects through their public attributes.

Runs under the implementation's Python.  Texts become lists of UTF-8 bytes, numbers become
byte lists; nothing is compared here.
"""
import contextlib
import io
import json
import math
import os
import signal
import struct
import sys


class Timeout(Exception):
    pass


ALARMS = [0]
MOST_ALARMS = 4


def _alarm(*_):
    ALARMS[0] += 1
    raise Timeout()


@contextlib.contextmanager
def time_limit(seconds):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def text(s):
    return list(s.encode('utf-8', 'surrogatepass')) if isinstance(s, str) else ['?', repr(s)]


def u64(v):
    v = int(v)
    return list(struct.pack('<Q', v)) if 0 <= v < 1 << 64 else ['?', str(v)]


def value(v):
    if isinstance(v, str):
        return ['s', text(v)]
    if isinstance(v, (bytes, bytearray)):
        return ['b', list(v)]
    if isinstance(v, float):
        f8 = list(struct.pack('<d', v))
        if math.isnan(v):
            return ['f', list(struct.pack('<f', v)), f8, 1]
        try:
            f4 = struct.pack('<f', v)
        except OverflowError:
            return ['f', [0, 0, 0, 0], f8, 0]
        exact = struct.pack('<d', struct.unpack('<f', f4)[0]) == bytes(f8)
        return ['f', list(f4), f8, int(exact)]
    if isinstance(v, int):
        v = int(v)
        if -(1 << 127) <= v < 1 << 127:
            return ['i', list(v.to_bytes(16, 'little', signed=True))]
    return ['?', type(v).__name__, repr(v)[:200]]


def column(name, arr):
    import numpy as np
    dt = arr.dtype
    raw = np.ascontiguousarray(arr.astype(dt.newbyteorder('<'))).tobytes()
    n = dt.itemsize
    return {'name': text(name), 'kind': dt.kind, 'size': n,
            'rows': [list(raw[i:i + n]) for i in range(0, len(raw), n)]}


def dataset(d):
    return {'name': text(d.name), 'multi': int(d.multi_id), 'id': int(d.msg_id), 'tix': int(d.timestamp_idx),
            'fields': [[text(f.field_name), text(f.type_str)] for f in d.field_data],
            'cols': [column(k, a) for k, a in d.data.items()]}


def log(u):
    """everything a user can see of a loaded log"""
    return {
        'outcome': 'ok',
        'start': u64(u.start_timestamp),
        'last': u64(u.last_timestamp),
        'compat0': int(u.has_default_parameters),
        'compat': [int(x) for x in u._compat_flags],
        'appended': int(u.has_data_appended),
        'corrupt': int(bool(u.file_corruption)),
        'formats': [[text(k), [[text(t), int(n), text(f)] for t, n, f in m.fields]]
                    for k, m in u.message_formats.items()],
        'infos': [[text(k), value(v)] for k, v in u.msg_info_dict.items()],
        'multi': [[text(k), [[value(v) for v in lst] for lst in ls]]
                  for k, ls in u.msg_info_multiple_dict.items()],
        'initial': [[text(k), value(v)] for k, v in u.initial_parameters.items()],
        'defaults': [[[text(k), value(v)] for k, v in u.get_default_parameters(g).items()]
                     for g in (0, 1)],
        'changed': [[u64(t), text(k), value(v)] for t, k, v in u.changed_parameters],
        'msgs': [[int(m.log_level), u64(m.timestamp), text(m.message)] for m in u.logged_messages],
        'tagged': [[int(t), [[int(m.log_level), u64(m.timestamp), text(m.message)] for m in ms]]
                   for t, ms in u.logged_messages_tagged.items()],
        'levels': [text(m.log_level_str()) for m in u.logged_messages],
        'tlevels': [[int(t), [text(m.log_level_str()) for m in ms]] for t, ms in u.logged_messages_tagged.items()],
        'dropouts': [[u64(d.timestamp), int(d.duration)] for d in u.dropouts],
        'data': [dataset(d) for d in u.data_list],
    }


def failed(exc):
    return {'outcome': 'timeout' if isinstance(exc, Timeout) else type(exc).__name__,
            'detail': str(exc)[:300]}


def check_import():
    import pyulog
    repo = os.environ['PYTHONPATH'].split(':')[0]
    if not os.path.realpath(pyulog.__file__).startswith(os.path.realpath(repo) + os.sep):
        raise SystemExit('pyulog is imported from %s' % pyulog.__file__)


def main(run_case):
    """argv: input (JSON list of cases), output (one JSON value per line), work directory"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    check_import()
    inp, out, work = sys.argv[1:4]
    with open(inp) as f:
        cases = json.load(f)
    real = sys.stdout
    with open(out, 'w') as f:
        for i, case in enumerate(cases):
            sys.stdout = io.StringIO()
            try:
                res = run_case(case, work)
            finally:
                sys.stdout = real
            f.write(json.dumps(res) + '\n')
            f.flush()
            if ALARMS[0] >= MOST_ALARMS:
                break       # it hangs again and again: the other cases get no answer
