"""Run the tools of the implementation on a log; case = {file, strict, tool, args, via}.

Only recorded here: what a tool wrote or returned, as texts, bytes and numbers.
"""
import contextlib
import decimal
import importlib
import io
import json
import lzma
import os
import re
import shutil
import struct
import sys
import types
import xml.etree.ElementTree as ET

import dbsource
import obs


class Unparsable(Exception):
    """the output does not have the documented form"""


def name_of(b):
    return bytes(b).decode('utf-8')


def cell(s):
    """[text, 16 byte integer or [], float32 or [], float64 or []]"""
    raw = s if isinstance(s, bytes) else s.encode('utf-8', 'surrogatepass')
    i, f4, f8 = [], [], []
    try:
        t = raw.decode('ascii')
        if re.fullmatch(r'[+-]?\d{1,38}', t):
            i = list(int(t).to_bytes(16, 'little', signed=True))
        if re.fullmatch(r'[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?|nan|inf)', t):
            v = float(t)
            f8 = list(struct.pack('<d', v))
            try:
                f4 = list(struct.pack('<f', v))
            except OverflowError:
                f4 = []
    except UnicodeDecodeError:
        pass
    return [list(raw), i, f4, f8]


def run_main(module, argv):
    """Run the command line interface; its standard output as bytes"""
    mod = importlib.import_module('pyulog.' + module)
    buf = io.BytesIO()
    out = io.TextIOWrapper(buf, encoding='utf-8', errors='surrogatepass', newline='\n')
    old = sys.argv
    sys.argv = [module] + argv
    try:
        with contextlib.redirect_stdout(out):
            try:
                mod.main()
            except SystemExit as e:
                if e.code not in (None, 0):
                    raise RuntimeError('exit %s' % e.code) from e
    finally:
        sys.argv = old
    out.flush()
    data = buf.getvalue()
    # diagnostics of the loader come first
    while data.startswith((b'Warning: ', b'File corruption detected')) \
            and not data.startswith(b'Warning: file has data corruption'):
        data = data[data.index(b'\n') + 1:]
    return data


def lines_of(data):
    ls = data.split(b'\n')
    if ls and ls[-1] == b'':
        ls.pop()
    return ls


def ignore(case):
    return [] if case['strict'] else ['-i']


# ---- CSV -------------------------------------------------------------------
def csv(case, path, work):
    a = case['args']
    names = ','.join(name_of(n) for n in a['names']) if not a['all'] else None
    delim = a.get('delimiter', ',')
    out = os.path.join(work, 'out')
    shutil.rmtree(out, ignore_errors=True)
    if a.get('out'):
        if a['out'] == 2:
            os.mkdir(out)
    if a.get('cli'):
        argv = [path] + (['-m', names] if names else []) + (['-o', out] if a.get('out') else [])
        argv += ['-d', delim] if delim != ',' or a['cli'] == 2 else []
        argv += ['-ts', str(a['ts'])] if a['ts'] else []
        argv += ['-te', str(a['te'])] if a['te'] else []
        run_main('ulog2csv', argv + ignore(case))
    else:
        from pyulog.ulog2csv import convert_ulog2csv
        if a.get('out'):
            os.makedirs(out, exist_ok=True)
        convert_ulog2csv(path, names, out if a.get('out') else None, delim, a['ts'] or None,
                         a['te'] or None, *([] if case['strict'] else [True]))
    where = out if a.get('out') else work
    files = []
    for f in sorted(os.listdir(where)):
        if f.endswith('.csv'):
            ls = lines_of(open(os.path.join(where, f), 'rb').read())
            d = delim.encode()
            files.append({'name': obs.text(f), 'header': [list(c) for c in ls[0].split(d)] if ls else [],
                          'rows': [[cell(c) for c in l.split(d)] for l in ls[1:]]})
    return {'files': files}


# ---- one topic ---------------------------------------------------------------
def plain(v):
    return v.item() if hasattr(v, 'item') else v


def extract(case, path, work):
    from pyulog.extract_message import extract_message
    a = case['args']
    kw = {}
    if a['ts']:
        kw['time_s'] = a['ts']
    if a['te']:
        kw['time_e'] = a['te']
    if not case['strict']:
        kw['disable_str_exceptions'] = True
    rows = extract_message(path, name_of(a['topic']), **kw)
    return {'records': [[[obs.text(k), obs.value(plain(v))] for k, v in r.items()] for r in rows]}


# ---- parameters ----------------------------------------------------------------
def params(case, path, work):
    a = case['args']
    argv = ['-f', a['format']]
    argv += ['-i'] if a['initial'] else []
    argv += ['-t'] if a['timestamps'] else []
    argv += ['-d', ['system', 'current_setup'][a['group']]] if a['group'] < 2 else []
    delim = a.get('delimiter', ',')
    argv += ['-l', delim] if delim != ',' else []
    argv += [] if case['strict'] else ['--ignore']
    argv.append(path)
    out = os.path.join(work, 'params.txt')
    if a.get('tofile'):
        argv.append(out)
    data = run_main('params', argv)
    if a.get('tofile'):
        import gc
        gc.collect()
        data = open(out, 'rb').read()
    if a['format'] == 'octave':
        rows = [l.split() for l in lines_of(data)]
    else:
        rows = [l.split(delim.encode() if a['format'] == 'csv' else b'\t') for l in lines_of(data)]
    return {'lines': [[cell(c) for c in r] for r in rows]}


# ---- GPS dump --------------------------------------------------------------------
def gps(case, path, work):
    a = case['args']
    out = os.path.join(work, 'out')
    os.mkdir(out)
    argv = [path] + ([] if case['strict'] else ['-x'])
    argv += ['-i', str(a['instance'])] if a['instance'] or a.get('explicit') else []
    where = work
    if a.get('out'):
        argv += ['-o', out]
        where = out
    run_main('extract_gps_dump', argv)
    stem = os.path.basename(path)
    if stem.lower().endswith('.ulg'):
        stem = stem[:-4]
    stem = '%s_%d_' % (stem, a['instance'])
    to, fr = (os.path.join(where, stem + x + '_device.dat') for x in ('to', 'from'))
    read = lambda f: list(open(f, 'rb').read()) if os.path.exists(f) else []
    return {'exists': int(os.path.exists(to)) + int(os.path.exists(fr)), 'to': read(to), 'from': read(fr)}


# ---- summary -----------------------------------------------------------------------
def hms(h, m, s):
    return [int(h), int(m), int(s)]


def info(case, path, work):
    a = case['args']
    text = run_main('info', [path] + (['-v'] if a['verbose'] else []) + ignore(case))
    ls = lines_of(text)
    res = {'corrupt': 0, 'drops': [], 'version': [], 'infos': [], 'multi': [], 'table': []}
    if ls and ls[0].startswith(b'Warning: file has data corruption'):
        res['corrupt'] = 1
        ls.pop(0)
    m = re.fullmatch(rb'Logging start time: (\d+):(\d+):(\d+), duration: (\d+):(\d+):(\d+)', ls.pop(0))
    if not m:
        raise Unparsable('times')
    res['start'], res['duration'] = hms(*m.groups()[:3]), hms(*m.groups()[3:])
    l = ls.pop(0)
    m = re.fullmatch(rb'Dropouts: count: (\d+), total duration: ([\d.]+) s, max: (\d+) ms, mean: (\d+) ms', l)
    if m:
        g = m.groups()
        res['drops'] = [int(g[0]), int(round(float(g[1]) * 1000)), int(g[2]), int(g[3])]
    elif l != b'No Dropouts':
        raise Unparsable('dropouts')
    if ls[0].startswith(b'SW Version: '):
        res['version'] = list(ls.pop(0)[len(b'SW Version: '):])
    if ls.pop(0) != b'Info Messages:':
        raise Unparsable('info messages')
    mode = 'infos'
    while ls[0] != b'' and not ls[0].startswith(b'Name (multi'):
        l = ls.pop(0)
        if l == b'Info Multiple Messages:':
            mode = 'multi'
        elif l.startswith(b'Info Multiple Messages: '):
            rest = l[len(b'Info Multiple Messages: '):]
            for part in rest.split(b', '):
                m = re.fullmatch(rb'\[(.*): (\d+)\]', part)
                if not m:
                    raise Unparsable('multi-part')
                res['multi'].append([list(m.group(1)), int(m.group(2))])
        else:
            m = re.fullmatch(rb' ([^:]*): (.*)', l, re.S)
            if not m:
                raise Unparsable('line %r' % l)
            k, v = m.groups()
            if mode == 'infos':
                res['infos'].append([list(k), cell(v)])
            else:
                res['multi'].append([list(k), 0])
    while not ls[0].startswith(b'Name (multi'):
        ls.pop(0)
    for l in ls[1:]:
        m = re.fullmatch(rb' *(\S.*) \((\d+), (\d+)\) +(\d+) +(\d+)', l)
        if not m:
            raise Unparsable('table %r' % l)
        res['table'].append([list(m.group(1))] + [int(x) for x in m.groups()[1:]])
    return res


def multi(case, path, work):
    a = case['args']
    text = run_main('info', [path, '-m', name_of(a['key'])] + (['-n'] if a['newline'] else []) + ignore(case))
    return {'text': list(text)}


# ---- KML ------------------------------------------------------------------------------
def nearest(c, scale):
    """nearest multiple of 1/scale, and whether it is close to it"""
    d = decimal.Decimal(c) * scale
    n = int(d.to_integral_value())
    return [n, int(abs(d - n) < decimal.Decimal('0.01'))] if abs(n) < 2 ** 31 else [0, 0]


def position(c):
    p = c.split(',')
    if len(p) != 3:
        raise Unparsable('coordinates %r' % c)
    res = []
    for x, scale in zip(p, (10 ** 7, 10 ** 7, 10 ** 3)):
        k = cell(x)
        res.append(k + (nearest(x, scale) if k[3] and 'n' not in x else [0, 0]))
    return res


def kml(case, path, work):
    a = case['args']
    out = os.path.join(work, 'track.kml')
    topics = [name_of(t) for t in a['topics']]
    camera = name_of(a['camera']) if a['camera'] else None
    if a.get('cli'):
        argv = [path, '-o', out] + (['--topic', topics[0]] if topics[0] != 'vehicle_gps_position' else [])
        argv += ['--camera-trigger', camera] if camera else []
        run_main('ulog2kml', argv + ignore(case))
    else:
        from pyulog.ulog2kml import convert_ulog2kml
        from pyulog import ulog2kml
        colors = [lambda mode, k=k: 'ff%02x%02x00' % ((int(mode) + 1) % 256, k) for k in range(1, len(topics) + 1)]
        if len(topics) > 1 or a.get('list'):
            kw = {'position_topic_name': topics,
                  'colors': colors if a['own'] else [ulog2kml.convert_ulog2kml.__defaults__[1]] * len(topics)}
        else:
            kw = {'position_topic_name': topics[0]}
            if a['own']:
                kw['colors'] = colors[0]
        if a['interval'] != 100000:
            kw['minimum_interval_s'] = a['interval'] / 1e6
        if a['offset']:
            kw['altitude_offset'] = a['offset']
        if camera:
            kw['camera_trigger_topic_name'] = camera
        if a['width'] or a['extrude']:
            kw['style'] = dict(([('line_width', a['width'])] if a['width'] else []) + ([('extrude', a['extrude'] == 1)] if a['extrude'] else []))
        if not case['strict']:
            kw['disable_str_exceptions'] = True
        convert_ulog2kml(path, out, **kw)
    lines, points = [], []
    ns = '{http://www.opengis.net/kml/2.2}'
    root = ET.parse(out).getroot()
    styles = {'#' + s.get('id'): (s.findtext('%sLineStyle/%scolor' % (ns, ns)), s.findtext('%sLineStyle/%swidth' % (ns, ns)))
              for s in root.iter(ns + 'Style')}
    for pm in root.iter(ns + 'Placemark'):
        name = obs.text(pm.findtext(ns + 'name') or '')
        for kind, lst in (('LineString', lines), ('Point', points)):
            for e in pm.iter(ns + kind):
                txt = e.findtext(ns + 'coordinates') or ''
                # simplekml writes a line without coordinates as "0.0, 0.0, 0.0"
                pos = [] if txt.strip() == '0.0, 0.0, 0.0' else [position(c) for c in txt.split()]
                if kind == 'Point':
                    pos = pos[0] if len(pos) == 1 else []
                if kind == 'Point':
                    lst.append([name, pos])
                else:
                    color, width = styles.get(pm.findtext(ns + 'styleUrl'), ('', '0'))
                    lst.append([name, pos, obs.text(color), int(width), int(e.findtext(ns + 'extrude') or 0),
                                obs.text(e.findtext(ns + 'altitudeMode') or '')])
    return {'lines': lines, 'points': points}


# ---- ROS bag ---------------------------------------------------------------------------
RANGES = {'int8': (-128, 127), 'uint8': (0, 255), 'octet': (0, 255), 'int16': (-2**15, 2**15 - 1),
          'uint16': (0, 2**16 - 1), 'int32': (-2**31, 2**31 - 1), 'uint32': (0, 2**32 - 1),
          'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}


def check_scalar(t, v):
    if t == 'boolean':
        assert type(v) is bool, 'bool expected, not %s' % type(v)
    elif t in ('float', 'double'):
        assert type(v) is float, 'float expected, not %s' % type(v)
        assert t == 'double' or v != v or abs(v) in (float('inf'),) or abs(v) <= 3.4028235e38
    else:
        assert type(v) is int, 'int expected, not %s' % type(v)
        lo, hi = RANGES[t]
        assert lo <= v <= hi, 'out of range'


class BoolArray(list):
    """fixed size list of bool"""

    def __setitem__(self, i, v):
        check_scalar('boolean', v)
        list.__setitem__(self, i, v)

    def append(self, v):
        raise AssertionError('fixed size')


def ros_class(name, fields):
    import numpy as np
    kinds = dict(fields)

    class Msg:
        def __init__(self):
            for f, t in fields:
                m = re.fullmatch(r'(\w+)\[(\d+)\]', t)
                if not m:
                    v = False if t == 'boolean' else 0.0 if t in ('float', 'double') else 0
                elif m.group(1) == 'boolean':
                    v = BoolArray([False] * int(m.group(2)))
                else:
                    dt = {'float': 'float32', 'double': 'float64', 'octet': 'uint8'}.get(m.group(1), m.group(1))
                    v = np.zeros(int(m.group(2)), dtype=dt)
                object.__setattr__(self, f, v)

        def __setattr__(self, f, v):
            if f not in kinds:
                raise AttributeError(f)
            m = re.fullmatch(r'(\w+)\[(\d+)\]', kinds[f])
            if m:
                v = list(plain(x) for x in v)
                assert len(v) == int(m.group(2)), 'fixed size'
                for x in v:
                    check_scalar(m.group(1), x)
                cur = getattr(self, f)
                for i, x in enumerate(v):
                    cur[i] = x
                return
            check_scalar(kinds[f], v)
            object.__setattr__(self, f, v)

        @classmethod
        def get_fields_and_field_types(cls):
            return dict(kinds)

        def flat(self):
            res = []
            for f, t in fields:
                v = getattr(self, f)
                if '[' in t:
                    res += [[obs.text('%s[%d]' % (f, i)), ros_value(plain(x))] for i, x in enumerate(v)]
                else:
                    res.append([obs.text(f), ros_value(v)])
            return res
    Msg.__name__ = Msg.__qualname__ = name
    return Msg


def ros_value(v):
    if isinstance(v, bool):
        return ['?', int(v)] if False else ['i', list(int(v).to_bytes(16, 'little'))]
    return obs.value(v)


def ros(case, path, work):
    a = case['args']
    rec = {'topics': [], 'messages': [], 'open': 0, 'closed': 0}
    version = a['version']
    classes = {name_of(t['name']): ros_class(name_of(t['name']), [(name_of(f), name_of(ty)) for f, ty in t['fields']])
               for t in a['types']}
    px4 = types.ModuleType('px4_msgs')
    msgs = types.ModuleType('px4_msgs.msg')
    px4.msg = msgs
    for n, c in classes.items():
        setattr(msgs, n, c)
    rcl, ser = types.ModuleType('rclpy'), types.ModuleType('rclpy.serialization')
    rcl.serialization = ser

    class Blob:
        def __init__(self, m):
            self.kind, self.flat = type(m).__name__, m.flat()
    ser.serialize_message = Blob
    bag = types.ModuleType('rosbag2_py')
    as_tuple = tuple(int(x) for x in version.split('.'))

    class StorageOptions:
        def __init__(self, uri, storage_id=''):
            rec['uri'], rec['storage'] = str(uri), storage_id

    class ConverterOptions:
        def __init__(self, input_serialization_format, output_serialization_format):
            assert input_serialization_format == output_serialization_format == 'cdr'

    class TopicMetadata:
        if as_tuple >= (0, 25, 0):
            def __init__(self, id, name, type, serialization_format, offered_qos_profiles=(), type_description_hash=''):
                assert isinstance(id, int) and serialization_format == 'cdr'
                self.name, self.type = name, type
        else:
            def __init__(self, name, type, serialization_format, offered_qos_profiles=''):
                assert serialization_format == 'cdr'
                self.name, self.type = name, type

    class SequentialWriter:
        def open(self, s, c):
            assert isinstance(s, StorageOptions) and isinstance(c, ConverterOptions)
            rec['open'] = 1

        def create_topic(self, t):
            assert rec['open'] and isinstance(t, TopicMetadata) and isinstance(t.name, str)
            rec['topics'].append([obs.text(t.name), obs.text(t.type)])

        def _write(self, topic, m, ts):
            assert rec['open'], 'not open'
            assert type(ts) is int and isinstance(m, Blob)
            assert 0 <= ts < 1 << 63, 'time stamp'
            known = {bytes(n).decode(): bytes(t).decode() for n, t in rec['topics']}
            assert known[topic] == 'px4_msgs/msg/' + m.kind, 'topic'
            rec['messages'].append([obs.text(topic), list(ts.to_bytes(16, 'little')), m.flat])
        if as_tuple >= (0, 32, 0):
            def write(self, topic, m, ts, seq):
                assert type(seq) is int
                self._write(topic, m, ts)
        else:
            def write(self, topic, m, ts):
                self._write(topic, m, ts)

        def close(self):
            rec['closed'], rec['open'] = 1, 0
    bag.StorageOptions, bag.ConverterOptions = StorageOptions, ConverterOptions
    bag.TopicMetadata, bag.SequentialWriter = TopicMetadata, SequentialWriter
    import importlib.metadata as md
    real = md.version
    stubs = {'rclpy': rcl, 'rclpy.serialization': ser, 'rosbag2_py': bag, 'px4_msgs': px4, 'px4_msgs.msg': msgs}
    saved = {k: sys.modules.get(k) for k in list(stubs) + ['pyulog.ulog2ros2bag']}
    sys.modules.update(stubs)
    sys.modules.pop('pyulog.ulog2ros2bag', None)
    md.version = lambda p: version if p == 'rosbag2_py' else real(p)
    names = ','.join(name_of(n) for n in a['names']) if not a['all'] else None
    bag_name = name_of(a['bag']) or None
    try:
        if a.get('cli'):
            said = run_main('ulog2ros2bag', [path] + (['-o', bag_name] if bag_name else []) + (['-m', names] if names else [])
                     + (['--mcap'] if a.get('mcap') else []) + (['-v'] if a.get('verbose') else []) + ignore(case))
        else:
            mod = importlib.import_module('pyulog.ulog2ros2bag')
            text = io.StringIO()
            with contextlib.redirect_stdout(text):
                mod.convert_ulog2ros2bag(path, bag_name, bool(a.get('mcap')), names, *([] if case['strict'] else [True]))
            said = text.getvalue().encode('utf-8', 'surrogatepass')
    finally:
        md.version = real
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    # the summary (if its wording is the known one): numbers of topics and messages
    m = re.search(rb'with (\d+) topics and (\d+) messages\.\s*$', said)
    return {'said': [int(x) for x in m.groups()] if m else [], 'closed': rec['closed'], 'topics': rec['topics'], 'messages': rec['messages'], 'bag': obs.text(rec['uri']),
            'storage': obs.text(rec['storage']), 'file': obs.text(os.path.basename(path))}


# ---- texts and events --------------------------------------------------------------------
class StubEvent:
    def __init__(self, d, args):
        self.d, self.args = d, args

    def group(self):
        return self.d['group']

    def message(self):
        return self.d['message'] + ' ' + self.args.hex()


class StubParser:
    def __init__(self):
        self.defs, self.profile = {}, None

    def load_definitions(self, js):
        for d in js['defs']:
            self.defs[int(d['id'])] = d

    def set_profile(self, profile):
        self.profile = profile

    def parse(self, event_id, args):
        assert isinstance(args, bytes) and self.profile == 'dev'
        d = self.defs.get(int(event_id))
        return None if d is None else StubEvent(d, args)


def stub_parser():
    pkg, mod = types.ModuleType('pyulog.libevents_parse'), types.ModuleType('pyulog.libevents_parse.parser')
    pkg.__path__ = []
    pkg.parser = mod
    mod.Parser = StubParser
    sys.modules['pyulog.libevents_parse'] = pkg
    sys.modules['pyulog.libevents_parse.parser'] = mod


def event_defs(lst):
    return {'defs': [{'id': int.from_bytes(bytes(d['id']), 'little'), 'group': name_of(d['group']),
                      'message': name_of(d['message'])} for d in lst]}


def messages(case, path, work):
    from pyulog import ULog
    a = case['args']
    stub_parser()
    import urllib.request
    fetched = []

    class Response(io.BytesIO):
        pass

    def urlopen(url, *args, **kw):
        fetched.append(url)
        return Response(lzma.compress(json.dumps(event_defs(a['defaultdefs'])).encode()))
    real = urllib.request.urlopen
    urllib.request.urlopen = urlopen
    try:
        text = run_main('messages', [path] + ignore(case))
    finally:
        urllib.request.urlopen = real
    out = []
    for l in lines_of(text):
        m = re.fullmatch(rb'(\d+):(\d\d):(\d\d) (\S+): (.*)', l, re.S)
        if not m:
            raise Unparsable('line %r' % l)
        g = m.groups()
        out.append([hms(*g[:3]), list(g[3]), list(g[4])])
    return {'lines': out, 'events': logged_events(case, ULog(path, disable_str_exceptions=not case['strict']))}


# ---- API -----------------------------------------------------------------------------------
def logged_events(case, u):
    from pyulog import ULog
    from pyulog.px4_events import PX4Events
    a = case['args']
    ev = PX4Events()

    def callback(has_parser):
        # definitions that were already given may be kept by the caller
        return None if has_parser and a.get('cached') else event_defs(a['defaultdefs'])
    ev.set_default_json_definitions_cb(callback)
    for prev in a.get('prev', []):
        ev.get_logged_events(ULog(io.BytesIO(bytes(prev)), disable_str_exceptions=True))
    events = []
    for t, level, msg in ev.get_logged_events(u):
        s = int(t) // 1000000
        events.append([[s // 3600, s // 60 % 60, s % 60], obs.text(level), obs.text(msg)])
    return events


def events(case, u):
    stub_parser()
    return {'events': logged_events(case, u)}


@contextlib.contextmanager
def loaded(case, path, work):
    """the log object, from the file or through a database"""
    from pyulog import ULog
    if 'db' not in case:
        yield ULog(path, disable_str_exceptions=not case['strict'])
        return
    source = dbsource.Source(work)
    try:
        yield source.log(bytes(case['file']), case['db'], strict=case['strict'])
    finally:
        source.close()


def changes(case, u):
    before = [obs.dataset(d) for d in u.data_list]
    lists = []
    for d in u.data_list:
        for f in d.field_data:
            ch = d.list_value_changes(f.field_name)
            lists.append([obs.text(d.name), int(d.multi_id), obs.text(f.field_name),
                          [[obs.u64(t), obs.value(plain(v))] for t, v in ch]])
    return {'lists': lists, 'intact': int(before == [obs.dataset(d) for d in u.data_list])}


def lookup(case, u):
    from pyulog.px4 import PX4ULog
    before = obs.log(u)
    versions = []
    for k in case['args']['versions']:
        key = name_of(k)
        default = key == 'ver_sw_release' and case['args'].get('default')
        t = u.get_version_info() if default else u.get_version_info(key)
        s = u.get_version_info_str() if default else u.get_version_info_str(key)
        versions.append([k, [] if t is None else [int(x) for x in t], [] if s is None else obs.text(s)])
    p = PX4ULog(u)
    rc = []
    for c in case['args']['channels']:
        n = p.get_configured_rc_input_names(c)
        rc.append([c, [obs.text(x) for x in n or []], int(n is not None)])
    return {'versions': versions, 'mav': obs.text(p.get_mav_type()), 'estimator': obs.text(p.get_estimator()),
            'rc': rc, 'intact': int(before == obs.log(u))}


def attitude(case, u):
    import math
    from pyulog.px4 import PX4ULog
    before = [obs.dataset(d) for d in u.data_list]
    p = PX4ULog(u)
    if case['args'].get('messages'):
        p.add_roll_pitch_yaw([name_of(m) + (':_d' if bytes(m).endswith(b'setpoint') else '')
                              for m in case['args']['messages']])
    else:
        p.add_roll_pitch_yaw()
    angles = []
    for d in u.data_list:
        for suffix in ('', '_d'):
            names = [n + suffix for n in ('roll', 'pitch', 'yaw')]
            if any(n in d.data for n in names):
                cols = []
                for n in names:
                    col = []
                    for v in d.data.pop(n, []):
                        v = float(v)
                        col.append([1, round(v * 4096)] if math.isfinite(v) and abs(v) < 1000 else [0, 0])
                    cols.append(col)
                angles.append({'name': obs.text(d.name), 'multi': int(d.multi_id), 'suffix': obs.text(suffix),
                               'cols': cols})
    return {'angles': angles, 'intact': int(before == [obs.dataset(d) for d in u.data_list])}


TOOLS = dict(csv=csv, extract=extract, params=params, gps=gps, info=info, multi=multi, kml=kml, ros=ros,
             messages=messages)
API = dict(changes=changes, lookup=lookup, attitude=attitude, events=events)


def run_case(case, work):
    d = os.path.join(work, 'case')
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    path = os.path.join(d, case['args'].get('filename', 'log.ulg'))
    with open(path, 'wb') as f:
        f.write(bytes(case['file']))
    cwd = os.getcwd()
    os.chdir(d)
    try:
        with obs.time_limit(20):
            if case['tool'] in API:
                with loaded(case, path, work) as u:
                    res = API[case['tool']](case, u)
            else:
                res = TOOLS[case['tool']](case, path, d)
        res['outcome'] = 'ok'
        return res
    except dbsource.Unsavable:
        return {'outcome': 'unsavable'}
    except Exception as e:
        return obs.failed(e)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    obs.main(run_case)
