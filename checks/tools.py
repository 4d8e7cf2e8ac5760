"""C23-C33: the tools.  Their output on generated logs is judged by ULogTools (ToolsTrace)."""
import math
import random
import struct

import common
import ulogenc as U
from checks.reader import ASSUME
from genlog import F32, F64, Gen, Long, amount



def rng_for(prop, i):
    return random.Random('%s/%d/%d' % (prop, common.SEED, i))


class Build:
    """a log written message by message"""

    def __init__(self, start=1000000):
        self.start, self.defs, self.body, self.formats, self.ids = start, [], [], {}, {}

    def fmt(self, name, *fields):
        fields = [('uint64_t', 0, 'timestamp')] + [f if isinstance(f, tuple) and len(f) == 3 else (f[0], 0, f[1])
                                                   for f in fields]
        self.formats[name] = fields
        self.defs.append(U.fmt(name, fields))

    def sub(self, name, multi=0, at=None):
        i = len(self.ids)
        self.ids[name, multi] = i
        m = U.add(multi, i, name)
        self.body.insert(at if at is not None else len(self.body), m)

    def row(self, name, ts, values, multi=0):
        """values: per field of the format (without the time stamp) a number or a list"""
        raw = struct.pack('<Q', ts)
        for (t, n, _), v in zip(self.formats[name][1:], values):
            for x in (v if n else [v]):
                raw += U.scalar(t, x)
        return U.data(self.ids[name, multi], raw)

    def bytes(self):
        return U.header(self.start) + b''.join(self.defs) + b''.join(self.body)


def case(tool, data, args, strict=0, names=None):
    return {'tool': tool, 'file': list(data), 'args': args, 'strict': strict,
            'all': int(names is None), 'names': [list(n) for n in names or []]}


class SafeGen(Gen):
    """texts without line breaks and characters that a delimited file can hold"""

    def scalar(self, t):
        if t == 'char':
            r = self.rng
            return r.choice([b'\0', b'a', b'Z', b'7', b' ', b'"', b"'", b'\xc3', b'\xa9', b'\xff', b'\\', b'\r', b'x', b'y'])
        return Gen.scalar(self, t)

    def text(self):
        return Gen.text(self).replace(b'\n', b' ').replace(b'\r', b' ')

    def make_formats(self, log):
        Gen.make_formats(self, log)
        for n, fs in log.formats.items():
            if n not in log.topics:
                log.formats[n] = [f for f in fs if not f[2].startswith('_padding')] or [('float', 0, 'v')]


def windowed(rng, log):
    """two time limits in seconds, around and outside of the data"""
    base = log.start // 1000000
    pick = lambda: rng.choice([0, 0, base, base + 1, base + rng.randrange(1, 6), base + rng.randrange(1, 12),
                               base + 1000, max(0, base - 1)])
    return pick(), pick()


def data_log(rng, **kw):
    # time stamps often lie exactly on, just before and just behind a full second
    o = dict(n_topics=rng.choice([1, 2, 3]), n_data=rng.choice([6, 20, 40]), big_ts=False, invalid_text=0,
             start=rng.choice([0, 1000000, 3999999, 112500176, 7000000]), backward=rng.choice([0, .15, .4]),
             back=rng.choice([2000000, 2000000, 12000000]), steps=rng.choice([[500000, 999999, 1000000, 1000001, 1], [0, 250000, 250000, 10], [1000000]]),
             texts=rng.random() < .5, tagged=rng.random() < .3)
    o.update(kw)
    g = SafeGen(rng, **o)
    log = g.make()
    return g, log


def shuffle_names(rng, log):
    topics = sorted({n for _, _, n in log.subs})
    names = rng.sample(topics, rng.randrange(1, len(topics) + 1))
    if rng.random() < .3:
        names.append('not_there')
    if rng.random() < .3:
        names.append(topics[0][:-1] or 'zz')
    return [n.encode() for n in names]


STEMS = [('log.ulg', 'log'), ('LOG.ULG', 'LOG'), ('my.flight_1.ulg', 'my.flight_1'), ('a.ulg.ulg', 'a.ulg'), ('data', 'data')]


# ---- one generator per tool: (rng) -> case --------------------------------------------------
def gen_csv(rng):
    g, log = data_log(rng, bad_data=rng.choice([0, .05]))
    names = None if rng.random() < .5 else shuffle_names(rng, log)
    ts, te = windowed(rng, log) if rng.random() < .7 else (0, 0)
    fn, stem = rng.choice(STEMS)
    a = {'all': int(names is None), 'names': [list(n) for n in names or []], 'stem': list(stem.encode()), 'ts': ts,
         'te': te, 'delimiter': rng.choice([',', ',', ';', '\t', '|']), 'out': rng.choice([0, 0, 1, 2]),
         'cli': rng.choice([0, 1, 2]), 'filename': fn}
    return case('csv', log.bytes(), a, strict=int(rng.random() < .3), names=names)


def gen_extract(rng):
    g, log = data_log(rng, bad_data=rng.choice([0, .05]))
    topics = sorted({n for _, _, n in log.subs})
    topic = rng.choice(topics) if rng.random() < .9 else rng.choice(['not_there', topics[0] + 'x', topics[0][1:]])
    if not topic:
        topic = 'x'
    ts, te = windowed(rng, log) if rng.random() < .7 else (0, 0)
    return case('extract', log.bytes(), {'topic': list(topic.encode()), 'ts': ts, 'te': te},
                strict=int(rng.random() < .3), names=[topic.encode()])


def gen_params(rng):
    names = rng.sample(['MC_ROLL_P', 'SYS_AUTOSTART', 'A', 'BAT_CAP', 'MC_ROLL_PI', 'ZZ_TOP', 'a_lower', 'B1', 'B10', 'B2',
                        '_under', 'MC_ROLL'], rng.randrange(1, 9))
    g = Gen(rng, n_topics=1, n_data=4, infos=1, multis=1, params=0, defaults=0, big_ts=False, invalid_text=0,
            start=rng.choice([0, 1000000, 1 << 40]), steps=[0, 1, 1000, 1000000], backward=.2, texts=False)
    log = g.make()
    kind = {n: rng.choice(['int32_t', 'float']) for n in names}

    def value(n):
        if rng.random() < .02:
            kind[n] = rng.choice(['int32_t', 'float'])
        return kind[n], g.scalar(kind[n])
    at = next((i for i, m in enumerate(log.defs) if m[2:3] != b'B'), len(log.defs))
    for n in names:
        for _ in range(1 if rng.random() < .85 else 2):
            t, v = value(n)
            log.defs.insert(rng.randrange(at, len(log.defs) + 1), U.param(n, t, v))
    for n in rng.sample(names + ['ONLY_DEFAULT', 'Z2'], rng.randrange(0, 4)):
        for _ in range(rng.choice([1, 1, 2])):
            t, v = g.param_value()
            log.defs.insert(rng.randrange(at, len(log.defs) + 1), U.param_default(rng.choice([1, 2, 3]), n, t, v))
    k = next(i for i, m in enumerate(log.data) if m[2:3] == b'A') + 1
    for _ in range(amount(rng, [0, 2, 8])):
        n = rng.choice(names + ['NEW_ONE']) if rng.random() < .9 else 'NEW_ONE'
        t, v = g.param_value() if n == 'NEW_ONE' else value(n)
        log.data.insert(rng.randrange(k, len(log.data) + 1), U.param(n, t, v))
        if rng.random() < .5:
            log.data.insert(rng.randrange(k, len(log.data) + 1), U.logstr(54, log.start + rng.randrange(5000000), b'x'))
    a = {'format': rng.choice(['csv', 'csv', 'octave', 'qgc']), 'initial': int(rng.random() < .3),
         'timestamps': int(rng.random() < .4), 'group': rng.choice([2, 2, 2, 0, 1]), 'tofile': int(rng.random() < .4),
         'delimiter': rng.choice([',', ',', ';', '\t', '|'])}
    # only the initial parameters: the tool loads no topic
    return case('params', log.bytes(), a, strict=int(rng.random() < .3), names=[] if a['initial'] else None)


def gen_gps(rng):
    b = Build(rng.choice([0, 5000000]))
    n = rng.choice([1, 5, 8, 79, 79, 127])
    fs = [('uint8_t', n, 'data'), ('uint8_t', 'len')]
    if rng.random() < .7:
        fs.insert(rng.randrange(3), ('uint8_t', 'instance'))
    if rng.random() < .4:
        fs.insert(rng.randrange(len(fs) + 1), ('uint32_t', 'device_id'))
    if rng.random() < .1:       # not the layout of a dump
        i, wrong = rng.choice([(0, ('uint8_t', 'data')), (0, ('uint8_t', n, 'dat')), (0, ('uint8_t', n, 'data_')), (-1, ('uint8_t', 'length')),
                               (-1, ('uint8_t', 2, 'len'))])
        k = fs.index(('uint8_t', n, 'data') if i == 0 else ('uint8_t', 'len'))
        fs[k] = wrong
    b.fmt('gps_dump', *fs)
    b.fmt('gps_dump2', ('uint8_t', 'len'), ('uint8_t', 2, 'data'))
    here = rng.random() < .95
    if here:
        b.sub('gps_dump')
    if rng.random() < .3:
        b.sub('gps_dump2')
    t = b.start
    back, damaged = rng.random() < .35, rng.random() < .2
    order = [f[1] if len(f) == 2 else f[2] for f in fs]
    for _ in range(amount(rng, [1, 6, 30])):
        t += rng.choice([0, 1000, 200000])
        if not here:
            break
        if back and rng.random() < .3:      # a sample with an earlier time stamp: the order of the file counts
            t = max(b.start, t - rng.choice([1, 1000, 500000]))
        if damaged and rng.random() < .2:   # a data message of an unknown message id
            b.body.append(U.data(99, bytes(12)))
        k = rng.choice([0, 1, n, n, rng.randrange(n + 1)])
        v = {'instance': rng.choice([0, 0, 1, 1, 2, 255]), 'data': list(rng.randbytes(n)),
             'len': k + rng.choice([0, 128]), 'device_id': rng.randrange(1 << 32)}
        vals = [v.get(o, 1) if len(f) == 2 else v.get(o, v['data']) for o, f in zip(order, fs)]
        if ('uint8_t', 2, 'len') in fs or ('uint8_t', 'data') in fs:
            vals = [[1] * f[1] if len(f) == 3 else v['instance'] if f[1] == 'instance' else 1 for f in fs]
        b.body.append(b.row('gps_dump', t, vals))
        if ('gps_dump2', 0) in b.ids and rng.random() < .3:
            b.body.append(b.row('gps_dump2', t, [2, [7, 7]]))
        if rng.random() < .1:
            b.body.append(U.dropout(10))
        if rng.random() < .1:
            b.body.append(U.logstr(54, t, b'text'))
    a = {'instance': rng.choice([0, 0, 1, 2, 255]), 'explicit': rng.randrange(2), 'out': rng.randrange(2),
         'filename': rng.choice(['log.ulg', 'LOG.ULG', 'x.y.ulg', 'a_log', 'x.bin', 'ulg', 'aulg'])}
    return case('gps', b.bytes(), a, strict=int(rng.random() < .5), names=[b'gps_dump'])


VERSION_WORDS = [0, 0x01020300, 0x01020340, 0x0102037f, 0x01020380, 0x010203bf, 0x010203c0, 0x010203fe, 0x010203ff,
                 0xff00ff40, 0x00000140, 0x0a0b0cff, 0xffffffff, 0x01]


def gen_info(rng):
    kw = dict(n_topics=rng.choice([1, 3, 5]), n_data=rng.choice([6, 30]), big_ts=False, infos=6, multis=8,
              start=rng.choice([0, 1, 59999999, 60000000, 3599999999, 3600000000, 112500176, 360000000000]),
              steps=rng.choice([[999999, 1000000, 1, 59000000], [0, 10, 1000], [3600000000, 1], [86400000000, 3599999999, 500000]]), backward=.1,
              bad_data=rng.choice([0, .03]), invalid_text=rng.choice([0, 0, .1]))
    if rng.random() < .15:      # an empty log
        kw['n_data'] = 0
    g = SafeGen(rng, **kw)
    log = g.make()
    if rng.random() < .6:
        log.defs.append(U.info(rng.choice(['uint32_t', 'uint32_t', 'int32_t']), 'ver_sw_release',
                               struct.pack('<I', rng.choice(VERSION_WORDS))))
    else:
        log.defs = [m for m in log.defs if b'ver_sw_release' not in m]
        log.data = [m for m in log.data if m[2:3] not in (b'I', b'M') or b'ver_sw_release' not in m]
    # only integers for the version
    keep = lambda m: not (m[2:3] == b'I' and b' ver_sw_release' in m
                          and not m[4:].startswith((b'uint32_t ver', b'int32_t ver')))
    log.defs, log.data = list(filter(keep, log.defs)), list(filter(keep, log.data))
    for k in rng.sample(['perf_counter_preflight-00', 'perf_', 'xperf_a', 'perfect', 'perf', 'Perf_x'], rng.randrange(4)):
        log.defs.append(U.info_str(k, 'v'))
    data = log.bytes()
    if rng.random() < .3:       # damage
        from checks.reader import damaged
        data = damaged(rng, log)
    return case('info', data, {'verbose': int(rng.random() < .3)}, strict=int(rng.random() < .2))


def gen_multi(rng):
    g = SafeGen(rng, n_topics=1, n_data=2, infos=1, multis=0, params=1, defaults=0)
    log = g.make()
    # one type per key
    log.defs, log.data = ([m for m in ms if m[2:3] != b'M'] for ms in (log.defs, log.data))
    keys = rng.sample(['boot_console_output', 'perf_top', 'hardfault_plain', 'k', 'numbers', 'b'], rng.randrange(1, 4))
    types = {k: rng.choice(['char', 'char', 'bytes', 'uint32_t', 'int16_t', 'int64_t', 'uint8_t']) for k in keys}
    msgs = []
    for _ in range(amount(rng, [1, 4, 9])):
        k = rng.choice(keys)
        t = types[k]
        if t == 'char':
            v = Gen.text(g) if rng.random() < .8 else b'line1\nline2\n'
            msgs.append(U.multi(rng.random() < .5, 'char[%d]' % len(v), k, v))
        elif t == 'bytes':
            v = rng.randbytes(rng.choice([0, 1, 5, 40]))
            msgs.append(U.multi(rng.random() < .5, 'uint8_t[%d]' % len(v), k, v))
        else:
            msgs.append(U.multi(rng.random() < .5, t, k, g.scalar(t)))
    cut = rng.randrange(len(msgs) + 1)
    log.defs += msgs[:cut]
    log.data += msgs[cut:]
    key = rng.choice(keys) if rng.random() < .92 else 'none_such'
    return case('multi', log.bytes(), {'key': list(key.encode()), 'newline': rng.randrange(2)}, strict=int(rng.random() < .2))


def kml_style(rng, a, plain):
    """how the lines look (width 0, extrude 0: not given; extrude 2: off)"""
    a.update(list=rng.randrange(2), own=rng.randrange(2), width=rng.choice([0, 0, 1, 7]), extrude=rng.choice([0, 0, 1, 2]), cli=0)
    if plain and rng.random() < .5:
        a.update(cli=1, own=0, width=0, extrude=0)


def gen_kml(rng):
    interval = rng.choice([100000, 100000, 100000, 1000000, 0, 250000, 1])
    b = Build(rng.choice([2000000, 112500176]))
    kinds = rng.sample(['gps', 'global', 'gpsd'], rng.choice([1, 1, 2, 3]))
    exact = rng.random() < .4           # altitudes to which an offset can be added exactly
    offset = 0
    coord = rng.choice(['double', 'double', 'double', 'float'])
    names = {'gps': 'vehicle_gps_position', 'global': 'vehicle_global_position', 'gpsd': 'sensor_gps'}
    fix = {k: rng.random() < .7 for k in kinds}
    for k in kinds:
        extra = [('uint8_t', 'fix_type')] if fix[k] and k != 'global' else []
        if k == 'gps':
            fs = [('int32_t', 'lat'), ('int32_t', 'lon'), ('int32_t', 'alt')]
        elif k == 'global':
            fs = [(coord, 'lat'), (coord, 'lon'), ('float', 'alt')]
        else:
            fs = [('double', 'latitude_deg'), ('double', 'longitude_deg'), ('double', 'altitude_msl_m')]
        fs = fs + extra
        rng.shuffle(fs)
        b.fmt(names[k], *fs)
    if exact and 'gpsd' not in kinds:
        offset = rng.choice([0, 5, -3, 100])
    status = rng.random() < .85
    nav = rng.random() < .92
    b.fmt('vehicle_status', ('uint8_t', 'arming_state'), ('uint8_t', 'nav_state' if nav else 'main_state'))
    camera = rng.random() < .5
    if rng.random() < .5:
        b.fmt('camera_capture', ('uint32_t', 'seq'), ('double', 'lat'), ('double', 'lon'), ('float', 'alt'))
    else:
        b.fmt('camera_capture', ('uint32_t', 'seq'), ('double', 'latitude_deg'), ('double', 'longitude_deg'),
              ('float', 'altitude_msl_m'))
    for k in kinds:
        b.sub(names[k])
        if rng.random() < .2:
            b.sub(names[k], 1)
    if status:
        b.sub('vehicle_status')
        b.body.append(b.row('vehicle_status', b.start + rng.choice([0, 150000]), [1, rng.choice([0, 3, 14])]))
    if camera:
        cams = rng.choice([[0], [0], [0], [0, 1], [1, 0], [1]])
        for k in cams:
            b.sub('camera_capture', k)
    t = b.start
    mode = 0
    steps = [interval, interval + 1, max(0, interval - 1), interval // 2, interval // 3 + 1, interval * 3 + 7, 0, 50000, 200000]

    near = rng.random() < .15           # integer coordinates that could be degrees

    def coords(k):
        f = lambda v: round(v * 8) / 8
        if k == 'gps':
            far = near == 0
            return {'lat': rng.randrange(-900000000, 900000000) if far else rng.randrange(-90, 90),
                    'lon': rng.randrange(-1800000000, 1800000000) if far else rng.randrange(-180, 180),
                    'alt': rng.choice([0, -50000, 488123, rng.randrange(-10 ** 6, 10 ** 7)])}
        lat, lon = rng.uniform(-90, 90), rng.choice([rng.uniform(-180, 180), 8.54559, 1e-7, 0.0])
        alt = f(rng.uniform(-400, 4000)) if exact else rng.uniform(-400, 9000)
        return {'lat': lat, 'lon': lon, 'alt': alt, 'latitude_deg': lat, 'longitude_deg': lon, 'altitude_msl_m': alt}
    for _ in range(amount(rng, [4, 15, 40])):
        t += rng.choice(steps)
        x = rng.random()
        if x < .25 and status:
            mode = rng.choice([mode, 0, 1, 2, 3, 14, 17, 18, 19, 200, 255])
            b.body.append(b.row('vehicle_status', t, [rng.randrange(3), mode]))
            if rng.random() < .3:       # a second change before the next position
                t += rng.choice([0, 1, 1000])
                b.body.append(b.row('vehicle_status', t, [1, rng.randrange(20)]))
        elif x < .4 and camera:
            b.body.append(b.row('camera_capture', t, multi=rng.choice(cams), values=[rng.choice([0, 7, 4294967295, rng.randrange(1000)]),
                                                      rng.uniform(-90, 90), rng.uniform(-180, 180),
                                                      round(rng.uniform(0, 500) * 8) / 8]))
        for k in kinds:
            if rng.random() < .8:
                c = dict(coords(k), fix_type=rng.choice([0, 2, 3, 3, 3, 4, 5, 6]))
                vals = [c[f[2]] for f in b.formats[names[k]][1:]]
                multi = 1 if (names[k], 1) in b.ids and rng.random() < .3 else 0
                b.body.append(b.row(names[k], t, vals, multi))
    topics = [names[k] for k in kinds]
    if rng.random() < .05:
        topics = topics + ['missing_topic']
    a = {'topics': [list(x.encode()) for x in topics],
         'camera': list((b'camera_capture' if rng.random() < .95 else b'no_camera') if rng.random() < .8 else b''),
         'interval': interval, 'offset': offset}
    kml_style(rng, a, len(topics) == 1 and interval == 100000 and offset == 0)
    return case('kml', b.bytes(), a, strict=int(rng.random() < .3),
                names=[x.encode() for x in topics] + [b'vehicle_status'] + ([bytes(a['camera'])] if a['camera'] else []))


ROS = {'int8_t': 'int8', 'uint8_t': 'uint8', 'int16_t': 'int16', 'uint16_t': 'uint16', 'int32_t': 'int32',
       'uint32_t': 'uint32', 'int64_t': 'int64', 'uint64_t': 'uint64', 'float': 'float', 'double': 'double',
       'bool': 'boolean', 'char': 'uint8'}
DIRECT = {'sensor_accel': 'SensorAccel', 'sensor': 'Sensor', 'battery_status': 'BatteryStatus', 'a': 'A', 'wind': 'Wind',
          'vehicle_attitude': 'VehicleAttitude', 'home_position': 'HomePosition', 'e_1': 'E1'}
STEMS_OF = {
    'ActuatorControlsStatus': ['actuator_controls_status_0', 'actuator_controls_status_9', 'actuator_controls_status_10',
                               'actuator_controls_status_'],
    'ActuatorOutputs': ['actuator_outputs', 'actuator_outputs_sim', 'actuator_outputs2'],
    'ConfigOverrides': ['config_overrides', 'config_overrides_request'],
    'EstimatorAidSource1d': ['estimator_aid_src_' + x for x in ['gnss_yaw', 'ev_yaw', 'fake_hgt', 'airspeed', 'sideslip',
                                                                'baro_hgt', 'rng_hgt', '_hgt', 'hgt']],
    'EstimatorAidSource2d': ['estimator_aid_src_' + x for x in ['drag', 'aux_vel', 'optical_flow', 'gnss_pos', 'fake_pos',
                                                                'aux_global_position', 'pos']],
    'EstimatorAidSource3d': ['estimator_aid_src_' + x for x in ['ev_vel', 'gnss_vel', 'gravity', 'mag', 'mag2', 'vel']],
    'EstimatorBias3d': ['estimator_ev_pos_bias'], 'EstimatorBias': ['estimator_baro_bias', 'estimator_gnss_hgt_bias'],
    'EstimatorInnovations': ['estimator_innovation', 'estimator_innovations', 'estimator_innovation_variances'],
    'Px4ioStatus': ['px4io_status'], 'SensorGps': ['vehicle_gps_position'],
    'SensorsStatus': ['sensors_status_baro', 'sensors_status_', 'sensors_status'],
    'VehicleAngularVelocity': ['vehicle_angular_velocity', 'vehicle_angular_velocity_groundtruth'],
    'VehicleAttitude': ['vehicle_attitude_groundtruth', 'estimator_attitude', 'attitude', 'xattitude', 'attitude_groundtruth'],
    'VehicleAttitudeSetpoint': ['mc_virtual_attitude_setpoint', 'vehicle_attitude_setpoint', 'attitude_setpoint'],
    'VehicleCommand': ['gimbal_v1_command', 'vehicle_command', 'vehicle_command_ack', '_command', 'x_commander'],
    'VehicleControlMode': ['a_control_b', 'vehicle_control_mode', 'vehicle_control_', '_control_x', 'offboard_control_mode_x'],
    'VehicleGlobalPosition': [x + '_global_position' + y for x in ['aux', 'estimator', 'vehicle', 'external_ins', 'other']
                              for y in ['', '_groundtruth', '2']],
    'VehicleLocalPosition': ['vehicle_local_position', 'vehicle_local_position_groundtruth', 'estimator_local_position',
                             '_local_position'],
    'VehicleOdometry': ['estimator_odometry', 'vehicle_visual_odometry', '_odometry', 'odometry'],
    'VehicleOpticalFlowVel': ['estimator_optical_flow_vel', 'vehicle_optical_flow_vel', 'x_optical_flow_vel'],
    'VehicleThrustSetpoint': ['vehicle_thrust_setpoint', 'vehicle_thrust_setpoint_virtual_fw'],
    'VehicleTorqueSetpoint': ['vehicle_torque_setpoint', 'vehicle_torque_setpoint_virtual_mc'],
    'Wind': ['wind', 'estimator_wind', 'wind_x', 'xwind', 'estimator_estimator_wind'],
}
for _n, _t in [('estimator_innovation_attitude', 'EstimatorInnovations'), ('sensors_status_attitude', 'SensorsStatus'),
               ('actuator_outputs_command', 'ActuatorOutputs'), ('attitude_control_command', 'VehicleCommand'),
               ('estimator_baro_bias_odometry', 'EstimatorBias'), ('attitude_optical_flow_vel', 'VehicleOpticalFlowVel'),
               ('vehicle_command_control_x', 'VehicleCommand')]:
    STEMS_OF[_t].append(_n)         # several rules match: the first one counts
MAPPED = {n: t for t, ns in STEMS_OF.items() for n in ns}


def vary(rng, n):
    """the name or something close to it"""
    x = rng.random()
    if x < .7:
        return n
    if x < .8:
        return n + rng.choice(['2', 's', '_x', '_groundtruth', '_setpoint', '_'])
    if x < .9:
        return rng.choice(['x', 'estimator_', 'x_', '_']) + n
    k = rng.randrange(len(n))
    return n[:k] + n[k + 1:] if len(n) > 3 else n


UNMAPPED = ['zz_unknown', 'sensor_x', 'unheard']


class RosGen(Gen):
    def scalar(self, t):
        if t == 'char':
            return bytes([self.rng.randrange(128)])
        if t == 'bool' and self.rng.random() < .2:
            return bytes([self.rng.choice([0, 1, 2, 255])])
        return Gen.scalar(self, t)


def gen_ros(rng):
    g = RosGen(rng, n_topics=1, n_data=1)
    b = Build(rng.choice([0, 1000000, 1 << 45, (1 << 52) + 1]))
    topics = rng.sample(sorted(DIRECT), rng.randrange(1, 3)) + rng.sample(sorted(MAPPED), rng.randrange(0, 3))
    topics += rng.sample(UNMAPPED, rng.randrange(0, 2))
    type_of = dict(MAPPED, **DIRECT)
    renamed = {}
    for n in topics:
        renamed.setdefault(vary(rng, n), type_of.get(n))
    topics = list(renamed)
    rng.shuffle(topics)
    types = {}
    b.defs.append(U.fmt('inner_t', [('float', 0, 'v')]))
    streams = []
    shared = {}
    for n in topics:
        ty = renamed[n]
        if ty in shared:
            fs = shared[ty]
        else:
            fs = [f for f in g.fields([], rng.randrange(1, 6)) if f[2] not in ('timestamp',)]
            shared[ty] = fs
        composed = rng.random() < .12
        layout = list(fs)
        rng.shuffle(layout)
        # the topic may lack a field of the message type
        if len(layout) > 1 and rng.random() < .15:
            layout.pop()
        full = [('uint64_t', 0, 'timestamp')] + layout + ([('inner_t', 0, 'nested')] if composed else [])
        if rng.random() < .3:
            full.append(('uint8_t', 3, '_padding0'))
        b.formats[n] = full
        b.defs.append(U.fmt(n, full))
        if ty:
            rf = [['timestamp', 'uint64']]
            for t, size, f in fs:
                kind = ROS[t]
                if t == 'int8_t' and rng.random() < .3:
                    kind = 'boolean'
                rf.append([f, kind + ('[%d]' % size if size else '')])
            if composed:
                rf.append(['nested', 'uint8'])
            if rng.random() < .2:
                rf.append(['extra_of_ros', 'float'])
            if rng.random() < .12 and len(rf) > 2:
                rf.pop(rng.randrange(1, len(rf)))       # the definition does not match
            if ty not in types:
                types[ty] = rf
        for multi in rng.choice([[0], [0], [0, 1], [1], [0, 1, 3], [2, 0]]):
            i = len(streams)
            streams.append((n, multi, i))
            b.body.append(U.add(multi, i, n))
    rng.shuffle(streams)
    t = b.start
    for _ in range(amount(rng, [3, 15, 30])):
        n, multi, i = rng.choice(streams)
        t += rng.choice([0, 1, 1000, 123456])
        raw = struct.pack('<Q', t)
        for ty, size, f in b.formats[n][1:]:
            if f.startswith('_padding'):
                continue
            for _ in range(max(1, size)):
                raw += g.scalar(ty) if ty in U.SIZE else struct.pack('<f', 1.5)
        b.body.append(U.data(i, raw))
    names = None
    if rng.random() < .3:
        names = rng.sample(topics, rng.randrange(1, len(topics) + 1)) + rng.choice([[], ['none']])
    # px4_msgs lacks the type a topic maps to
    if types and rng.random() < .15:
        types.pop(rng.choice(sorted(types)))
    # declared types that no topic uses
    for ty in rng.sample(['VehicleControlMode', 'SensorBaro', 'VehicleAttitude'], rng.randrange(0, 2)):
        types.setdefault(ty, [['timestamp', 'uint64']])
    e = lambda s: list(s.encode())
    a = {'all': int(names is None), 'names': [e(n) for n in names or []],
         'types': [{'name': e(k), 'fields': [[e(f), e(t)] for f, t in v]} for k, v in types.items()],
         'version': rng.choice(['0.15.1', '0.15.9', '0.25.0', '0.26.0', '0.31.9', '0.32.0', '0.33.0']),
         'cli': rng.randrange(2), 'mcap': rng.randrange(2), 'verbose': rng.randrange(2),
         'bag': rng.choice([[], e('my_bag'), e('out/b.c')]), 'filename': rng.choice(['log.ulg', 'flight.1.ulg', 'a.ulg.ulg', 'ulg', 'aulg', 'b.txt'])}
    return case('ros', b.bytes(), a, strict=int(rng.random() < .3), names=[n.encode() for n in names] if names else None)


def make_defs(rng, ids, tag):
    out = []
    for i in ids:
        if rng.random() < .75:
            out.append({'id': list(struct.pack('<I', i)), 'group': list(rng.choice([b'default', b'default', b'default', b'calibration',
                                                                                   b'health', b'', b'Default'])),
                        'message': list(('%s %d' % (tag, i % 1000)).encode())})
    return out


def metadata(rng, defs, hash_text):
    import json
    import lzma
    js = {'defs': [{'id': int.from_bytes(bytes(d['id']), 'little'), 'group': bytes(d['group']).decode(),
                    'message': bytes(d['message']).decode()} for d in defs]}
    blob = lzma.compress(json.dumps(js).encode())
    parts, at = [], 0
    while at < len(blob):
        n = rng.choice([1, 40, 60, 200])
        parts.append(blob[at:at + n])
        at += n
    if len(parts) > 12:
        parts = parts[:11] + [b''.join(parts[11:])]
    out = [U.multi(k > 0, 'uint8_t[%d]' % len(p), 'metadata_events', p) for k, p in enumerate(parts)]
    if hash_text is not None:
        out.append(U.info_str('metadata_events_sha256', hash_text))
    return out


def event_log(rng, ids, own, logdefs, px4=True):
    b = Build(rng.choice([0, 3599000000, 1000000]))
    if px4:
        b.defs.append(U.info_str('sys_name', 'PX4'))
    elif rng.random() < .7:
        b.defs.append(U.info_str('sys_name', rng.choice(['Other', 'px4', 'PX4 ', ''])))
    if own:
        good = ['ab12' * 16, 'ab12' * 16, 'F' * 63, 'ab12' * 10, '7', 'A1z'][rng.randrange(6)]
        h = good if own == 1 else rng.choice([None, 'x' * 65, 'not-alnum!', '../etc', ''])
        b.defs += metadata(rng, logdefs, h)
    nargs = rng.choice([0, 1, 3, 10, 12, 25])
    fs = [('uint32_t', 'id'), ('uint16_t', 'event_sequence')]
    if nargs:
        fs.append(('uint8_t', nargs, 'arguments'))
    fs.append(('uint8_t', 'log_levels'))
    b.fmt('event', *fs)
    b.fmt('filler', ('float', 'x'))
    with_events = rng.random() < .9
    if with_events:
        b.sub('event')
    if rng.random() < .5:
        b.sub('filler')
    t = b.start
    seq = 0
    g = SafeGen(rng, n_topics=1)
    for _ in range(amount(rng, [3, 12, 30])):
        t += rng.choice([0, 0, 1, 400000, 1000000, 61000000])
        if rng.random() < .25:      # around a full second, minute or hour
            unit = rng.choice([1000000, 1000000, 60000000, 3600000000])
            t = (t // unit + 1) * unit - rng.choice([0, 1, 1, 2, 400])
        when = max(0, t - rng.choice([0, 0, 0, 0, 1000, 1500000]))
        if rng.random() < .5 and with_events:
            level = rng.choice([0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 9, 10, 15])
            v = [rng.choice(ids), seq & 0xffff] + ([list(rng.randbytes(nargs))] if nargs else []) \
                + [level * 16 + rng.randrange(16)]
            seq += 1
            b.body.append(b.row('event', when, v))
        elif rng.random() < .8:
            s = g.text()
            if rng.random() < .3:
                s = s.rstrip() + b'\t'
            if rng.random() < .1:
                s = rng.choice([b'\t', b'', b'a\tb', b'x\t '])
            b.body.append(U.logstr(rng.choice(b'01234567') if rng.random() < .9 else rng.randrange(256), when, s))
        elif ('filler', 0) in b.ids:
            b.body.append(b.row('filler', when, [1.0]))
    return b.bytes()


def gen_messages(rng):
    ids = rng.sample([1, 2, 3, 0x01000001, 0xffffffff, 0x80000000, 1234567, 4000000000], rng.randrange(1, 6))
    px4 = rng.random() < .8
    own = rng.choice([0, 0, 1, 1, 2])
    logdefs, default = make_defs(rng, ids, 'own'), make_defs(rng, ids, 'default')
    data = event_log(rng, ids, own, logdefs, px4)
    a = {'logdefs': logdefs, 'defaultdefs': default, 'cached': rng.randrange(2), 'prev': []}
    if rng.random() < .4:
        other = make_defs(rng, ids, 'earlier')
        a['prev'] = [list(event_log(rng, ids, rng.choice([0, 1]), other)) for _ in range(rng.choice([1, 2]))]
    return case('messages', data, a, strict=int(rng.random() < .2), names=[b'event'])


class FewGen(SafeGen):
    """values that repeat"""

    def scalar(self, t):
        r = self.rng
        n = U.SIZE[t]
        if t == 'float':
            return struct.pack('<I', r.choice(F32[5:8] + [0, 0x3f800001, 0x7f800000, 0x7f800000, 0xff800000]))
        if t == 'double':
            return struct.pack('<Q', r.choice(F64[5:8] + [0, 0x3fb999999999999b, 0x7ff0 << 48, 0xfff0 << 48]))
        if t in ('bool', 'char'):
            return bytes([r.randrange(2)])
        return r.choice([b'\0' * n, b'\xff' * n, b'\x01' + b'\0' * (n - 1), b'\0' * (n - 1) + b'\x80',
                         b'\xfe' + b'\xff' * (n - 1)])


def gen_changes(rng):
    g = FewGen(rng, n_topics=rng.choice([1, 2]), n_data=rng.choice([5, 25]), start=rng.choice([0, 0, 5, 1000]),
               steps=rng.choice([[0, 0, 1], [1, 1000], [0, 0, 0, 0, 10]]), backward=rng.choice([0, .3]), texts=False,
               tagged=False, dropouts=False, multis=0, infos=0, params=0, defaults=0, max_array=2, big_arrays=False)
    log = g.make()
    if rng.random() < .3:       # only zero time stamps
        log.data = [m if m[2:3] != b'D' else m for m in log.data]
    return case('changes', log.bytes(), {'x': 0})


def gen_lookup(rng):
    b = Build(0)
    b.fmt('t', ('float', 'x'))
    b.sub('t')
    b.body.append(b.row('t', 5, [1.0]))
    rows = []
    if rng.random() < .85:
        rows.append(('MAV_TYPE', rng.randrange(-1, 31) if rng.random() < .9 else rng.choice([255, -2, 2147483647])))
    if rng.random() < .7:
        rows.append(('SYS_MC_EST_GROUP', rng.choice([0, 1, 2, 3, 4, -1, 100, -2147483648])))
    for k in rng.sample(['RC_MAP_ROLL', 'RC_MAP_PITCH', 'RC_MAP_YAW', 'RC_MAP_THROTTLE', 'RC_MAP_AUX1', 'RC_MAP_MODE_SW',
                         'RC_MAP_', 'RC_MAPX', 'XRC_MAP_A', 'rc_map_low', 'RC_MAP_aBc'], rng.randrange(0, 8)):
        rows.append((k, rng.choice([0, 1, 1, 2, 3, 4, 5, 18, -1])))
    if rng.random() < .3:
        rows.append((rng.choice(['MAV_TYPE_X', 'SYS_MC_EST', 'OTHER']), 1))
    rng.shuffle(rows)
    for k, v in rows:
        b.defs.append(U.param(k, 'int32_t', struct.pack('<i', v)))
    # in-flight changes do not count
    if rng.random() < .4:
        b.body.append(U.param(rng.choice(['MAV_TYPE', 'RC_MAP_ROLL', 'SYS_MC_EST_GROUP']), 'int32_t', struct.pack('<i', 3)))
    keys = ['ver_sw_release', 'ver_os', 'ver_other']
    for k in keys:
        if rng.random() < .7:
            w = rng.choice(VERSION_WORDS) if rng.random() < .7 else rng.randrange(1 << 32)
            b.defs.append(U.info(rng.choice(['uint32_t', 'uint32_t', 'int32_t', 'uint64_t']), k, struct.pack('<I', w) if True else b'')
                          if rng.random() < 2 else b'')
    b.defs = [fix_u64(m) for m in b.defs]
    return case('lookup', b.bytes(), {'versions': [list(k.encode()) for k in keys], 'default': rng.randrange(2),
                                      'channels': [0, 1, 2, 3, 4, 17, -1]})


def fix_u64(m):
    """a uint64_t information message needs eight bytes"""
    if m[2:3] == b'I' and m[4:].startswith(b'uint64_t ver'):
        return U.msg('I', m[3:] + b'\0' * 4)
    return m


def quat(rng):
    """unit quaternions, many of them where the angles are special"""
    x = rng.random()
    r, p, y = (rng.uniform(-math.pi, math.pi) for _ in range(3))
    p /= 2
    if x < .25:
        p = rng.choice([1, -1]) * math.pi / 2
    elif x < .4:        # close to the singularity
        p = rng.choice([1, -1]) * (math.pi / 2 - rng.choice([1e-5, 1e-4, 5e-4, 9e-4, 1.1e-3, 2e-3, 5e-3, 2e-2]))
    elif x < .55:
        r, p, y = (rng.choice([0, math.pi / 2, -math.pi / 2, math.pi, -math.pi, math.pi / 4]) for _ in range(3))
        p = max(-math.pi / 2, min(math.pi / 2, p))
    elif x < .65:
        return rng.choice([(1., 0., 0., 0.), (0., 1., 0., 0.), (0., 0., 1., 0.), (0., 0., 0., 1.),
                           (math.sqrt(.5), 0., math.sqrt(.5), 0.), (-1., 0., 0., 0.)])
    cr, sr, cp, sp, cy, sy = (f(v / 2) for v in (r, p, y) for f in (math.cos, math.sin))
    q = (cr * cp * cy + sr * sp * sy, sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy)
    s = rng.choice([1, -1])
    return tuple(s * v for v in q)


def gen_attitude(rng):
    b = Build(0)
    names = [('vehicle_attitude', 'q'), ('vehicle_vision_attitude', 'q'), ('vehicle_attitude_groundtruth', 'q'),
             ('vehicle_attitude_setpoint', 'q_d'), ('vehicle_attitude_x', 'q')]
    use = rng.sample(names, rng.randrange(1, 4))
    for n, f in use:
        fs = [('float', 4, f)]
        if rng.random() < .4:
            fs.insert(rng.randrange(2), ('float', 'rollspeed'))
        b.fmt(n, *fs)
        for multi in rng.choice([[0], [0, 1], [1], [0, 1, 2]]):
            b.sub(n, multi)
    t = 1000
    keys = sorted(b.ids)
    for _ in range(amount(rng, [1, 6, 20])):
        t += rng.choice([0, 4000])
        n, multi = rng.choice(keys)
        vals = [list(quat(rng)) if f[1] == 4 else 0.5 for f in b.formats[n][1:]]
        b.body.append(b.row(n, t, vals, multi))
    some = [] if rng.random() < .6 else [list(n.encode()) for n, _ in rng.sample(names[:4], rng.randrange(1, 4))]
    return case('attitude', b.bytes(), {'messages': some})


GENERATORS = {'C23': [(gen_csv, 1)], 'C24': [(gen_extract, 1)], 'C25': [(gen_params, 1)], 'C26': [(gen_gps, 1)],
              'C27': [(gen_info, .8), (gen_multi, .2)], 'C28': [(gen_kml, 1)], 'C29': [(gen_ros, 1)],
              'C30': [(gen_messages, 1)], 'C31': [(gen_changes, 1)], 'C32': [(gen_lookup, 1)], 'C33': [(gen_attitude, 1)]}
N_RANDOM = {'C23': 200, 'C24': 250, 'C25': 300, 'C26': 200, 'C27': 250, 'C28': 250, 'C29': 250, 'C30': 250, 'C31': 300,
            'C32': 400, 'C33': 200}


def random_case(prop, i):
    rng = rng_for(prop, i)
    x = rng.random()
    for f, share in GENERATORS[prop]:
        if x < share:
            break
        x -= share
    return f(rng)


def judge(ctx, cases):
    res = common.run_impl(ctx, 'exec_tools.py', cases)
    good, ins, open_ = [], [], 0
    for c, r in zip(cases, res):
        if r is None:
            ctx.violation('the implementation gave no answer (crash or hang)', c)
        elif r['outcome'] == 'unsavable':
            open_ += 1
        else:
            good.append(dict(c, obs=r))
            ins.append(c)
    for c, g, v in zip(ins, good, common.tlc_verdicts(ctx, 'ToolsTrace', good)):
        if v is None:
            open_ += 1
            continue
        ctx.validated += 1
        if v:
            ctx.violation('%s: %s %s' % (c['tool'], '; '.join(v), g['obs'].get('detail', '')), c)
        elif len(ctx.samples) < 2:
            ctx.sample({'tool': c['tool'], 'args': c['args'], 'file_hex': bytes(c['file']).hex()[:400],
                        'outcome': g['obs']['outcome']})
    ctx.note(left_open=open_)


# ---- the exhaustive model: (messages quick, messages thorough, one log in so many is exported) --
MODEL = {'C23': (4, 6, 7), 'C24': (4, 6, 7), 'C25': (5, 6, 23), 'C26': (3, 5, 7), 'C27': (3, 4, 7), 'C28': (3, 5, 7),
         'C29': (4, 7, 3), 'C30': (3, 4, 31), 'C31': (4, 6, 31), 'C32': (2, 3, 7), 'C33': (1, 2, 1)}
N_MODEL = {'C23': 90, 'C24': 150, 'C25': 200, 'C26': 150, 'C27': 150, 'C28': 200, 'C29': 120, 'C30': 200, 'C31': 250,
           'C32': 250, 'C33': 145}


def model_case(prop, data, rng):
    """a log of MC_Tools with arguments"""
    e = lambda s: list(s.encode())
    if prop == 'C23':
        names = rng.choice([None, None, [b't']])
        a = {'all': int(names is None), 'names': [list(n) for n in names or []], 'stem': e('log'), 'ts': rng.randrange(5),
             'te': rng.randrange(5), 'delimiter': rng.choice([',', ';']), 'out': rng.choice([0, 1, 2]), 'cli': rng.choice([0, 1, 2]),
             'filename': 'log.ulg'}
        return case('csv', data, a, names=names)
    if prop == 'C24':
        return case('extract', data, {'topic': e('t'), 'ts': rng.randrange(5), 'te': rng.randrange(5)}, names=[b't'])
    if prop == 'C25':
        a = {'format': rng.choice(['csv', 'csv', 'octave', 'qgc']), 'initial': rng.choice([0, 0, 1]), 'timestamps': rng.randrange(2),
             'group': rng.choice([2, 2, 0, 1]), 'tofile': rng.randrange(2), 'delimiter': ','}
        return case('params', data, a, names=[] if a['initial'] else None)
    if prop == 'C26':
        a = {'instance': rng.choice([0, 0, 1, 1, 2]), 'explicit': rng.randrange(2), 'out': rng.randrange(2), 'filename': 'log.ulg'}
        return case('gps', data, a, names=[b'gps_dump'])
    if prop == 'C27':
        if rng.random() < .25:
            return case('multi', data, {'key': e('m'), 'newline': rng.randrange(2)})
        return case('info', data, {'verbose': rng.randrange(2)})
    if prop == 'C28':
        a = {'topics': [e('vehicle_gps_position')], 'camera': [], 'interval': rng.choice([0, 100000, 100000, 250000]), 'offset': 0,
             }
        kml_style(rng, a, a['interval'] == 100000)
        return case('kml', data, a, names=[b'vehicle_gps_position', b'vehicle_status'])
    if prop == 'C29':
        types = [{'name': e(n), 'fields': [[e(f), e(k)] for f, k in [('timestamp', 'uint64')] + fs]} for n, fs in
                 [('Ta', [('x', 'uint8'), ('y', 'uint8[2]')]), ('Tb', [('z', 'int16')]), ('Tc', [('n', 'uint8')])]]
        names = rng.choice([None, None, None, ['ta', 'tc']])
        a = {'all': int(names is None), 'names': [e(n) for n in names or []], 'types': types, 'version': '0.15.1',
             'cli': rng.randrange(2), 'mcap': rng.randrange(2), 'verbose': rng.randrange(2),
             'bag': rng.choice([[], e('my_bag')]), 'filename': rng.choice(['log.ulg', 'x.y'])}
        return case('ros', data, a, names=[n.encode() for n in names] if names else None)
    if prop == 'C30':
        ev = lambda i, g, m: {'id': list(struct.pack('<I', i)), 'group': e(g), 'message': e(m)}
        a = {'logdefs': [], 'defaultdefs': [ev(1, 'default', 'one'), ev(2, 'calibration', 'two')], 'cached': rng.randrange(2),
             'prev': []}
        return case('messages', data, a, names=[b'event'])
    if prop == 'C31':
        return case('changes', data, {'x': 0})
    if prop == 'C32':
        return case('lookup', data, {'versions': [e('ver_sw_release'), e('ver_x')], 'default': rng.randrange(2),
                                     'channels': [0, 1, 2, -1]})
    return case('attitude', data, {'messages': []})


def model_files(ctx, prop, rng, limit):
    quick, thorough, mod = MODEL[prop]
    env = {'PROFILE': prop, 'MAXDATA': str(ctx.scale(quick, thorough)), 'EXPORTMOD': str(ctx.scale(mod, mod * 3))}
    ok, out = common.tlc(ctx, 'MC_Tools', env=env)
    if not ok:
        raise common.MachineryError('MC_Tools: a law of the tools does not hold:\n' + common.errors_of(out))
    files = sorted({bytes(x['file']) for x in common.tlc_lines(out) if 'file' in x})
    some = rng.sample(files, min(len(files), limit))
    ctx.note(**{'model_' + prop: 'MC_Tools profile %s, at most %s messages: %d logs exported, %d replayed'
                % (prop, env['MAXDATA'], len(files), len(some))})
    return some


def model_cases(ctx):
    rng = rng_for(ctx.prop + '/model', 0)
    some = model_files(ctx, ctx.prop, rng, ctx.scale(N_MODEL[ctx.prop], 6 * N_MODEL[ctx.prop]))
    ctx.note(model_logs_replayed=len(some))
    return [model_case(ctx.prop, f, rng) for f in some]


def check(ctx):
    n = N_RANDOM[ctx.prop] * ctx.scale(1, 15)
    cases = model_cases(ctx) + [random_case(ctx.prop, i) for i in range(n)]
    with Long(700):
        cases += [random_case(ctx.prop, 10 ** 6 + i) for i in range(ctx.scale(3, 12))]
    ctx.note(random_cases=n)
    judge(ctx, cases)
    return ASSUME + ['the parsers of the harness read the output of the tools correctly']


CHECKS = {p: check for p in GENERATORS}
REPLAY = {p: judge for p in GENERATORS}
