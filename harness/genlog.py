"""Seeded generator of ULog files (byte level, never imports pyulog)."""
import struct

import ulogenc as U

TOPICS = ['sensor_accel', 'sensor_accel_fifo', 'sensor', 'vehicle_status', 'a', 'gps/raw', 'gps/raw/sats', 'wind',
          'vehicle_attitude', 'Zeta', 'battery_status', 'e_1', 'actuator_outputs']
NESTED = ['esc_report', 'point', 'inner_t', 'quat']
FIELDS = ['x', 'y', 'z', 'val', 'flag', 'data', 'name', 'temp', 'mode', 'q', 'count', 'err_rate',
          'timestamp_sample', 'pad', 'id', 'rx_padding', 'padding1', 'x_timestamp']
KEYS = ['sys_name', 'ver_hw', 'ver_sw', 'ver_sw_release', 'time_ref_utc', 'perf_top', 'sys_uuid',
        'k', 'key_\u00e9', 'boot_console_output', 'replay', 'hardfault_plain', 'Boot_X']
PARAMS = ['MC_ROLL_P', 'SYS_AUTOSTART', 'RC_MAP_ROLL', 'A', 'BAT_CAP', 'EKF2_AID', 'MAV_TYPE',
          'MC_ROLL_PI', 'ZZ_TOP']
TEXTS = ['', 'a', '[commander] Takeoff detected\t', 'low battery', '\u00e4\u00f6\u20ac \U0001f681',
         'x' * 300, 'nul\x00inside', 'nul at end\x00', '\x00', 'two\x00\x00', '\ufeffbom', 'cr\r\n', ' ', '\u2028', 'tab\tline\nend', ' lead', 'trail ', 'colon:semi;', '%s {} {0}']
SCALARS = ['int8_t', 'uint8_t', 'int16_t', 'uint16_t', 'int32_t', 'uint32_t', 'int64_t', 'uint64_t',
           'float', 'double', 'bool', 'char']
F32 = [0x00000000, 0x80000000, 0x7fc00000, 0x7f800000, 0xff800000, 0x3f800000, 0x3dcccccd,
       0x00000001, 0x7f7fffff, 0xc2f6e979, 0x4b800001]
F64 = [0, 1 << 63, 0x7ff8 << 48, 0x7ff0 << 48, 0xfff0 << 48, 0x3fb999999999999a, 1,
       0x400921fb54442d18, 0x7fefffffffffffff]


# a number of messages: the generators make long logs
LONG = [0, None]


def amount(rng, some):
    """how many messages"""
    n = rng.choice(some)
    return LONG[0] if LONG[0] else n


class Long:
    """with Long(1200): ... the generators make logs of about so many messages,
    most of them of one kind ('data', 'text', 'tagged', 'drop', 'info', 'multi', 'default', 'param')"""

    def __init__(self, n, kind=None):
        self.to = [n, kind]

    def __enter__(self):
        LONG[:] = self.to

    def __exit__(self, *_):
        LONG[:] = [0, None]


def scalar_bytes(rng, t):
    n = U.SIZE[t]
    if t == 'float':
        v = rng.choice(F32) if rng.random() < .5 else None
        return struct.pack('<I', v) if v is not None else struct.pack('<f', rng.uniform(-1e4, 1e4))
    if t == 'double':
        v = rng.choice(F64) if rng.random() < .5 else None
        return struct.pack('<Q', v) if v is not None else struct.pack('<d', rng.uniform(-1e9, 1e9))
    if t == 'bool':
        return bytes([rng.randrange(2)])
    r = rng.random()
    if r < .2:
        return b'\xff' * n
    if r < .35:
        return b'\xff' * (n - 1) + b'\x7f'
    if r < .5:
        return b'\x00' * (n - 1) + b'\x80'
    if r < .7:
        return bytes([rng.randrange(256)]) + b'\x00' * (n - 1)
    return rng.randbytes(n)


class Log:
    """A generated log: header, definition messages, data messages."""

    def __init__(self):
        self.start = 0
        self.version = 1
        self.defs = []
        self.data = []
        self.formats = {}
        self.subs = []      # (msg_id, multi_id, topic)
        self.topics = []

    def head(self):
        return U.header(self.start, self.version)

    def bytes(self):
        return self.head() + b''.join(self.defs) + b''.join(self.data)


class Gen:
    def __init__(self, rng, **opt):
        self.rng = rng
        self.o = dict(
            n_topics=3, n_data=20, nested=True, big_arrays=True, invalid_text=0.0, unknown=0.0,
            backward=0.2, back=2000000, flags=0.8, infos=4, multis=5, params=4, defaults=3, empties=0.3,
            bad_data=0.0, sync=0.1, late_meta=True, version=True, ts_offset=True, chars=True,
            monotonic_streams=False, double_values=True, big_ts=True, extra_kv_types=True,
            distinct_ts=False, char_utf8=False, texts=True, tagged=True, dropouts=True,
            removes=False, max_array=4, scalars=SCALARS, big_msg_id=True, start=None,
            padding=True, i63=False, unfiltered_ids=False, defs_shuffle=True, appended=None,
            nonfinite=True, big_unknown=0, bool_raw=False, param_double=False, burst=.15, huge=0.0, early_text=.15, stray=0.0, lookalike=0.0,
            steps=[0, 1, 1, 10, 250, 4000, 100000, 999999])
        self.o.update(opt)
        if LONG[0]:
            o = self.o
            if o['n_data']:
                o['n_data'] = LONG[0]
            o.update(huge=0, big_unknown=0, big_arrays=False, burst=o['burst'] and .7, n_topics=min(2, o['n_topics']), max_array=2, bad_data=o['bad_data'] and .01,
                     steps=[0, 1, 10, 250] if max(o['steps']) == 999999 else o['steps'])
            for k in ('infos', 'multis', 'params', 'defaults'):
                o[k] = o[k] * 8 if o[k] > 2 else o[k]

    # ---- values -----------------------------------------------------------
    def p(self, prob):
        return self.rng.random() < prob

    def text(self):
        r = self.rng
        s = r.choice(TEXTS) if self.p(.6) else ''.join(
            r.choice('abcdefgh XYZ_0123:;[],') for _ in range(r.randrange(1, 30)))
        raw = s.encode('utf-8')
        if self.p(self.o['invalid_text']):
            pos = r.randrange(len(raw) + 1)
            bad = r.choice([b'\xff', b'\xc3', b'\xe2\x82', b'\xf0\x9f\x9a', b'\x80', b'\xed\xa0\x80',
                            b'\xc0\xaf', b'\xf5\x80\x80\x80', b'\xf0\x80\x80\xaf', b'\xe2\x28\xa1',
                            b'\xf4\x90\x80\x80'])
            raw = raw[:pos] + bad + raw[pos:]
        return raw

    def scalar(self, t):
        raw = scalar_bytes(self.rng, t)
        if self.o['bool_raw'] and t == 'bool':
            return self.rng.randbytes(1)
        if not self.o['nonfinite'] and t in ('float', 'double'):
            return struct.pack('<f' if t == 'float' else '<d', self.rng.randrange(-500, 500) / 4)
        if self.o['i63'] and t == 'uint64_t':
            raw = raw[:7] + bytes([raw[7] & 0x7f])
        return raw

    def kv_value(self):
        r = self.rng
        x = r.random()
        if x < .45:
            s = self.text()
            return 'char[%d]' % len(s), s
        if x < .8:
            t = r.choice(SCALARS)
            return t, self.scalar(t)
        n = r.randrange(1, 9)
        t = r.choice(['uint8_t', 'uint8_t', 'int32_t', 'float', 'uint16_t', 'my_type']
                     if self.o['extra_kv_types'] else ['uint8_t'])
        return '%s[%d]' % (t, n), r.randbytes(n * U.SIZE.get(t, 3))

    def param_value(self):
        t = self.rng.choice(['int32_t', 'float'])
        return t, self.scalar(t)

    # ---- definitions ------------------------------------------------------
    def array_size(self):
        r = self.rng
        if self.p(.6):
            return 0
        if self.o['huge'] and self.p(self.o['huge']):
            return r.choice([100, 101, 128, 200])
        if self.o['big_arrays'] and self.p(.2):
            return r.randrange(9, 14)
        return r.randrange(1, self.o['max_array'] + 1)

    def fields(self, nested, n):
        r = self.rng
        out, used = [], set()
        for _ in range(n):
            f = r.choice(FIELDS)
            if f in used:
                continue
            used.add(f)
            if nested and self.p(.3):
                t, size = r.choice(nested), r.choice([0, 0, 1, 2, 3])
            else:
                t, size = r.choice(self.o['scalars']), self.array_size()
                if t == 'char' and self.o['chars'] and self.p(.7):
                    size = r.randrange(1, 8) if self.p(.75) else r.randrange(9, 24)
            out.append((t, size, f))
        return out

    def make_formats(self, log):
        r = self.rng
        nested = []
        if self.o['nested']:
            for name in r.sample(NESTED, r.randrange(0, 4)):
                fs = self.fields(nested[:], r.randrange(1, 4)) or [('float', 0, 'v')]
                if self.p(.3):
                    fs.append(('uint8_t', r.randrange(1, 4), '_padding0'))
                if self.p(.3):
                    fs.insert(0, ('uint64_t', 0, 'timestamp'))
                log.formats[name] = fs
                nested.append(name)
        names = r.sample(TOPICS, self.o['n_topics'])
        if self.p(.5) and len(names) > 1:   # topics that share a prefix
            base = names[0]
            names[-1] = base + r.choice(['_raw', '2', 's'])
        if self.o['lookalike'] and self.p(self.o['lookalike']):     # that differ in case or in one letter only
            base = names[0]
            names.append(r.choice([base.upper(), base.replace('_', r.choice('xX2')), base.replace('_', r.choice('X2'), 1), base.capitalize()]))
        for name in dict.fromkeys(names):
            fs = self.fields(nested, r.randrange(1, 6))
            if self.o['padding'] and self.p(.3):
                fs.insert(r.randrange(len(fs) + 1), ('uint8_t', r.randrange(1, 4), '_padding0'))
            pos = 0 if not self.o['ts_offset'] or self.p(.7) else r.randrange(len(fs) + 1)
            fs.insert(pos, ('uint64_t', 0, 'timestamp'))
            if self.o['padding'] and self.p(.4):
                for k in range(r.randrange(1, 3)):
                    fs.append((r.choice(['uint8_t', 'uint8_t', 'uint16_t']), r.choice([0, 1, 3]),
                               '_padding%d' % (k + 1)))
            log.formats[name] = fs
            log.topics.append(name)
        if self.p(.3):      # defined, never logged
            log.formats['never_used'] = [('uint64_t', 0, 'timestamp'), ('float', 3, 'v')]

    def flat(self, formats, name):
        """list of basic types of a format, with padding marks"""
        out = []
        for t, n, f in formats[name]:
            for _ in range(max(n, 1)):
                if t in U.SIZE:
                    out.append((t, f))
                else:
                    out += [(tt, f + '.' + ff) for tt, ff in self.flat(formats, t)]
        return out

    def one_info(self):
        t, v = self.kv_value()
        return U.info(t, self.rng.choice(KEYS), v)

    def one_multi(self):
        if not hasattr(self, 'multi_types'):
            self.multi_types = {}
        key = self.rng.choice(KEYS[:3] + KEYS[-4:])
        t, v = self.kv_value()
        base = self.multi_types.setdefault(key, t)
        if base != t:       # a key keeps its type (texts may vary in length)
            if base.startswith('char['):
                v = self.text()
                t = 'char[%d]' % len(v)
            elif base in U.SIZE:
                t, v = base, self.scalar(base)
            else:
                t, v = base, self.rng.randbytes(self.rng.randrange(0, 8))
        return U.multi(self.p(.45), t, key, v)

    def one_param(self):
        t, v = self.param_value()
        return U.param(self.rng.choice(PARAMS), t, v)

    def one_default(self):
        t, v = self.param_value()
        return U.param_default(self.rng.choice([1, 2, 3]), self.rng.choice(PARAMS), t, v)

    def unknown_msg(self):
        r = self.rng
        t = r.choice([c for c in range(1, 256) if chr(c) not in 'FIMPQAABDSORLC'])
        n = r.choice([1, 2, 7, 8, 9, 30, 255, 256, 600])
        if self.p(self.o['big_unknown']):
            n = r.choice([1000, 1024, 2047, 4096, 5000, 8191, 9999, 10000])
        if self.p(.3):      # looks like messages, or like garbage
            return struct.pack('<HB', n, t) + (r.choice([U.dropout(7), b'\0', b'\xff', U.SYNC[:7]])
                                               * n)[:n]
        return struct.pack('<HB', n, t) + r.randbytes(n).replace(U.SYNC, b'\0' * 8)

    # ---- the log ----------------------------------------------------------
    def timestamp(self, log, state):
        r = self.rng
        if self.o['big_ts'] and self.p(.03):
            return r.choice([(1 << 53) + 1, (1 << 63) - 1, (1 << 32) + 5, (1 << 53) + 3]
                            + ([] if self.o['i63'] else [(1 << 63) + 12345]))
        if self.p(self.o['backward']):
            return max(0, state['t'] - r.randrange(0, self.o['back']))
        state['t'] += r.choice(self.o['steps'])
        return state['t']

    def make(self):
        r, o = self.rng, self.o
        log = Log()
        log.start = o['start'] if o['start'] is not None else (
            r.choice([0, 1, 112500176, (1 << 32) + 17]) if self.p(.5) else r.randrange(1 << 36))
        if o['version'] and self.p(.2):
            log.version = r.choice([0, 2, 255])
        self.make_formats(log)
        defs = [U.fmt(n, fs) for n, fs in log.formats.items()]
        if o['defs_shuffle'] and self.p(.5):
            r.shuffle(defs)
        meta = ([self.one_info() for _ in range(r.randrange(o['infos'] + 1))]
                + [self.one_multi() for _ in range(r.randrange(o['multis'] + 1))]
                + [self.one_param() for _ in range(r.randrange(o['params'] + 1))]
                + [self.one_default() for _ in range(r.randrange(o['defaults'] + 1))])
        for m in meta:
            defs.insert(r.randrange(len(defs) + 1), m)
        if self.p(o['unknown']):
            for _ in range(r.randrange(1, 4)):
                defs.insert(r.randrange(len(defs) + 1), self.unknown_msg())
        if self.p(o['flags']):
            compat = [r.choice([0, 1]), 0, 0, 0, 0, 0, 0, 0]
            if self.p(.3):
                compat = [r.randrange(256) for _ in range(8)]
            defs.insert(0, U.flags(compat, extra=b'\0' * r.choice([0, 0, 0, 8])))
        log.defs = defs
        # data section
        ids = set()
        subs = []
        for name in log.topics:
            for inst in range(1 if self.p(.6) else r.randrange(2, 4)):
                mid = len(ids)
                if o['big_msg_id'] and self.p(.5):
                    mid = r.choice([255, 256, 257, 511, 512, 65535, r.randrange(65536)])
                while mid in ids:
                    mid = (mid + 1) % 65536
                ids.add(mid)
                multi = inst if self.p(.8) else r.choice([255, 128 + inst, 10 + inst])
                while any(s[1] == multi and s[2] == name for s in subs):
                    multi = (multi + 1) % 256
                subs.append((mid, multi, name))
        if self.p(.3):
            r.shuffle(subs)
        log.subs = subs
        late = [s for s in subs[1:] if self.p(.3)]
        silent = [s for s in subs if len(subs) > 1 and self.p(o['empties'] / 2)]
        data = [U.add(m, i, n) for i, m, n in subs if (i, m, n) not in late]
        active = [s for s in subs if s not in late]
        state = {'t': log.start}
        stream_t = {}
        kinds = ['data'] * 10
        if o['texts']:
            kinds += ['text', 'text']
        if o['tagged']:
            kinds += ['tagged', 'tagged']
        if o['dropouts']:
            kinds += ['drop']
        if o['late_meta']:
            kinds += ['info', 'multi', 'multi', 'default']
        kinds += ['param'] * 2
        if not o['monotonic_streams'] and (o['texts'] or o['tagged']) and self.p(o['early_text']):
            # the data section begins with a text, later than the samples that follow
            ts = log.start + r.choice([0, 1, 5000000, 1 << 33])
            data.insert(0, U.logstr(54, ts, self.text()) if o['texts'] and (not o['tagged'] or self.p(.6))
                        else U.tagged(54, r.randrange(300), ts, self.text()))
        if LONG[0]:         # one kind of message prevails
            kinds += [LONG[1] if LONG[1] in kinds else r.choice(kinds)] * (4 * len(kinds))
        for _ in range(o['n_data']):
            if self.p(o['stray']):      # data of an id that no subscription names
                data.append(U.data(next(i for i in (7, 256, 65535, 3, 9, 12, 77) if i not in ids),
                                   r.randbytes(r.choice([8, 9, 12, 20]))))
            if late and self.p(.25):
                s = late.pop()
                data.append(U.add(s[1], s[0], s[2]))
                active.append(s)
            if self.p(o['sync']):
                data.append(U.sync())
            if self.p(o['unknown']):
                data.append(self.unknown_msg())
            k = r.choice(kinds)
            if k == 'data':
                s = r.choice([a for a in active if a not in silent] or active)
                ts = self.timestamp(log, state)
                if o['monotonic_streams'] or o['distinct_ts']:
                    lo = stream_t.get(s[0])
                    if lo is not None:
                        ts = max(ts, lo + (1 if o['distinct_ts'] else 0))
                    if o['monotonic_streams']:
                        ts = max(ts, log.start)
                    stream_t[s[0]] = ts
                data.append(self.sample(log, s, ts))
            elif k == 'text':
                ts = self.stream_ts(log, state, stream_t, 'L')
                data.append(U.logstr(r.choice(b'01234567') if self.p(.9) else r.randrange(256),
                                     ts, self.text()))
            elif k == 'tagged':
                tag = r.choice([0, 1, 255, 256, 65535])
                ts = self.stream_ts(log, state, stream_t, ('C', tag))
                data.append(U.tagged(r.choice(b'01234567'), tag, ts, self.text()))
            elif k == 'drop':
                data.append(U.dropout(r.choice([0, 1, 100, 255, 256, 65535])))
            elif k == 'info':
                data.append(self.one_info())
            elif k == 'multi':
                data.append(self.one_multi())
            elif k == 'default':
                data.append(self.one_default())
            elif k == 'param':
                data.append(self.one_param())
        log.data = data
        if self.p(o['burst']):
            self.add_burst(log, state, stream_t, active)
        return log

    def add_burst(self, log, state, stream_t, active):
        """many messages of one kind (more than ten, or more than 128)"""
        r, o = self.rng, self.o
        kinds = ['param', 'initial', 'data', 'format']
        if o['infos'] > 1:
            kinds += ['info']
        if o['multis'] > 1:
            kinds += ['parts', 'parts', 'entries']
        if o['defaults'] > 1:
            kinds += ['default']
        kinds += [k for k in ('texts', 'tagged', 'dropouts') if o[k]]
        k = r.choice(kinds)
        n = amount(r, [11, 12, 13]) // (3 if LONG[0] else 1)
        if k in ('parts', 'entries'):
            key = 'burst'
            t = r.choice(['char[3]', 'int32_t', 'float', 'uint8_t[2]'])
            msgs = [U.multi(k == 'parts' and i > 0, t, key, self.scalar(t) if t in U.SIZE else
                            (b'%03d' % (n - i) if t == 'char[3]' else bytes([i & 255, (n - i) & 255]))) for i in range(n)]
        elif k == 'info':
            msgs = [U.info('int32_t', 'burst%d' % (i * 7 % n), self.scalar('int32_t')) for i in range(n)]
        elif k == 'initial':
            msgs = [U.param('BURST_%d' % (i * 7 % n), *self.param_value()) for i in range(n)]
        elif k == 'default':
            msgs = [U.param_default(r.choice([1, 2, 3]), 'BURST_%d' % (i * 7 % n), *self.param_value())
                    for i in range(n)]
        elif k == 'format':
            log.formats.update(('burst_%d' % (i * 7 % n), [('uint64_t', 0, 'timestamp'), ('float', i, 'v')])
                               for i in range(n))
            msgs = [U.fmt('burst_%d' % (i * 7 % n), log.formats['burst_%d' % (i * 7 % n)]) for i in range(n)]
        if k in ('info', 'initial', 'default', 'format') or k in ('parts', 'entries') and self.p(.5):
            at = r.randrange(1, len(log.defs) + 1)
            log.defs[at:at] = msgs
            return
        if k == 'param':
            msgs = [self.one_param() for _ in range(n)]
        elif k == 'texts':
            msgs = [U.logstr(r.choice(b'01234567'), self.stream_ts(log, state, stream_t, 'L'), b't%d' % i)
                    for i in range(n)]
        elif k == 'tagged':
            tags = [self.rng.randrange(65536) for _ in range(amount(r, [1, 12]))]
            msgs = []
            for i in range(n):
                tag = tags[i % len(tags)]
                msgs.append(U.tagged(54, tag, self.stream_ts(log, state, stream_t, ('C', tag)), b't%d' % i))
        elif k == 'dropouts':
            msgs = [U.dropout(r.randrange(65536)) for _ in range(n)]
        elif k == 'data':
            s = r.choice(active)
            msgs = []
            for _ in range(amount(r, [n, 140]) if len(self.flat(log.formats, s[2])) < 12 else n):
                ts = self.timestamp(log, state)
                if o['monotonic_streams'] or o['distinct_ts']:
                    ts = max(ts, stream_t.get(s[0], log.start) + (1 if o['distinct_ts'] else 0))
                    stream_t[s[0]] = ts
                msgs.append(self.sample(log, s, ts))
        log.data += msgs

    def stream_ts(self, log, state, stream_t, key):
        ts = self.timestamp(log, state)
        if self.o['monotonic_streams']:
            ts = max(ts, stream_t.get(key, log.start))
            stream_t[key] = ts
        return ts

    def sample(self, log, sub, ts):
        flat = self.flat(log.formats, sub[2])
        end = len(flat)
        while end and flat[end - 1][1].startswith('_padding'):
            end -= 1
        raw = b''
        for t, f in flat[:end]:
            raw += struct.pack('<Q', ts) if f == 'timestamp' else self.scalar(t)
        extra = sum(U.SIZE[t] for t, _ in flat[end:])
        if extra:
            raw += b'\0' * self.rng.choice([0, 0, extra, self.rng.randrange(extra + 1)])
        bad = self.p(self.o['bad_data'])
        if bad:
            c = self.rng.randrange(4)
            if c == 0:
                return U.data(sub[0], raw[:self.rng.randrange(0, len(raw) - extra)] if len(raw) > extra
                              else b'')
            if c == 1:
                return U.data(sub[0], raw + b'\0' * (extra + self.rng.randrange(1, 4)))
            if c == 2:
                return U.msg('D', self.rng.randbytes(self.rng.randrange(0, 2)))
            return U.data((sub[0] + self.rng.randrange(1, 1000)) % 65536, raw)
        return U.data(sub[0], raw)
