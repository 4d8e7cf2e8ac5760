"""Independent ULog encoder (never imports pyulog).

Messages are built from the ULog file format documentation; every helper returns
the complete bytes of one message (3 byte header + payload).
"""
import struct

MAGIC = b'\x55\x4c\x6f\x67\x01\x12\x35'
SYNC = b'\x2F\x73\x13\x20\x25\x0C\xBB\x12'

FMT = {'int8_t': 'b', 'uint8_t': 'B', 'int16_t': 'h', 'uint16_t': 'H', 'int32_t': 'i',
       'uint32_t': 'I', 'int64_t': 'q', 'uint64_t': 'Q', 'float': 'f', 'double': 'd',
       'bool': '?', 'char': 'c'}
SIZE = {'int8_t': 1, 'uint8_t': 1, 'int16_t': 2, 'uint16_t': 2, 'int32_t': 4, 'uint32_t': 4,
        'int64_t': 8, 'uint64_t': 8, 'float': 4, 'double': 8, 'bool': 1, 'char': 1}


def b(s):
    return s if isinstance(s, (bytes, bytearray)) else s.encode('utf-8')


def msg(t, payload):
    assert len(payload) < 65536
    return struct.pack('<HB', len(payload), ord(t)) + payload


def header(ts, version=1):
    return MAGIC + bytes([version]) + struct.pack('<Q', ts)


def flags(compat=(0,) * 8, incompat=(0,) * 8, offsets=(0, 0, 0), extra=b''):
    return msg('B', bytes(compat) + bytes(incompat) + struct.pack('<3Q', *offsets) + extra)


def fmt(name, fields):
    """fields: list of (type, array_size, name)"""
    s = name + ':'
    for t, n, f in fields:
        s += (t if n == 0 else '%s[%d]' % (t, n)) + ' ' + f + ';'
    return msg('F', b(s))


def scalar(t, v):
    """v: python value or raw bytes of the right size"""
    if isinstance(v, (bytes, bytearray)):
        assert len(v) == SIZE[t], (t, v)
        return bytes(v)
    return struct.pack('<' + FMT[t], v)


def kv(ktype, key, raw):
    k = b(ktype + ' ' + key) if isinstance(key, str) else b(ktype) + b' ' + key
    assert len(k) < 256
    return bytes([len(k)]) + k + raw


def info(ktype, key, raw):
    return msg('I', kv(ktype, key, raw))


def info_str(key, s):
    s = b(s)
    return info('char[%d]' % len(s), key, s)


def multi(cont, ktype, key, raw):
    return msg('M', bytes([1 if cont else 0]) + kv(ktype, key, raw))


def param(key, ktype, raw):
    return msg('P', kv(ktype, key, raw))


def param_default(bits, key, ktype, raw):
    return msg('Q', bytes([bits]) + kv(ktype, key, raw))


def add(multi_id, msg_id, name):
    return msg('A', struct.pack('<BH', multi_id, msg_id) + b(name))


def remove(msg_id):
    return msg('R', struct.pack('<H', msg_id))


def data(msg_id, raw):
    return msg('D', struct.pack('<H', msg_id) + raw)


def logstr(level, ts, s):
    return msg('L', struct.pack('<BQ', level, ts) + b(s))


def tagged(level, tag, ts, s):
    return msg('C', struct.pack('<BHQ', level, tag, ts) + b(s))


def dropout(ms):
    return msg('O', struct.pack('<H', ms))


def sync():
    return msg('S', SYNC)
