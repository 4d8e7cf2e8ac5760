"""Load files with the implementation: case = {files, loads} -> list of observations."""
import io
import os

import obs


def do_load(ULog, files, ld, work):
    data = bytes(files[ld['file'] - 1])
    names = None if ld['all'] else [bytes(n).decode('utf-8') for n in ld['names']]
    via = ld.get('via', 'bytesio')
    if via == 'bytesio':
        src = io.BytesIO(data)
    else:
        path = os.path.join(work, 'x.ulg')
        with open(path, 'wb') as f:
            f.write(data)
        src = path if via == 'path' else open(path, 'rb')
    kw = {}
    if names is not None:
        kw['message_name_filter_list'] = names
    # pass the policy only if it is not the default in some of the loads
    if ld['strict'] or ld.get('explicit', 1):
        kw['disable_str_exceptions'] = not ld['strict']
    if ld['header']:
        kw['parse_header_only'] = True
    return ULog(src, **kw)


def run_case(case, work):
    from pyulog import ULog
    res = []
    for ld in case['loads']:
        try:
            with obs.time_limit(10):
                res.append(obs.log(do_load(ULog, case['files'], ld, work)))
        except Exception as e:
            res.append(obs.failed(e))
    return res


if __name__ == '__main__':
    obs.main(run_case)
