"""C27: where log messages go (spec/Log.tla)."""
import glob
import io
import json
import logging
import os
import re
import sys

import vlib


def numbers(text):
    """The messages in a text, one per line, complete."""
    out = []
    for s in text.splitlines():
        m = re.fullmatch(r'.*message <(\d+)> ends', s)
        out.append(int(m.group(1)) if m else -1)
    return out


class Root(logging.Handler):
    n = 0

    def emit(self, record):
        if 'message <' in record.getMessage():
            self.n += 1


def replay(idx, hist, base):
    import beluga
    import beluga.utils.logging as mod
    here = os.path.join(base, str(idx))
    os.makedirs(here)
    old, out = os.getcwd(), sys.stdout
    os.chdir(here)
    root = Root(level=0)
    logging.getLogger().addHandler(root)
    logging.disable(logging.NOTSET)
    screen = sys.stdout = io.StringIO()
    ev = [{'ev': 'scn', 'idx': idx}]
    try:
        logger = mod.init_logging()                     # as importing does
        for i, o in enumerate(hist):
            err = ''
            try:
                if o['op'] == 'setup':
                    f = mod.init_logging if o['how'] == 'init' else beluga.add_logger
                    if o['lev'] < 0:
                        f()
                    else:
                        f(display_level=o['disp'], file_level=o['flev'], filename=o['name'])
                else:
                    lg = {'logger': beluga.logger, 'name': logging.getLogger('beluga'),
                          'child': logging.getLogger('beluga.part')}[o['how']]
                    lg.log(o['lev'], 'message <%d> ends', i + 1)
            except Exception as e:
                err = vlib.excinfo(e)
            files = [{'n': n, 'm': numbers(open(n).read())} for n in sorted(os.listdir('.'))]
            ev.append({'ev': 'op', 'i': i + 1, 'o': o, 'out': err, 'screen': numbers(screen.getvalue()), 'files': files,
                       'root': root.n})
            if err:
                break
        for h in logger.handlers:
            h.close()
    finally:
        sys.stdout = out
        logging.disable(logging.CRITICAL)
        logging.getLogger().removeHandler(root)
        os.chdir(old)
    return ev


def check(ck):
    ck.model('LogMC', 'LogMC.cfg' if ck.quick else 'LogDeep.cfg', env={'OUTDIR': ''}, workers=8)
    hdir, base = os.path.join(ck.work, 'hist'), os.path.join(ck.work, 'files')
    os.makedirs(hdir), os.makedirs(base)
    ck.model('LogMC', 'LogSim.cfg', env={'OUTDIR': hdir}, workers=1, timeout=800,
             extra=('-simulate', 'num=%d' % (300 if ck.quick else 8000), '-depth', '50', '-seed', str(ck.seed)))
    import beluga  # noqa: F401
    tr = vlib.Trace(os.path.join(ck.work, 'log.ndjson'))
    n = 0
    for p in sorted(glob.glob(hdir + '/*.json'), key=lambda x: int(os.path.basename(x)[:-5])):
        tr.events += replay(n, json.load(open(p)), base)
        n += 1
    ck.extra['histories'] = n
    ck.validate('LogTrace', 'LogTrace.cfg', tr, {}, props_only=False)
