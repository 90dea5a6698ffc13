''' Helpers of the concrete cross-checks (run on the code as it is). '''
import traceback
import importlib


class Unavailable(Exception):
    ''' a name the cross-check needs is not there (renamed, moved) '''


def need(modname, *names):
    try:
        m = importlib.import_module(modname)
    except ImportError as ex:
        raise Unavailable('%s: %s' % (modname, ex))
    out = []
    for n in names:
        o = m
        for part in n.split('.'):
            try:
                o = getattr(o, part)
            except AttributeError:
                raise Unavailable('%s.%s' % (modname, n))
        out.append(o)
    if not names:
        return m
    return out[0] if len(out) == 1 else out


def text_of(ex):
    ''' the traceback (a NameError suggests names by looking at objects of
    the code, which may fail again) '''
    try:
        return ''.join(traceback.format_exception(ex))
    except BaseException:
        return ''.join(traceback.format_tb(ex.__traceback__)) + repr(ex)
