"""The functions the server under test offers."""
import asyncio, os, time


def rest(kw):
    return {k: v for k, v in kw.items() if k != 'ID'}


def echo(*args, **kw):
    return {'f': 'echo', 'args': list(args), 'kw': rest(kw), 'ID': kw.get('ID', '-')}


def plain(*args, **kw):
    return 'plain:' + ','.join(repr(a) for a in args)


def default(*args, **kw):
    return 'default:' + '|'.join(str(a) for a in args)


def add(a, b, **kw):
    return a + b


def in_thread(*args, delay=0, **kw):
    time.sleep(delay)
    return {'f': 'in_thread', 'args': list(args), 'kw': rest(kw), 'ID': kw.get('ID', '-')}


def in_process(*args, delay=0, **kw):
    time.sleep(delay)
    return {'f': 'in_process', 'args': list(args), 'kw': rest(kw), 'ID': kw.get('ID', '-')}


async def waits(*args, delay=0, steps=1, **kw):
    for _ in range(steps):
        await asyncio.sleep(delay)
    return {'f': 'waits', 'args': list(args), 'kw': rest(kw), 'ID': kw.get('ID', '-')}


def raises(*args, kind='ValueError', text='', **kw):
    raise {'ValueError': ValueError, 'TypeError': TypeError, 'NameError': NameError, 'KeyError': KeyError, 'OSError': OSError,
           'AssertionError': AssertionError, 'RuntimeError': RuntimeError}[kind](text)


def raises_in_thread(*args, **kw):
    return raises(*args, **kw)


def raises_in_process(*args, **kw):
    return raises(*args, **kw)


async def raises_later(*args, **kw):
    await asyncio.sleep(0)
    return raises(*args, **kw)


def nothing(*args, **kw):
    return None


def diagnostic(*args, code='E501', **kw):
    return {'code': code, 'message': 'line too long', 'range': [1, 2]}


def error_result(*args, code=-32001, text='no', **kw):
    return {'error': {'code': code, 'message': text}}


def odd_error(*args, **kw):
    return {'error': 'something'}


def raw_json(*args, **kw):
    return b'{"raw": [1, 2, "\xc3\xa4"]}'


def value(*args, v=None, **kw):
    return v


def unserializable(*args, **kw):
    return {'x': object()}


def not_picklable(*args, **kw):
    return lambda: 1


def die(*args, **kw):
    os._exit(3)


def die_once(*args, flag='', **kw):
    if not os.path.exists(flag):
        open(flag, 'w').close()
        os._exit(3)
    return {'f': 'die_once', 'ID': kw.get('ID', '-')}


ALL = [default, echo, plain, add, in_thread, in_process, waits, raises, raises_in_thread, raises_in_process, raises_later, nothing, diagnostic,
       error_result, odd_error, raw_json, value, unserializable, not_picklable, die, die_once]
CPU = {'in_process', 'raises_in_process', 'not_picklable', 'die', 'die_once'}
BLOCKING = {'in_thread', 'raises_in_thread'}
