"""C30: Client.call, executed symbolically by CrossHair (z3).

Each function runs the real py/unpadded/client.py on symbolic arguments, responses and schedules; its
postcondition is decided for every value.  Keys are stand-ins which record how they are used: what a real
one encodes and decodes is C29's subject.
"""
import importlib.util
import os
from typing import Dict, List, Optional, Tuple

_path = os.path.join(os.environ.get('VP_REPO', '/repo'), 'py', 'unpadded', 'client.py')
_spec = importlib.util.spec_from_file_location('unpadded_client', _path)
_client = importlib.util.module_from_spec(_spec)
_spec.loader.exec_module(_client)


class Wait:
    """Suspends a number of times, then gives its result (or raises it)."""

    def __init__(self, times, result):
        self.times, self.result = times, result

    def __await__(self):
        for i in range(self.times):
            yield i
        if isinstance(self.result, Exception):
            raise self.result
        return self.result


class Key:
    """Records its uses; encodings and decodings are arbitrary."""

    def __init__(self, log, encoded, decoded):
        self.log, self.encoded, self.decoded = log, encoded, decoded

    def encode(self, *args, **kwargs):
        self.log.append(('encode', self, args, kwargs))
        if isinstance(self.encoded, Exception):
            raise self.encoded
        return self.encoded

    def decode(self, response):
        self.log.append(('decode', self, response))
        if isinstance(self.decoded, Exception):
            raise self.decoded
        return self.decoded


class User(_client.Client):
    def __init__(self, log, answers):
        super().__init__()
        self.log, self.answers = log, answers

    def new_request(self, payload):
        self.log.append(('request', payload))
        return self.answers.pop(0)


class Failure(Exception):
    pass


def run(coro):
    """Runs a coroutine to its end: its result, or the exception it raised."""
    while True:
        try:
            coro.send(None)
        except StopIteration as x:
            return x.value
        except Failure as x:
            return x


def same_args(got, want):
    return len(got) == len(want) and all(a is b for a, b in zip(got, want))


def used(log, key, args, encoded, response, decoded, result):
    """Exactly one request, made of the key's encoding of exactly these arguments; the response decoded or passed on."""
    steps = [('encode', 'request', 'decode'), ('encode', 'request')][0 if decoded else 1]
    if tuple(e[0] for e in log) != steps:
        return False
    if log[0][1] is not key or not same_args(log[0][2], args) or log[0][3]:
        return False
    if log[1][1] is not encoded:
        return False
    if decoded:
        return log[2][1] is key and log[2][2] is response and result is key.decoded
    return result is response


def one(args, waits, response, decoded, value=None):
    args = tuple([args[i] for i in range(len(args))])  # the same objects from now on
    log = []
    encoded = bytes([1, 2])
    key = Key(log, encoded, object() if value is None else value)
    client = User(log, [Wait(waits, response)])
    result = run(client.call(key, *args))
    return used(log, key, args, encoded, response, decoded, result)


def byte_response(args: List[int], waits: int, response: bytes) -> bool:
    """
    pre: len(args) <= MAXARGS and 0 <= waits <= 2
    post: _
    """
    return one(args, waits, response, True)


def empty_response(args: List[int], value: Optional[int]) -> bool:
    """
    pre: len(args) <= MAXARGS
    post: _
    """
    return one(args, 0, b'', True, value)


def decoded_bytes(response: bytes, value: bytes) -> bool:
    """
    post: _
    """
    return one((), 0, response, True, value)


def int_response(args: List[int], waits: int, response: int) -> bool:
    """
    pre: len(args) <= MAXARGS and 0 <= waits <= 2
    post: _
    """
    return one(args, waits, response, False)


def bool_response(response: bool) -> bool:
    """
    post: _
    """
    return one((1,), 1, response, False)


def str_response(response: str) -> bool:
    """
    post: _
    """
    return one((), 0, response, False)


def list_response(response: List[int]) -> bool:
    """
    pre: len(response) <= 2
    post: _
    """
    before = tuple(response)
    return one((), 0, response, False) and tuple(response) == before


def tuple_response(response: Tuple[int, bytes]) -> bool:
    """
    post: _
    """
    return one((), 0, response, False)


def dict_response(response: Dict[int, bytes]) -> bool:
    """
    pre: len(response) <= 2
    post: _
    """
    return one((), 0, response, False)


def float_response(response: float) -> bool:
    """
    post: _
    """
    return one((), 0, response, False)


def other_response(which: int) -> bool:
    """
    pre: 0 <= which < 8
    post: _
    """
    class Odd:
        def __eq__(self, other):
            return True

        def __bool__(self):
            return False
    return one((which,), 0, [None, Odd(), object(), (), [], bytearray(b'a'), memoryview(b'\x00b'), bytearray()][which], False)


def object_args(a: bytes, b: str, c: List[int], d: Optional[int], e: bool) -> bool:
    """
    post: _
    """
    return one((a, b, c, d, e), 0, b'\x01', True) and one((e, d, c), 1, 7, False)


def arguments_of_many_kinds(n: int) -> bool:
    """
    pre: 0 <= n <= 12
    post: _
    """
    args = [object() for _ in range(12)][:n]
    return one(args, 0, b'\x01\x02', True)


def twice(b1: bytes, b2: bytes, i2: int, isbytes: bool, a1: int, a2: int, samekey: bool) -> bool:
    """
    post: _
    """
    r2 = b2 if isbytes else i2
    log = []
    k1 = Key(log, bytes([1]), object())
    k2 = k1 if samekey else Key(log, bytes([2]), object())
    client = User(log, [Wait(0, b1), Wait(1, r2)])
    x1 = run(client.call(k1, a1))
    first = list(log)
    del log[:]
    x2 = run(client.call(k2, a2, a1))
    return (used(first, k1, (a1,), k1.encoded, b1, True, x1) and
            used(log, k2, (a2, a1), k2.encoded, r2, isbytes, x2))


def interleaved(b1: bytes, b2: bytes, i1: int, i2: int, isb1: bool, isb2: bool, w1: int, w2: int, order: List[bool]) -> bool:
    """
    pre: 0 <= w1 <= 2 and 0 <= w2 <= 2 and len(order) <= STEPS
    post: _
    """
    # two calls of one client under way at once, resumed in any order
    l = [[], []]
    r = [b1 if isb1 else i1, b2 if isb2 else i2]
    k = [Key(l[0], bytes([1]), object()), Key(l[1], bytes([2]), object())]
    args = [(b1, 1), (i2,)]

    class Two(_client.Client):
        def new_request(self, payload):
            n = 0 if payload is k[0].encoded else 1
            l[n].append(('request', payload))
            return Wait([w1, w2][n], r[n])
    client = Two()
    coros = [client.call(k[0], *args[0]), client.call(k[1], *args[1])]
    done, result = [False, False], [None, None]

    def step(n):
        if done[n]:
            n = 1 - n
        if not done[n]:
            try:
                coros[n].send(None)
            except StopIteration as x:
                done[n], result[n] = True, x.value
    for o in order:
        step(1 if o else 0)
    while not all(done):
        step(0)
    return (used(l[0], k[0], args[0], k[0].encoded, r[0], isb1, result[0]) and
            used(l[1], k[1], args[1], k[1].encoded, r[1], isb2, result[1]))


def failures(stage: int, arg: int, response: bytes) -> bool:
    """
    pre: 0 <= stage <= 2
    post: _
    """
    # an exception of the key or of the request is the outcome of the call, which goes no further
    log = []
    failure = Failure()
    key = Key(log, failure if stage == 0 else bytes([5]), failure if stage == 2 else object())
    client = User(log, [Wait(1, failure if stage == 1 else response)])
    return run(client.call(key, arg)) is failure and [e[0] for e in log] == ['encode', 'request', 'decode'][:stage + 1]


MAXARGS = int(os.environ.get('MAXARGS', '3'))
STEPS = int(os.environ.get('STEPS', '3'))
