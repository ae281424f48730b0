"""C33: the import hook, executed symbolically by CrossHair (z3).

The real py/unpadded/hook.py is run over stand-ins of cppimport and of the file system, which record what is asked
of them and may fail at any stage; each postcondition is decided for every outcome, name and list.
"""
import os
import pathlib
import sys
import types
from typing import List

_path = os.path.join(os.environ.get('VP_REPO', '/repo'), 'py', 'unpadded', 'hook.py')
_code = compile(open(_path).read(), _path, 'exec')
BUNDLED = os.path.join(os.path.dirname(os.path.abspath(_path)), 'include')


class Failure(Exception):
    pass


# What the stand-ins do; set by each condition
W = types.SimpleNamespace()


def reset():
    W.log, W.fail, W.kind, W.nested, W.stale, W.removed = [], None, ImportError, None, False, []


def stage(name):
    """One step of an import: another import may happen meanwhile, and it may fail."""
    W.log.append(name)
    if W.nested is not None:
        W.inner.append(W.nested())
    if W.fail == name:
        raise W.kind()


def find_module_cpppath(modulename, opt_in=False):
    W.log.append(('find', modulename, bool(opt_in)))
    if W.fail == 'find':
        raise ImportError()
    return '/vp/none/%s.cpp' % W.file


def setup_module_data(fullname, filepath):
    stage('setup')
    W.data = dict(fullname=fullname, filepath=filepath, ext_path=filepath[:-4] + '.so')
    return W.data


def build_safely(filepath, module_data):
    W.built = (filepath, module_data, dict(module_data), W.stale)
    stage('build')


def load_module(module_data):
    stage('load')
    W.loaded = module_data
    module_data['module'] = W.module


def setup_pybind11(cfg):
    W.pybind += 1
    cfg['include_dirs'] += ['pybind11']


class Path:
    def __getattr__(self, name):
        return getattr(os.path, name)

    def exists(self, path):
        return W.stale

    isfile = lexists = exists


class System:
    path = Path()

    def __getattr__(self, name):
        return getattr(os, name)

    def remove(self, path):
        stage('remove')
        if not W.stale:
            raise FileNotFoundError(path)
        W.stale = False
        W.removed.append(str(path))

    unlink = remove


class Paths(type(pathlib.Path())):
    def exists(self, **kw):
        return W.stale

    is_file = exists

    def unlink(self, missing_ok=False):
        if W.stale or not missing_ok:
            System().remove(self)


def load():
    """The module under check, and its hook."""
    reset()
    W.pybind, W.module, W.file, W.inner = 0, object(), 'm', []
    mods = dict(cppimport=types.ModuleType('cppimport'))
    for sub, fns in (('find', [find_module_cpppath]), ('importer', [build_safely, load_module, setup_module_data]), ('templating', [setup_pybind11])):
        m = mods['cppimport.' + sub] = types.ModuleType('cppimport.' + sub)
        for f in fns:
            setattr(m, f.__name__, f)
        setattr(mods['cppimport'], sub, m)
    before, meta = {k: sys.modules.get(k) for k in list(mods) + ['os', 'pathlib']}, list(sys.meta_path)
    sys.modules.update(mods)
    sys.modules['os'] = System()
    sys.modules['pathlib'] = types.ModuleType('pathlib')
    vars(sys.modules['pathlib']).update(vars(pathlib), Path=Paths)
    g = {'__name__': 'unpadded_hook', '__file__': _path}
    try:
        exec(_code, g)
    finally:
        added = [x for x in sys.meta_path if not any(x is y for y in meta)]
        sys.meta_path[:] = meta
        for k, v in before.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    assert len(added) == 1
    return types.SimpleNamespace(**g), added[0]


def attempt(hook, name):
    try:
        return hook.find_spec(name, None)
    except Failure as x:
        return x


STAGES = ['find', 'setup', 'remove', 'build', 'load', None]


def one(hook, name, fail, importerror, stale, nested):
    """An import: its outcome and what was done for it."""
    reset()
    W.fail, W.kind, W.stale, W.file = STAGES[fail], ImportError if importerror else Failure, stale, 'f%d' % fail
    W.inner, W.module, W.data, W.built, W.loaded = [], object(), None, None, None
    if nested:
        W.nested = lambda: hook.find_spec(name, None)
    got = attempt(hook, name)
    log = [x for x in W.log if isinstance(x, str)]
    finds = [x for x in W.log if not isinstance(x, str)]
    if not all(x is None for x in W.inner):  # the module itself, once built, is found by the other importers
        return False
    if len(finds) != 1 or finds[0] != ('find', name, True):  # only those who opt in
        return False
    if W.removed not in ([], ['/vp/none/%s.so' % W.file]) or (W.removed and not stale):
        return False
    if log.count('build') > 1 or log.count('load') > 1:
        return False
    if STAGES[fail] == 'find':
        return got is None and log == []
    if W.fail is not None and W.fail in log:
        return 'load' not in log[:log.index(W.fail)] and (got is None if importerror else isinstance(got, Failure)) and log[-1] == W.fail
    # success: built from its source whatever was there already (an up-to-date extension is not compiled again),
    # with the set-up on offer, then loaded
    filepath, data, then, left = W.built
    if not (log.index('build') < log.index('load') and data is W.data and W.loaded is data and filepath == '/vp/none/%s.cpp' % W.file):
        return False
    return not left and then['fullname'] == name and then['filepath'] == filepath and callable(then['setup_unpadded']) and got is W.module


def single(name: str, fail: int, importerror: bool, stale: bool, nested: bool) -> bool:
    """
    pre: 0 <= fail < 6 and 0 < len(name) <= 4
    post: _
    """
    return one(load()[1], name, fail, importerror, stale, nested)


def sequence(f1: int, f2: int, stale: bool) -> bool:
    """
    pre: 0 <= f1 < 6 and 0 <= f2 < 6
    post: _
    """
    # whatever became of an import, the following ones are treated alike
    hook = load()[1]
    return one(hook, 'a', f1, True, stale, False) and one(hook, 'p.b', f2, True, not stale, True) and one(hook, 'c', 5, True, stale, True)


def failures(f1: int, f2: int, i1: bool) -> bool:
    """
    pre: 0 < f1 < 5 and 0 < f2 < 5
    post: _
    """
    # with other exceptions than ImportError
    hook = load()[1]
    return one(hook, 'a', f1, i1, True, True) and one(hook, 'p.b', f2, not i1, True, False) and one(hook, 'c', 5, True, False, True)


def same(f1: int, f2: int, i: bool) -> bool:
    """
    pre: 0 <= f1 < 6 and 0 <= f2 < 6
    post: _
    """
    # the same module again
    hook = load()[1]
    return one(hook, 'a', f1, i, True, i) and one(hook, 'a', f2, not i, False, True) and one(hook, 'a', 5, True, True, False)


def config(own, args):
    return dict(include_dirs=list(own), extra_compile_args=list(args))


def setup_for(hook, name):
    if not one(hook, name, 5, True, False, False):
        return None
    return W.built[2]['setup_unpadded']


def good(setup, own, args, extra):
    """What compiling with this set-up is given: everything that was asked for, once."""
    cfg = config(own, args)
    before = W.pybind
    setup(cfg)
    got, flags = [x for x in cfg['include_dirs'] if x is not own], cfg['extra_compile_args']
    if set(cfg) != {'include_dirs', 'extra_compile_args'} or W.pybind != before + 1:
        return False
    if got[:len(own)] != list(own) or flags[:len(args)] != list(args):
        return False
    rest = got[len(own):]
    if len(rest) != 2 + len(extra) or rest.count('pybind11') - list(extra).count('pybind11') != 1:
        return False
    where = [i for i, x in enumerate(rest) if len(x) > 3 and os.path.normpath(x) == BUNDLED]
    if len(where) != 1:
        return False
    rest = [x for i, x in enumerate(rest) if i != where[0] and i != rest.index('pybind11')]
    return rest == list(extra) and flags[len(args):] == ['-std=c++17']


def given(n, tag):
    return ['/vp/%s/%d' % (tag, i) for i in range(n)]


def include_dirs(extra: List[str]) -> bool:
    """
    pre: len(extra) <= 2 and all(0 < len(x) <= 2 for x in extra)
    post: _
    """
    mod, hook = load()
    before = [x for x in extra]
    mod.set_extra_include_dirs(extra)
    setup = setup_for(hook, 'm')
    return setup is not None and good(setup, given(1, 'own'), given(1, 'arg'), before) and len(extra) == len(before) and all(x == y for x, y in zip(extra, before))


def no_extra(own: int, args: int) -> bool:
    """
    pre: 0 <= own <= 3 and 0 <= args <= 3
    post: _
    """
    hook = load()[1]
    setup = setup_for(hook, 'm')
    return setup is not None and good(setup, given(own, 'own'), given(args, 'arg'), [])


def repeated(n1: int, n2: int, again: bool, late: bool, fail: bool) -> bool:
    """
    pre: 0 <= n1 <= 2 and 0 <= n2 <= 2
    post: _
    """
    # two modules in turn, the directories changed in between (before or after the second is found) or not
    mod, hook = load()
    d1, d2 = given(n1, 'x'), given(n2, 'y')
    mod.set_extra_include_dirs(d1)
    a = setup_for(hook, 'a')
    if a is None or not good(a, given(1, 'own'), [], given(n1, 'x')):
        return False
    if not one(hook, 'z', 4 if fail else 0, True, True, False):
        return False
    if again and not late:
        mod.set_extra_include_dirs(d2)
    b = setup_for(hook, 'b')
    if again and late:
        mod.set_extra_include_dirs(d2)
    want = given(n2, 'y') if again else given(n1, 'x')
    return (b is not None and good(b, [], given(2, 'arg'), want) and good(b, given(2, 'own'), [], want) and
            d1 == given(n1, 'x') and d2 == given(n2, 'y'))
