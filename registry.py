"""What each check runs."""
import os
from driver import Unit, ROOT

COMMON_ASSUMPTIONS = [
    'clang 18 at -O0 and mem2reg are assumed to translate the source faithfully; sampled paths are compared with a g++-11 build',
    'memory allocation never fails',
]
TECHNIQUE = 'symbolic execution of the LLVM IR of the real headers, decided by an SMT solver (z3)'
LEVEL_NOTE = ('Holds for every value of the symbolic inputs within the bounds stated in the description and in DESIGN.md; '
              'counterexamples are replayed against natively built code before being reported. '
              'Trusts clang 18 -O0 + mem2reg, the executor in engine/ (sampled paths are compared with g++-11 builds) and z3.')
NOT_APPLICABLE = {
    'C31': 'Rejection at compile time has no run-time values: there is no execution for a solver to range over, only compiler acceptance of finitely many programs.',
}
ALLPLAT = ['def', 'le2c', 'le', '2c']

def ints(which):
    def units(tier):
        us = []
        for plat in ALLPLAT + ['be', 'be2c'][:0]:
            for std in (['c++11', 'c++17', 'c++20'] if tier == 'thorough' else ['c++17']):
                us.append(Unit('ints.cpp', std=std, plat=plat, defs=['CHECK=' + which], ub=True))
        return us
    return units

SPECS = {
    'C01': dict(units=ints('encode'), description='Every integer type x 8 formats, the whole value is symbolic, written through a tuple and through a view amid symbolic bytes; no loop bound is involved.'),
    'C02': dict(units=ints('roundtrip'), description='Every integer type x 8 formats, two symbolic values: round trip and injectivity.'),
    'C03': dict(units=ints('decode'), description='Every integer type x 8 formats, every byte pattern symbolic, exactly sized buffers.'),
}

def simple(file, defs, plats=('def', 'le2c'), stds=('c++17',), tplats=None, tstds=('c++11', 'c++17', 'c++20'), qd=(), td=(), ub=True, c11=None, **kw):
    """c11: the cases which quick checks also decide as C++11."""
    def units(tier):
        th = tier == 'thorough'
        us = []
        for plat in (tplats or ALLPLAT if th else plats):
            for std in (tstds if th else stds):
                us.append(Unit(file, std=std, plat=plat, defs=list(defs) + list(td if th else qd), ub=ub, **kw))
        if c11 and not th: us.append(Unit(file, std='c++11', plat=plats[0], defs=list(defs) + list(qd), ub=ub, match=c11, **kw))
        return us
    return units

SPECS['C04'] = dict(units=simple('tuple.cpp', ['C04'], qd=['SETS=3'], td=['SETS=4'], c11='large|twelve|mixed_arrays|same_types|defaults'), description='Tuples of 0 to 12 integer and array fields (and 260 to 300-byte arrays) x 8 formats: contents, sequences of 3 (thorough 4) set operations with symbolic field choice, default values, make_tuple; every field value and every later overwritten value is symbolic. Layout, size, get/set, iteration and indexing are compared with an independent serialisation.')
SPECS['C05'] = dict(units=simple('tuple.cpp', ['C05'], qd=['SETS=3'], td=['SETS=4'], c11='long|nested|bytes3'), description='C arrays and std::arrays (1 to 260 elements, nested up to 3 levels) x 8 formats, symbolic elements, amid other fields; and symbolic bytes decoded as arrays.')
SPECS['C07'] = dict(units=simple('view.cpp', ['C07'], c11='far|raw|list|slices'), description='Views over pointers, vector, list, forward_list, deque, reverse, strided and std::array iterators on symbolic bytes amid guard bytes, x 8 formats; slices of tuples.')
SPECS['C08'] = dict(units=simple('view.cpp', ['C08'], c11='be_tc|le_ob|arrays'), description='Assignment between every pair of the 8 formats, from tuples and views to tuples and views on several kinds of storage, symbolic values representable in both.')
SPECS['C09'] = dict(units=simple('view.cpp', ['C09'], c11='many|results'), description='Invocation of functions, functors, lambdas (by value, reference, rvalue, array reference) on tuples, views and slices with up to 9 symbolic fields x 8 formats.')
def both(*fs):
    return lambda tier: [u for f in fs for u in f(tier)]
SPECS['C06'] = dict(units=both(simple('user.cpp', ['C06']), simple('key.cpp', ['C06'], plats=['def'])), description='Five user-extended types (7, 2, 3, 8 and 7 bytes, whatever their size in memory): as fields, array elements, over list and pointer views, in assignments and invocations; as callback parameters and results through keys, actions and every announced size. All members symbolic.')
SPECS['C10'] = dict(units=simple('key.cpp', ['C10'], c11='wide|large|refs|users|be_ob|le_sm'), description='Keys of keyrings with 3 to 8 callbacks (0 to 7 parameters: integers, arrays, references, extended types) x 8 formats, every argument symbolic; payloads beyond 255 bytes.')
SPECS['C11'] = dict(units=simple('key.cpp', ['C11'], c11='wide|large|refs|users|be_ob|le_sm'), description='Responses of the same keyrings, every response byte symbolic, through read_from and through owning, const and reference-only hooks; responses beyond 255 bytes.')
SPECS['C12'] = dict(units=simple('key.cpp', ['C12'], c11='wide|large|refs|users|be_ob|le_sm'), description='Owning and reference-only actions over functions, pointers, functors and lambdas of the same keyrings, every input byte and returned value symbolic, exactly sized buffers.')
RINGS = 'Keyrings of 1 to 8 callbacks (0 to 3 parameters, arrays, references, extended types; void and other results) in all 8 formats'
def disp(pid, text, **kw):
    SPECS[pid] = dict(units=simple('disp.cpp', [pid], plats=['def'], **kw), description=text)
disp('C13', RINGS + ', and keyrings of 255, 256, 260 callbacks: one packet written by the key, then read by a plain, single-, double-buffered or user-defined dispatcher under both policies and all ways of feeding and draining, the response read by the key; every argument and result is symbolic; calls are compared with a local call.', c11='edge256|wide_be|exts_1|mixed_1$|refs_1')
disp('C14', 'Keyrings of 1 to 4 and 254 to 300 callbacks, every unknown index value symbolic: plain dispatchers (both policies; function, pointer and iterator sources) and buffered ones after one answered packet with any part of the response drained, by bytes or in one go, followed by a second unknown packet and a known one.', c11='edge256|wide_be|small1')
disp('C15', RINGS + ': every stream of 3 packets (thorough 4) of any kind and contents byte by byte, every chunking of 2 (thorough 3), every stream of 5 (thorough 6) raw bytes, and 2 packets of keyrings of 260 and 300 callbacks; statuses, calls and outputs are compared with an independent state machine.', td=['PACKETS=4', 'CHUNKED=3', 'BYTES=6'], c11='wide_be|sgl_mixed|dbl_exts|raw_small')
disp('C16', RINGS + ': one packet whose response is drained up to any byte, while any part of a second request arrives (separate buffers), the rest drained byte-wise or through one of 6 sinks, then the second response; and responses nobody reads.', c11='custom|unread')
disp('C17', 'Keyrings whose largest request, largest response and largest parameter lists differ in every way (up to 300-byte arguments and results, extended types): announced sizes are compared with the specification and 2 packets (thorough 3) of any kind go through dispatchers whose buffers are heap blocks of exactly the announced sizes, and through single- and double-buffered ones; every access is bounds-checked.', td=['PACKETS=3'], c11='bigarg|bigger[12]|bigret|wide|noret|noargs$|exts1|refs')
disp('C32', RINGS + ' and one of 258: the same stream of 1 to 3 (thorough 2 or 3) symbolic packets (any kind, unknown ones included) through plain, single-, double-buffered and user-defined dispatchers under both policies; calls and output bytes are compared.', td=['PACKETS=3'], c11='wide1|mixed1')
SPECS['C18'] = dict(units=simple('reply.cpp', [], c11='large_be|^se$|dn|dx'), description='Replies from dispatchers with pending responses of 0 to 7 (and 255, 256) bytes, 0 or more of them drained, part of a next request received or not, with keys taking byte arrays of 1 to 16 (and 255, 256) bytes of every spelling at several indices: exactly sized sinks, every response byte symbolic; uninitialised bytes are detected.')
SPECS['C19'] = dict(units=simple('replace.cpp', [], plats=['def'], tplats=['def', 'le2c'], td=['ALLFORMS'], c11='wide_be|plain_any$'), description='Every way of replacing (compile-time reference, handle, owned functor, indexed assignment) any action at any byte of a session (before, within or after a packet, with pending output), on plain, single-, double-buffered and user-defined dispatchers under both policies; then any packet; also keyrings of 258 callbacks. All packet bytes and results symbolic.')
SPECS['C20'] = dict(units=simple('own.cpp', ['C20'], plats=['def'], tplats=['def', 'le2c'], c11='^copies|moves|plain'), description='Callbacks that count their instances and check their lifetime (copied, moved, const, move-only, memory-owning lambdas, pointers, hooks, failing copies) wrapped, called, moved, swapped, kept in vectors, replaced in plain and buffered dispatchers; symbolic state and arguments; use after free, double free and leaks are detected.')
SPECS['C21'] = dict(units=simple('own.cpp', ['C21'], td=['PAIRS'], plats=['def'], tplats=['def', 'le2c']), description='The allocation counter stays put over every path of: weak-reference dispatchers of all kinds constructed, fed any packet (thorough: any two), replaced in, copied, drained, destroyed; actions called and moved; reference-only actions, keys, tuples and views constructed and used; 300-byte payloads. All contents symbolic.')
SPECS['C25'] = dict(units=simple('exc.cpp', [], plats=['def'], tplats=['def', 'le2c'], td=['PACKETS=3'], c11='plain_any$|sgl_weak'), description='Sessions of 2 (thorough 3) packets of any kind, then one more, fed byte-wise, in chunks, through read_from, << or operator(), any one call of which throws: plain, single-, double-buffered and user-defined dispatchers under both policies, actions, parameters and results that own memory, replaced actions; exception value, packet bytes and results symbolic; leaks and buffer overruns are detected.')
SPECS['C22'] = dict(units=simple('forms.cpp', [], plats=['def'], tplats=['def', 'le2c'], tstds=('c++17', 'c++20')), description='Packets of 5 keys, responses, owning and reference-only actions, hooks, plain, single- and double-buffered dispatchers, replies: every pair of 16 kinds of source (functors as lvalues with their own state, rvalues, const, functions, std::function, pointers and iterators of six containers, single-pass iterators) and 18 kinds of sink, named member or operator, const or not; contents symbolic, exactly sized containers.')
def configs(plats, stds, **kw):
    return [Unit('wire.cpp', std=s, plat=p, ub=True, **kw) for p in plats for s in stds]
def c23(tier):
    if tier == 'thorough': return configs(ALLPLAT, ['c++11', 'c++14', 'c++17', 'c++20', 'c++23'])
    return (configs(['le2c'], ['c++11']) + configs(['le', '2c'], ['c++17'], match='fields_[23]|int_|calls_1') +
            configs(['le2c', 'def'], ['c++14', 'c++20'], match='fields_1|calls_2|int_(bool|llong|char|uint)$'))
def c24(tier):
    kw = dict(target='be', native=False)
    if tier == 'thorough': return configs(['def', 'be', '2c', 'be2c'], ['c++11', 'c++14', 'c++17', 'c++20'], **kw)
    return configs(['def', 'be2c'], ['c++17'], **kw) + configs(['be', '2c'], ['c++17'], match='fields|int_|calls', **kw)
WIRE = 'One program (every integer type; tuples, views on arrays and lists, arrays, extended types; assignment between formats; announced sizes; packets, calls, replies and streams through every kind of dispatcher) in all 8 formats against one specification of the bytes, values and sizes'
SPECS['C23'] = dict(units=c23, description=WIRE + ', compiled with no, either or both platform declarations (those true of this machine) and as C++11 to C++20 (thorough: the full product up to C++23). All values and bytes symbolic.')
SPECS['C24'] = dict(units=c24, description=WIRE + ', compiled for a big-endian host (powerpc64 memory layout) with no, either or both platform declarations (thorough: C++11 to C++20 each). All values and bytes symbolic. Counterexamples are models: there is no such machine here to replay them on.',
                    assumptions=['a big-endian powerpc64 host stands for hosts of the opposite byte order; its IR is executed, no such machine is here'])
SPECS['C27'] = dict(units=simple('session.cpp', [], plats=['def'], tplats=['def', 'le2c'], td=['MORE'], c11='small_copy|smallany_move'), description='Single- and double-buffered dispatchers under both policies, with any packet answered, its response drained up to any byte, and any part of a next packet received (quick: a ring of 4 callbacks with 2-byte arguments; thorough: others, with extended types), copied or moved by construction, assignment (to fresh or busy dispatchers), vector growth or std::swap; the original then the copy, the reverse, or both in turn go on with different packets; moved originals are destroyed first. Actions and replaced actions with state moved between and within packets. Packet bytes, results and states symbolic.')
def c28(tier):
    th = tier == 'thorough'
    return [Unit('index.cpp', std=s, ub=True, defs=['MORE'] if th else ['FEW'] if s == 'c++11' else []) for s in (('c++11', 'c++17', 'c++20') if th else ('c++11', 'c++17'))] + [Unit('width.cpp', optional=True)]
SPECS['C28'] = dict(units=c28, description='Keyrings of 1, 3, 255, 256, 257 callbacks (thorough: also 2, 7, 254, 300, 513) in two formats: every key, then every received index value (symbolic) through plain dispatchers, action lookup, indexing and buffered dispatchers, before and after a replacement; the index type at 1 to 2^32-1 callbacks.')
def c26(tier):
    if tier == 'thorough': return [Unit('defined.cpp', std=s, plat=p, ub=True, uninit=True, defs=['MORE']) for p in ALLPLAT for s in ('c++11', 'c++17', 'c++20')]
    return [Unit('defined.cpp', ub=True, uninit=True, defs=['MORE']), Unit('defined.cpp', std='c++11', plat='le2c', ub=True, uninit=True)]
SPECS['C26'] = dict(units=c26, description='Every byte not yet written is its own unconstrained unknown; whatever the library emits, stores or passes on must not depend on any (two runs differing only in them are compared by the solver). Default, built, copied and assigned tuples, views on undefined bytes, requests, responses, hooks, actions, in all 8 formats; sessions of two packets of any kind, an exception, a reply, a replacement or a move between them, drained in several ways. All values symbolic.')
PYFLAGS = ('-I' + os.path.join(ROOT, 'harness', 'pystub'), '-D_GLIBCXX_ASSERTIONS')
SPECS['C29'] = dict(units=both(lambda tier: [Unit('pywide.cpp', ub=True, native=False, flags=PYFLAGS + ('-fbracket-depth=1024', '-ftemplate-depth=2000'), match='.' if tier == 'thorough' else 'wide_be')], simple('python.cpp', [], plats=['def'], tplats=['def', 'le2c'], tstds=('c++17', 'c++20'), td=['MORE'], flags=PYFLAGS)), description='upd/python.hpp over a model of pybind11 (harness/pystub: Python values, calls, conversions with range checks, reference counts): two keyrings of 4 and 5 callbacks and one of 257 (integers, bool, arrays, references, void) x several formats: encode, decode (exact, longer and shorter responses), index; dispatchers fed through put and read_from, drained through get and write_to, with any action replaced by a Python callback before, within, or after a packet or while draining; callbacks which raise or return what does not fit. All values and packet bytes symbolic; leaks are detected.',
                    assumptions=['pybind11 and the Python interpreter are represented by the model in harness/pystub; std::regex by a function which extracts the name of the callback'])
C30 = 'py/unpadded/client.py run symbolically by CrossHair: argument lists of up to 3 (thorough 5) symbolic elements of several types and up to 12 opaque ones, responses of every built-in type (byte strings of any length and content) and opaque ones, requests suspended 0 to 2 times, two calls in turn or under way at once in any order, failures of the key and of the request.'
def run_c30(pid, tier, seed):
    import pycheck
    return pycheck.check(pid, 'client.py', 'py/unpadded/client.py', tier, seed, C30, ['CrossHair represents the Python interpreter faithfully', 'keys are stand-ins: what they encode and decode is C29'],
                         dict(MAXARGS='5', STEPS='4') if tier == 'thorough' else dict(MAXARGS='3', STEPS='3'), 400 if tier == 'thorough' else 100)
SPECS['C30'] = dict(run=run_c30, description=C30, technique='symbolic execution of the real Python code by CrossHair, decided by an SMT solver (z3)')
C33 = 'py/unpadded/hook.py run symbolically by CrossHair over stand-ins of cppimport and of the file system which may fail at any stage: an import of any short name, three imports in turn with every combination of outcomes, imports within imports, stale extensions; the include directories and flags given to the compiler for symbolic lists of extra directories, changed between imports or not.'
def run_c33(pid, tier, seed):
    import pycheck
    return pycheck.check(pid, 'hook.py', 'py/unpadded/hook.py', tier, seed, C33, ['CrossHair represents the Python interpreter faithfully', 'cppimport and the file system are stand-ins which record what is asked of them: that cppimport compiles and loads is not decided'],
                         {}, 600 if tier == 'thorough' else 150)
SPECS['C33'] = dict(run=run_c33, description=C33, technique='symbolic execution of the real Python code by CrossHair, decided by an SMT solver (z3)')
SPECS['C34'] = dict(units=simple('spell.cpp', [], plats=['def'], tplats=['def', 'le2c'], stds=('c++17', 'c++11')), description='Every way of making a keyring of 4 callbacks, taking its keys, making plain, single- and double-buffered dispatchers under both policies, tuples of 4 fields (integer, extended type, array, bool), views and slices, in 4 formats and C++11/17: announced constants, packets, two requests of any kind, fields; all values symbolic.')
SPECS['C35'] = dict(units=simple('packet.cpp', [], plats=['def'], tplats=['def', 'le2c'], stds=('c++17', 'c++11')), description='Packets of 6 keys (0 to 300-byte payloads, arrays, extended types) in 4 formats, built from arguments that are then changed and destroyed; two packets of one key kept, moved, assigned, written twice each in 4 ways in turn; packets of 3 keys alive at once; all values symbolic.')
SPECS['C36'] = dict(units=simple('nest.cpp', [], plats=['def'], tplats=['def', 'le2c'], stds=('c++17',)), description='Two buffered dispatchers of one type (single, double, user-defined; both policies) or of different ones fed with one packet each (any kind) and drained, byte by byte in every interleaving; callbacks making the same request again through the same plain dispatcher (3 ways), action, or another buffered dispatcher, 0 to 3 deep, compared with local recursion; sources and sinks that make such requests themselves, at any of their bytes; tuples invoked within one another and changed meanwhile; all values symbolic.')
SPECS['C37'] = dict(units=simple('interrupt.cpp', [], plats=['def'], tplats=['def', 'le2c'], stds=('c++17',)), description='Sources and sinks that throw after any number of bytes: single-, double-buffered and user-defined dispatchers fed by read_from, << or operator() and drained by write_to, >> or operator(), then resumed byte-wise or at once; plain dispatchers and their actions; packets, responses and hooks of keys; all contents symbolic.')
