"""The proof tasks of each property."""
from .terms import *
from .values import *
from . import solver, natives, spec, codec, tags, dispatch, store, handlers, lifecycle, fetch
from .exec import Engine

SCALARS = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'int', 'uint', 'float64', 'github.com/google/uuid.UUID']
VARINTS = ['VarInt', 'VarUint', 'VarInt64', 'VarUint64']
STRINGS = ['string', 'CompactString', 'NullableString', 'CompactNullableString', '[]byte', 'NullableBytes', 'CompactNullableBytes', 'CompactBytes']


class Task:
    def __init__(self, name, run, big=1, keep=None):
        """keep: which obligations belong to the property (the others are judged under another one)"""
        self.name, self.run, self.big, self.keep = name, run, big, keep


def engine(P):
    E = Engine(P)
    natives.install(E)
    return E


def tid_of(P, s):
    own = [t.id for t in P.types if t.name == s and t.pkg == P.pkg]
    if own:
        return own[0]
    for alt in (s, s.replace('byte', 'uint8'), s.split('/')[-1]):
        for t in P.types:
            if t.str == alt or (t.pkg + '.' + t.name if t.pkg else '') == s:
                return t.id
    return None


def wiretypes(P, dec):
    E = engine(P)
    out = []
    for t in P.types:
        if t.str.startswith('struct{') or 'untyped' in t.str or not spec.wire(E, t.id):
            continue
        if dec and not codec.decodable(E, t.id):
            continue
        out.append(t)
    return out


def weight(P, t, seen=()):
    """rough cost of verifying a type"""
    if t.id in seen:
        return 1
    if t.kind == 'struct':
        return 2 + sum(weight(P, P.types[f['type']], seen + (t.id,)) for f in t.fields)
    if t.kind in ('slice', 'ptr') and t.elem is not None:
        return 2 + weight(P, P.types[t.elem], seen + (t.id,))
    return 1


def encdec(P, types, modes):
    out = []
    for t in types:
        for m in modes:
            if m != 'enc' and not codec.decodable(engine(P), t.id):
                continue
            f = {'enc': codec.prove_enc, 'dec': codec.prove_dec, 'any': codec.prove_any}[m]
            out.append(Task('%s %s' % (m, t.str), lambda E, f=f, i=t.id: f(E, i), weight(P, t) * (1 if m == 'enc' else 4)))
    return out


def named(P, names):
    out = []
    for n in names:
        i = tid_of(P, n)
        if i is not None:
            out.append(P.types[i])
    return out


def c01(P):
    return encdec(P, named(P, SCALARS), ['enc', 'dec'])


def c02(P):
    ts = named(P, VARINTS)
    return encdec(P, ts, ['enc', 'dec']) + [Task('groups ' + t.str, lambda E, i=t.id: codec.prove_varint(E, i), 4) for t in ts]


def c03(P):
    return encdec(P, named(P, STRINGS), ['enc', 'dec'])


def c04(P):
    out = []
    simple = {t.id for t in named(P, SCALARS + VARINTS + STRINGS)}
    for t in wiretypes(P, False):
        if t.id not in simple:
            out.append(t)
    more = []
    vi = tid_of(P, 'VarInt')
    if vi is not None and P.pkg + '.peekVarInt' in P.funcs:
        more.append(Task('peekVarInt', lambda E: codec.prove_dec(E, vi, 'peekVarInt'), 3))
    return encdec(P, out, ['enc', 'dec']) + more


def c05(P):
    return encdec(P, wiretypes(P, True), ['any'])


def c06(P):
    out = [Task('encodeTags', tags.prove_enc_tags, 2), Task('peekTags', tags.prove_dec_tags, 9)]
    if P.pkg + '.peekVarUint' in P.funcs:
        out.append(Task('peekVarUint', lambda E: codec.prove_dec(E, tags.varuint(E), 'peekVarUint'), 3))
    return out


def c08(P):
    return [Task('dispatcher', dispatch.prove_dispatch, 5)]


def c07(P):
    return [Task('handle', dispatch.prove_handle, 5), Task('newKafkaClient', dispatch.prove_newclient, 1)]


def c10(P):
    return [Task('apiVersions', dispatch.prove_apiversions, 5)]


def c20(P):
    return [Task('metadata and coordinator', handlers.prove_metadata, 3), Task('heartbeat, join, leave', handlers.prove_coordination, 1)]


def c18(P):
    return [Task('syncGroup', handlers.prove_syncgroup, 3)]


def c15(P):
    return [Task('listOffsets', handlers.prove_listoffsets, 3)]


def c16(P):
    return [Task('offsetCommit', handlers.prove_offsetcommit, 3), Task('SetConsumerGroupOffset', handlers.prove_setoffset, 1)]


def posts(P):
    return [Task('SimplePost', lambda E: handlers.prove_post(E, 'SimplePost'), 1), Task('ExtendedPost', lambda E: handlers.prove_post(E, 'ExtendedPost'), 1), Task('CreatePartitionTopics', handlers.prove_createtopics, 2)]


def c17(P):
    return [Task('offsetFetch', handlers.prove_offsetfetch, 6)]


def c21(P):
    return [Task('Start, RequestStop, WaitForTermination, Restart, accept task', lifecycle.prove_lifecycle, 3), Task('NewKafkaMock', lifecycle.prove_newserver, 1),
            Task('end of a connection', lifecycle.prove_oneend, 1, lambda k: 'calls back once' in k)]


def c14(P):
    return [Task('appendMessage', fetch.prove_append, 3), Task('newMessageSetV1', fetch.prove_newset, 1), Task('messageSetV1 encoded', lambda E: fetch.prove_encset(E, False), 1),
            Task('*messageSetV1 encoded', lambda E: fetch.prove_encset(E, True), 1)]


WAITS = ('pause between', 'does not wait', 'only waits', 'adds nothing is the last')
FRAME = ('change', 'are never removed', 'is never modified', 'is never replaced', 'are not replaced', 'stay where they are', 'keeps its store', 'new object')


def waits(k):
    return any(w in k for w in WAITS)


def frame(k):
    """nothing stored is lost or moved"""
    return 'lock discipline' not in k and not k.startswith('the client registry') and any(w in k for w in FRAME)


def locking(k):
    return 'lock discipline' in k


def limit(tasks, keep):
    return [Task(t.name, t.run, t.big, (lambda k, a=t.keep: a(k) and keep(k)) if t.keep else keep) for t in tasks]


def c12(P):
    return limit([Task('fetch', fetch.prove_fetch, 5)], lambda k: not waits(k)) + limit(c14(P), lambda k: 'checksum' not in k)


def c13(P):
    return limit([Task('fetch', fetch.prove_fetch, 5)], waits)


def others(P):
    """the operations that do not post"""
    return [Task('fetch', fetch.prove_fetch, 5)] + c15(P) + c16(P) + c17(P) + c18(P) + c20(P)


def life(P):
    return [Task('Start, RequestStop, WaitForTermination, Restart, accept task', lifecycle.prove_lifecycle, 3)]


def c19(P):
    return limit(others(P) + posts(P) + life(P), locking)


def c11(P):
    return posts(P) + limit(others(P) + life(P), frame)


TASKS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': lambda P: c08(P) + c07(P), 'C09': c08, 'C10': c10,
         'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21}
