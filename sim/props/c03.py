"""C03: the database refines a multiset of entries, for every history of writes, restarts and directory orders."""
import os
from collections import Counter

from sim import pools, ops as O

LEVEL = 'exploration'
TECHNIQUE = 'seeded histories against a reference model'
RUNS = {'quick': 900, 'thorough': 12000}
RULE = ('a case is a seeded history of additions, removals, refused writes and reads over several processes and '
        'handles; non-trivial: at least one removal took effect, or a value with special characters was stored. '
        'distinct: by the digest of the executed operations and of the contents read')
STATES = 'distinct contents of the database observed at the end of a session'
REAL = ['ieml.ieml_database (IEMLDatabase, Descriptors, Structure)', 'IEML parser', 'pandas', 'find, xargs, cat, sed, uniq']
STUB = ['order of directory entries (seeded)', 'clock']
ASSUMPTIONS = ['values are text without NUL or lone surrogates; leading and trailing blanks are not part of a value, an '
               'end of line inside a value is read back as \\n',
               'the parser gives the canonical form of an ieml: it names the entries in the model too']


def prepare():
    from sim import world
    world.install()


ROOTS = ['O:M:.', 'E:']
IN_ROOTS = ['O:M:.', 'U:M:.', 'A:M:.', 'U:S:.', 'A:B:.', 'O:S:.', 'wa. a.', 'm1(U:S:. U:B:.)', 'A:S:. A:B:.', 'U:S:. m1(A:S:. A:B:.)', '(U:S:.)', '(U:S:. A:B:.)', 'S:. b.',
            'U:S:. A:T:. [>constant>U:S:. "foo"]']


def generate(rng, i, tier):
    iemls = pools.some(rng, pools.USLS, rng.choice([2, 3, 5, 8]))
    if rng.random() < 0.35:
        iemls += [l for l in pools.POLYMORPHEMES if len(l) > 90][:rng.choice([2, 3])]
    if rng.random() < 0.4:
        iemls += pools.some(rng, pools.NOT_NORMALIZED, 2)
    n = rng.choice([4, 8, 14, 25])
    nasty = rng.choice([0.2, 0.6, 1])
    ops = []
    structure = rng.choice([0.25, 0.25, 0.25, 0.8])
    if structure > 0.5 and rng.random() < 0.6:
        iemls = iemls[:2]
    if rng.random() < 0.2:
        # a structure that defines a dictionary, and usls that are in it
        structure = 0
        iemls = pools.some(rng, IN_ROOTS, rng.choice([3, 6, 9]))
        for r in ROOTS:
            ops.append({'op': 'adds', 'ieml': r, 'key': 'is_root', 'value': 'True', 'h': 0})
            ops.append({'op': 'add', 'ieml': r, 'lang': rng.choice(pools.LANGS), 'desc': 'translations', 'value': pools.value(rng, nasty), 'h': 0})
    legacy = rng.random() < 0.15
    for _ in range(n):
        r = rng.random()
        if r < 0.06:
            ops.append({'op': 'restart'})
        elif r < 0.14:
            ops.append({'op': 'bad', 'what': rng.choice(['lang', 'desc', 'ieml', 'key', 'inhibition', 'bool', 'type', 'empty']),
                        'ieml': rng.choice(iemls), 'bad': rng.choice(pools.BAD_IEML)})
        elif r < 0.26:
            ops.append({'op': 'read', 'ieml': rng.choice(iemls), 'lang': rng.choice(pools.LANGS),
                        'desc': rng.choice(pools.DESCS), 'files': pools.some(rng, iemls, rng.randrange(3))})
        elif legacy and r < 0.32:
            ops.append({'op': rng.choice(['legacy', 'legacy_rm']), 'ieml': rng.choice(['b. a.', 'e. b. a.', '(b. a.)']), 'how': rng.choice(['lang', 'all', 'value']),
                        'lang': rng.choice(pools.LANGS), 'value': rng.choice(pools.WORDSV[:4]), 'structure': rng.random() < 0.3, 'key': rng.choice(pools.INHIBITIONS[:2])})
        else:
            ops.append(O.gen_db_op(rng, iemls, nasty, structure, history=ops) if rng.random() > 0.01 else O.gen_bulk(rng, iemls))
        ops[-1]['h'] = rng.randrange(2)
    return {'ops': ops, 'use_cache': rng.random() < 0.7}


def type_of(ieml):
    from ieml.usl.parser import IEMLParser
    from ieml.usl.decoration.instance import InstancedUSL
    from ieml.dictionary.script import Script
    u = IEMLParser().parse(ieml)
    t = u.usl if isinstance(u, InstancedUSL) else u
    name = 'morpheme' if isinstance(t, Script) else type(t).__name__.lower()
    return name, len(u) != 1


def rows(df):
    """The content of a pandas table of the database, as a multiset"""
    return Counter(tuple(map(str, r)) for r in df.reset_index().itertuples(index=False, name=None))


def expected_rows(model, kind):
    return Counter({k[1:]: n for k, n in model.c.items() if k[0] == kind})


def same(ctx, what, got, want):
    if got != want:
        if isinstance(got, Counter):
            detail = 'missing {} unexpected {}'.format(list((want - got).items())[:5], list((got - want).items())[:5])
        else:
            detail = 'got {!r} instead of {!r}'.format(got, want)
        ctx.violation('wrong-read', '{}: {}'.format(what, detail))


def verify(ctx, db, model, types):
    d = ctx.must('get_descriptors', db.get_descriptors)
    same(ctx, 'get_descriptors', rows(d.df), expected_rows(model, 'D'))
    s = ctx.must('get_structure', db.get_structure)
    same(ctx, 'get_structure', rows(s.df), expected_rows(model, 'S'))
    for ieml in model.iemls():
        want = model.descriptors(ieml)
        got = ctx.must('get_descriptor', lambda: d.get_descriptor(ieml))
        same(ctx, 'get_descriptor({})'.format(ieml),
             {(l, k): sorted(v) for k, by in got.items() for l, v in by.items() if v}, want)
    all_ = ctx.must('list', db.list)
    same(ctx, 'list()', sorted(all_), model.iemls())
    for t in ('morpheme', 'polymorpheme', 'lexeme', 'word'):
        for paradigm in (None, True, False):
            got = ctx.must('list', lambda: db.list(t, paradigm=paradigm))
            want = [i for i in model.iemls() if types(i)[0] == t and (paradigm is None or types(i)[1] == paradigm)]
            same(ctx, 'list({}, paradigm={})'.format(t, paradigm), sorted(got), sorted(want))
    # with the dictionary, when the structure defines one
    o = ctx.attempt(db.get_dictionary)
    if o.status == 'ok':
        known = in_dictionary(o.value, model.iemls())
        ctx.probe('with dictionary', len(known))
        got = ctx.must('list(parse)', lambda: db.list(parse=True))
        same(ctx, 'list(parse=True)', sorted(map(str, got)), sorted(known.values()))
        o = ctx.attempt(db.get_list)
        if o.status == 'ok':
            ctx.probe('with list', len(known))
            got = {e['ieml']: {(l, k): sorted(v) for k in pools.DESCS for l, v in e.get(k, {}).items() if v} for e in o.value}
            same(ctx, 'get_list', got, {i: model.descriptors(i) for i in known})
        else:
            ctx.probe('no list ' + o.short[:60])


def in_dictionary(dictionary, iemls):
    """Those whose morphemes are in the dictionary"""
    from ieml.usl.parser import IEMLParser
    from ieml.exceptions import CannotParse
    parser, res = IEMLParser(dictionary=dictionary), {}
    for i in iemls:
        try:
            res[i] = str(parser.parse(i))
        except CannotParse:
            pass
    return res


def verify_one(ctx, db, model, op, types):
    ieml = O.canon(op['ieml'])
    lang, desc = op['lang'], op['desc']
    d = ctx.must('get_descriptors', db.get_descriptors)
    same(ctx, 'get_values({}, {}, {})'.format(ieml, lang, desc),
         sorted(ctx.must('get_values', lambda: d.get_values(ieml, lang, desc))), model.values(ieml, lang, desc))
    by = model.descriptors(ieml)
    for l in (None, lang):
        for k in (None, desc):
            got = ctx.must('get_values_partial', lambda: d.get_values_partial(ieml, l, k))
            want = {(ieml,) + lk: v for lk, v in by.items() if (l is None or lk[0] == l) and (k is None or lk[1] == k)}
            same(ctx, 'get_values_partial({}, {}, {})'.format(ieml, l, k), {a: sorted(b) for a, b in got.items()}, want)
    got = ctx.must('get_values_partial', lambda: d.get_values_partial(None, lang, None))
    want = {}
    for i in model.iemls():
        for (l, k), v in model.descriptors(i).items():
            if l == lang:
                want[(i, l, k)] = v
    same(ctx, 'get_values_partial(None, {})'.format(lang), {a: sorted(b) for a, b in got.items()}, want)
    s = ctx.must('get_structure', db.get_structure)
    for key in ('inhibition', 'is_root', 'is_ignored'):
        same(ctx, 'structure.get_values({}, {})'.format(ieml, key),
             sorted(ctx.must('structure.get_values', lambda: s.get_values(ieml, key))), model.structure(ieml, key))
    got = ctx.must('structure.get_values_partial', lambda: s.get_values_partial(ieml))
    same(ctx, 'structure.get_values_partial({})'.format(ieml), {a: sorted(b) for a, b in got.items()},
         {(ieml, k): model.structure(ieml, k) for k in ('inhibition', 'is_root', 'is_ignored') if model.structure(ieml, k)})
    files = sorted({O.canon(f) for f in op['files']})
    paths = [os.path.relpath(ctx.must('path_of', lambda: db.path_of(f)), db.folder) for f in files]
    got = ctx.must('get_descriptors(files)', lambda: db.get_descriptors(files_list=paths))
    same(ctx, 'get_descriptors(files of {})'.format(files), rows(got.df),
         Counter({k[1:]: n for k, n in model.c.items() if k[0] == 'D' and k[1] in files}))


def bad_write(db, op):
    w, i = op['what'], op['ieml']
    if w == 'lang':
        db.add_descriptor(i, 'xx', 'translations', 'v')
    elif w == 'desc':
        db.add_descriptor(i, 'fr', 'nothing', 'v')
    elif w == 'ieml':
        db.add_descriptor(op['bad'], 'fr', 'translations', 'v')
    elif w == 'key':
        db.add_structure(i, 'nothing', 'True')
    elif w == 'inhibition':
        db.add_structure(i, 'inhibition', 'nothing')
    elif w == 'bool':
        db.add_structure(i, 'is_root', '12')
    elif w == 'type':
        db.add_descriptor(i, 'fr', 'translations', 12)
    elif w == 'empty':
        db.add_descriptor(i, None, 'translations', 'v')


def run(case, ctx):
    from sim import world
    from sim.model import Model
    folder = os.path.join(ctx.root, 'db')
    os.makedirs(folder)
    model = Model()
    sessions = [[]]
    for op in case['ops']:
        if op['op'] == 'restart':
            sessions.append([])
        else:
            sessions[-1].append(op)
    cache = {}

    def types(i):
        if i not in cache:
            cache[i] = type_of(i)
        return cache[i]

    def session(ops):
        handles = [world.database(folder, use_cache=case['use_cache']), world.database(folder, use_cache=False)]
        for op in ops:
            db = handles[op['h']]
            k = op['op']
            if k == 'bad':
                o = ctx.attempt(lambda: bad_write(db, op))
                if o.status == 'ok':
                    ctx.violation('bad-write-accepted', op)
                ctx.trace('bad', op['what'], o.short)
                ctx.probe('refused_writes')
            elif k == 'read':
                verify_one(ctx, db, model, op, types)
                ctx.trace('read')
                ctx.probe('reads')
            elif k == 'legacy':
                # an entry of an older version of the library, under an ieml that is not canonical
                p = ctx.must('path_of', lambda: db.path_of(op['ieml'], descriptor=not op['structure'], mkdir=True, normalize=False))
                with open(p, 'a', encoding='utf8') as fp:
                    if op['structure']:
                        fp.write('"{}" inhibition "{}"\n'.format(op['ieml'], op['key']))
                        model.add_structure(op['ieml'], 'inhibition', op['key'])
                    else:
                        fp.write('"{}" {} translations "{}"\n'.format(op['ieml'], op['lang'], op['value']))
                        model.add_descriptor(op['ieml'], op['lang'], 'translations', op['value'])
                ctx.probe('legacy')
            elif k == 'legacy_rm':
                if op['structure']:
                    args = {'lang': ('inhibition',), 'all': (), 'value': ('inhibition', op['key'])}[op['how']]
                    ctx.must('remove_structure(normalize=False)', lambda: db.remove_structure(op['ieml'], *args, normalize=False))
                    model.remove_structure(op['ieml'], *args)
                else:
                    args = {'lang': (op['lang'], 'translations'), 'all': (), 'value': (op['lang'], 'translations', op['value'])}[op['how']]
                    ctx.must('remove_descriptor(normalize=False)', lambda: db.remove_descriptor(op['ieml'], *args, normalize=False))
                    model.remove_descriptor(op['ieml'], *args)
                ctx.probe('legacy_rm')
            else:
                before = sum(model.c.values())
                ctx.must(k, lambda: O.apply_db(db, op))
                O.apply_model(model, op)
                after = sum(model.c.values())
                if after < before or (k == 'add' and op['value'] in pools.NASTY and after > before):
                    ctx.nontrivial = True
                ctx.probe('removed' if after < before else 'added' if after > before else 'noop')
                ctx.trace(k, op['ieml'], after)
        verify(ctx, handles[0], model, types)
        verify(ctx, handles[1], model, types)
        return model.c, ctx.stats, ctx.nontrivial, ctx.events

    for ops in sessions:
        o = ctx.in_child(lambda: session(ops))
        if o.status != 'ok':
            if o.exc == 'HarnessError':
                raise RuntimeError(o.tb)
            ctx.violation('unexpected-error', '{}\n{}'.format(o, o.tb))
        model.c, ctx.stats, nt, events = o.value
        ctx.nontrivial = ctx.nontrivial or nt
        for e in events[len(ctx.events):]:
            ctx.trace(e)
        ctx.state(sorted(model.c.items()))
        ctx.probe('sessions')


def shrinks(case):
    import copy
    for i, op in enumerate(case['ops']):
        for key, simple in (('value', 'v'), ('ieml', 'a.'), ('files', [])):
            if op.get(key) not in (None, simple):
                c = copy.deepcopy(case)
                c['ops'][i][key] = simple
                yield c
