"""C12: all processes agree on canonical forms, orders and dictionaries."""
import os
import random

from sim import pools, txn, ops as O

LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation: the same questions to processes with other hash seeds, histories, directory orders and caches'
RUNS = {'quick': 320, 'thorough': 12000}
RULE = ('a case is a seeded set of questions (canonical form, factorization, singular sequences, tables and headers, order, places, over random and '
        'chosen scripts and usls, some written in two ways) or a seeded database (roots, paradigms, overlapping ones, descriptors, usls), put to three processes '
        'with other hash seeds, earlier computations, orders of directory entries and cache states (none, empty, '
        'written by itself or by another). All answers must be equal. non-trivial: at least one question has an answer which is not an error. '
        'distinct: by the digest of the answers')
STATES = 'distinct answers (kind of question, answer)'
REAL = ['ieml.dictionary', 'ieml.usl', 'ieml.ieml_database', 'ieml.commons (caches)', 'ply', 'three Python processes']
STUB = ['order of directory entries', 'clock', 'the choice of PYTHONHASHSEED']
ASSUMPTIONS = ['the processes run the same version of the library, of Python and of its dependencies, on one machine']
TIMEOUT = 90
PEERS = []


def peer_prepare():
    from sim import world
    import logging
    logging.disable(logging.CRITICAL)
    world.install()


def prepare():
    from sim.peer import Peer
    h = int(os.environ['PYTHONHASHSEED'])
    for k in (1, 2):
        PEERS.append(Peer('c12', random.Random('{}:{}'.format(h, k)).randrange(1, 2 ** 32 - 1)))
    peer_prepare()
    for p in PEERS:
        p.wait()


# ---------------------------------------------------------------- questions

MARKS = ":.-',_;"
REMARKABLE = ['wo', 'wa', 'y', 'o', 'e', 'wu', 'we', 'u', 'a', 'i', 'j', 'g', 's', 'b', 't', 'h', 'c', 'k', 'm', 'n', 'p', 'x', 'd', 'f', 'l']


def gen_script(rng, layer, wide=0.3):
    """A random script, as a tree: ['+', [...]], ['*', layer, [...]] or a text"""
    def product(layer):
        if layer == 0:
            return rng.choice('EUASBTUASBTOMFI') + ':'
        if layer == 1 and rng.random() < 0.4:
            return rng.choice(REMARKABLE) + '.'
        return ['*', layer, [term(layer - 1) for _ in range(rng.choice([1, 2, 2, 3]))]]

    def term(layer):
        if rng.random() < wide:
            return ['+', [product(layer) for _ in range(rng.choice([2, 2, 3, 4]))]]
        return product(layer)
    return term(layer)


def render(tree, rng=None):
    """The text of a tree; with the terms of its sums in a seeded order"""
    if isinstance(tree, str):
        return tree
    if tree[0] == '+':
        l = [render(t, rng) for t in tree[1]]
        if rng is not None:
            rng.shuffle(l)
        return '+'.join(l)
    return ''.join(render(t, rng) for t in tree[2]) + MARKS[tree[1]]


SIZES = {'O': 2, 'M': 3, 'F': 5, 'I': 6}


def size(tree):
    """An upper bound of the number of singular sequences"""
    if isinstance(tree, str):
        return SIZES.get(tree[0], 1)
    if tree[0] == '+':
        return sum(map(size, tree[1]))
    r = 1
    for t in tree[2]:
        r *= size(t)
    return r


def gen_word(rng, word=0.6):
    """A lexeme or a word, some of its parts with variations; written twice"""
    def pm(vary):
        l = rng.sample(['S:', 'B:', 'T:', 'a.', 'b.', 'e.', 'U:', 'A:', 'wo.', 'k.m.-', 'l.', 'u.A:.-'], 5)
        c, g = l[:rng.choice([0, 1, 2])], []
        if rng.random() < vary:
            g = [l[2:4], l[4:]][:rng.choice([1, 1, 2])]
        elif not c:
            c = l[:1]

        def text():
            for x in [c, g] + g:
                rng.shuffle(x)
            return ' '.join(c + ['m1({})'.format(' '.join(x)) for x in g])
        return text

    def lexeme():
        a, b = pm(0.4), pm(0.6)
        empty = rng.random() < 0.4
        return lambda: '({})({})'.format('' if empty else a(), b())
    if rng.random() >= word:
        t = lexeme()
        return ['usl', [t(), t()]]
    roles = rng.choice([['E:T:.', 'E:.n.-', 'E:.d.-', 'E:.t.-'], ['E:A:.', 'E:A:. E:A:.', 'E:A:. E:A:. E:A:.'], ['E:S:.', 'E:.n.-', 'E:.l.-'], ['E:A:.', 'E:A:. E:U:.']])
    parts = [(r, lexeme()) for r in roles[:rng.choice([1, 2, 3, 4])]]
    focus = rng.randrange(len(parts))

    def text():
        return '[{}]'.format(' > '.join(('! ' if i == focus else '') + r + ' ' + t() for i, (r, t) in enumerate(parts)))
    return ['usl', [text(), text()]]


def gen_text(rng, small=None):
    if rng.random() < 0.15:
        return gen_word(rng)
    if rng.random() < 0.5:
        t = gen_script(rng, rng.choice([0, 1, 1, 2, 2, 2, 3]), rng.choice([0.1, 0.3, 0.5]))
        if size(t) <= 40 and small is not None:
            small.append(render(t))
        return ['script', [render(t), render(t, rng), render(t, rng)]]
    k, t = pools.gen_text(rng, 0.1, kinds=('usl', 'usl', 'script'))
    if rng.random() < 0.4 and k == 'usl':
        l = rng.sample(pools.MORPHEMES + ['S:', 'B:', 'u.A:.-', 'k.a.-'], rng.choice([2, 3, 4]))
        g = rng.sample(['E:', 'S:', 'B:', 'T:', 'a.', 'b.', 'U:M:.', 'M:M:.', 'e.', 'O:'], rng.choice([0, 2, 3, 4]))

        def text():
            x, gr = list(l), [list(g[:2]), list(g[2:])]
            for y in [x, gr] + gr:
                rng.shuffle(y)
            return ' '.join(x + ['m1({})'.format(' '.join(z)) for z in gr if z])
        if rng.random() < 0.3:
            a, b = text(), text()
            return [k, ['({})'.format(a), '({})'.format(b)]]
        return [k, [text(), text(), text()]]
    return [k, [t]]


def gen_questions(rng):
    small = []
    texts = [gen_text(rng, small) for _ in range(rng.choice([3, 6, 10]))]
    res = []
    for k, l in texts:
        kinds = ['str', 'ss', 'paths', 'factorize'] + (['morphemes', 'rebuild', 'usltable'] if k == 'usl' else ['tables'])
        for what in rng.sample(kinds, rng.choice([2, 3, len(kinds)])):
            res.append([what, k, l[:1] if what == 'usltable' else l])
    scripts = [l[0] for k, l in texts if k == 'script']
    if len(small) > 1:
        res.append(['factorize-list', 'script', small])
    # sums with many terms are where a factorization has choices
    n = rng.choice([2, 3, 4, 6, 9])
    a, b, c = (rng.sample(['U:', 'A:', 'S:', 'B:', 'T:', 'E:'], rng.choice([1, 2, 3])) for _ in range(3))
    cells = [x + y + z + '.' for x in a for y in b for z in c]
    s = rng.sample(cells, min(n, len(cells)))
    res.append(['factorize', 'script', ['+'.join(s), '+'.join(reversed(s))]])
    # the same with two layers
    cells2 = [x + y + '-' for x in rng.sample(cells, min(3, len(cells))) for y in ['a.', 'b.', 's.', 'U:M:.', 'O:M:.'][:rng.choice([2, 3, 5])]]
    s = rng.sample(cells2, min(n, len(cells2)))
    res.append(['factorize', 'script', ['+'.join(s), '+'.join(reversed(s))]])
    # and products of sums which can be factorized in several ways
    l = [x + ':' + y + ':.' for x in 'SBTUA' for y in 'SBTUA']

    def some():
        return '+'.join(rng.sample(l, rng.choice([2, 3, 4, 5])))
    res.append(['factorize', 'script', ['+'.join(some() + some() + '-' for _ in range(rng.choice([1, 1, 2])))]])
    l = [t for _, ts in texts for t in ts] + pools.some(rng, pools.MORPHEMES + pools.PARADIGMS + pools.POLYMORPHEMES[:6] + pools.LEXEMES, 6)
    orders = []
    for _ in range(2):
        rng.shuffle(l)
        orders.append(list(l))
    res.append(['sort', 'usl', orders])
    s = pools.some(rng, pools.MORPHEMES + pools.PARADIGMS, 8) + scripts
    rng.shuffle(s)
    res.append(['sort', 'script', [s, sorted(s)]])
    return res


TIES = ['U:+A:+S:.', 'A:+S:+B:.', 'M:.', 'A:+S:.', 'S:+B:.', 'O:.', 'B:+T:.', 'U:+A:+S:+B:.', 'A:+S:+B:+T:.', 'O:+M:.']


def gen_db(rng):
    """Direct writes and transactions that make a database"""
    body = []

    def add(ieml, k=1):
        for _ in range(k):
            body.append({'op': 'add', 'ieml': ieml, 'lang': rng.choice(pools.LANGS), 'desc': rng.choice(pools.DESCS), 'value': pools.value(rng, 0.1)})
    roots = pools.some(rng, [r for r in txn.ROOTS if r not in ('wo.', 'a.')], rng.choice([1, 1, 2, 3]))
    paradigms = pools.some(rng, txn.INSIDE + ['U:M:.+A:M:.', 'U:S:.+A:S:.', 'O:S:.+O:B:.', 'U:S:.+A:B:.', 'U:M:.+A:S:.', 'O:S:+B:.', 'M:M:.U:.-+M:M:.A:.-',
                                              'M:S:.U:.-', 'S:M:.O:.-+B:M:.O:.-', 'O:M:.', 'S:M:.+B:M:.', 'M:S:.+M:B:.'], rng.choice([3, 6, 10]))
    # (get_list() can't give the class of a word)
    lexemes = [gen_word(rng, 0.03)[1][0] for _ in range(rng.choice([6, 60]))]
    usls = pools.some(rng, lexemes + pools.USLS + ['U:S:.', 'A:B:.', 'U:S:. A:B:.', 'S:S:.', 'S:B:. B:S:.'], rng.choice([1, 3, 6, 12]))
    if rng.random() < 0.8:
        roots.append('E:')
    if rng.random() < 0.6:
        # those that have the morphemes of the usls
        roots = ['E:', 'O:M:.', 'M:M:.u.-', 'M:', 'O:', 'M:O:.', 'O:O:.', 'M:M:.', 's.M:M:.-', 'O:M:.A:.-'][:rng.choice([5, 10, 10])]
        rng.shuffle(roots)
    if rng.random() < 0.5:
        # one dimension: several paradigms of the same size contain another one
        roots.append('F:.')
        paradigms += pools.some(rng, TIES, rng.choice([3, 5, 8]))
    for r in roots:
        add(r)
        body.append({'op': 'adds', 'ieml': r, 'key': 'is_root', 'value': 'True'})
        for inh in pools.some(rng, pools.INHIBITIONS, rng.choice([0, 0, 1, 3])):
            body.append({'op': 'adds', 'ieml': r, 'key': 'inhibition', 'value': inh})
    for p in paradigms + usls:
        add(p, rng.choice([1, 1, 2]))
        if rng.random() < 0.04:
            body.append({'op': 'adds', 'ieml': p, 'key': 'is_ignored', 'value': 'True'})
    rng.shuffle(body)
    return body


def generate(rng, i, tier):
    if i % 3 == 2:
        return {'mode': 'db', 'body': gen_db(rng), 'states': [[rng.randrange(1, 1 << 40), rng.choice(['none', 'first', 'own', 'shared', 'shared']),
                                                               gen_questions(rng)[:6] if rng.random() < 0.4 else []] for _ in range(3)]}
    qs = gen_questions(rng)
    return {'mode': 'questions', 'questions': qs, 'warm': [[], rng.choice([[], gen_questions(rng)]), gen_questions(rng) + list(reversed(qs))[:6]]}


def shrinks(case):
    import copy
    for key in ('questions', 'body'):
        l = case.get(key) or []
        size = len(l)
        while size >= 1:
            for i in range(0, len(l), size):
                c = dict(case)
                c[key] = l[:i] + l[i + size:]
                yield c
            size //= 2
    for n, q in enumerate(case.get('questions') or []):
        if q[0] != 'sort':
            for m in range(len(q[2])):
                if len(q[2]) > 1:
                    c = copy.deepcopy(case)
                    del c['questions'][n][2][m]
                    yield c
        else:
            for m in sorted(set(q[2][0])):
                c = copy.deepcopy(case)
                c['questions'][n][2] = [[t for t in l if t != m] for l in q[2]]
                yield c
    if case.get('warm'):
        for n in range(3):
            if case['warm'][n]:
                c = copy.deepcopy(case)
                c['warm'][n] = []
                yield c
    if case.get('states'):
        for n in range(3):
            for m, v in ((1, 'none'), (2, [])):
                if case['states'][n][m] != v:
                    c = copy.deepcopy(case)
                    c['states'][n][m] = v
                    yield c


# ---------------------------------------------------------------- answers (run in the peers)

def nested(x):
    if hasattr(x, 'tolist'):
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return [nested(y) for y in x]
    return str(x)


def answer(what, kind, texts):
    """One answer for all the ways of writing the question, or each one if they differ"""
    from sim import parse
    from ieml.dictionary.script import Script
    res = []
    for t in texts:
        try:
            if what == 'sort':
                def parsed():
                    for x in t:
                        try:
                            u = parse.parse(kind, x)
                        except Exception:
                            continue
                        # there is no order between a script and an usl
                        if kind == 'script' or not isinstance(u, Script):
                            yield u
                r = [str(x) for x in sorted(parsed())]
            elif what == 'factorize-list':
                from ieml.dictionary.script.tools import factorize
                from ieml.dictionary.script import script
                r = str(factorize([script(x) for x in texts]))
            elif what == 'factorize':
                if kind == 'script':
                    from ieml.dictionary.script import script
                    r = str(script(t, factorize=True))
                else:
                    from ieml.usl.parser import IEMLParser
                    r = str(IEMLParser().parse(t, factorize_script=True))
            else:
                u = parse.parse(kind, t)
                if what == 'str':
                    r = parse.describe(u)
                elif what == 'ss':
                    r = [str(s) for s in u.singular_sequences]
                elif what == 'tables':
                    if not hasattr(u, 'tables_script'):
                        r = None
                    else:
                        r = [[str(x) for x in u.tables_script], [nested(c) for c in u.cells], nested(u.headers)]
                elif what == 'paths':
                    r = [[str(p), str(v)] for p, v in u.iter_structure_path()]
                elif what == 'morphemes':
                    r = [str(m) for m in u.morphemes]
                elif what == 'rebuild':
                    # from its paths and their values, in three orders
                    l = [(str(p), str(v)) for p, v in u.iter_structure_path_by_script_ss()]
                    r = [rebuilt(x) for x in (l, sorted(l), l[::-1])]
                elif what == 'usltable':
                    r = usl_tables(u)
            r = ['ok', r]
        except Exception as e:
            r = ['error', type(e).__name__]
        if r not in res:
            res.append(r)
    return res


def rebuilt(l):
    from ieml.usl.usl import usl
    try:
        return str(usl(l))
    except Exception as e:
        return type(e).__name__


def usl_tables(u):
    """The ways of cutting the usl in dimensions, and its two dimensional tables along some of them"""
    import itertools
    from ieml.usl.table import UslTable2D, enumerate_partitions
    if len(u.singular_sequences) > 12:
        return None
    dim, parts = enumerate_partitions(u)
    parts = parts[:20]
    res = [dim, [[str(p) for p in x] for x in parts]]
    paths = list({str(p): p for x in parts for p in x}.values())
    rng = random.Random(str(u))
    pairs = list(itertools.permutations(paths, 2))
    for rows, columns in [(None, p) for p in rng.sample(paths, min(4, len(paths)))] + rng.sample(pairs, min(1, len(pairs))):
        try:
            t = UslTable2D(u, rows=rows, columns=columns)
            r = [[str(x) for x in t.rows], [str(x) for x in t.columns], nested(t.cells)]
        except Exception as e:
            r = type(e).__name__
        res.append([str(rows), str(columns), r])
    return res


def answers(warm, questions):
    for q in warm:
        answer(*q)
    return [answer(*q) for q in questions]


def database(folder, cache_folder, warm):
    """The dictionary and the list; the list in its order"""
    from sim import world, describe
    for q in warm:
        answer(*q)
    db = world.database(folder, use_cache=cache_folder is not None, cache_folder=cache_folder)
    res = {}
    for name, fn in (('dictionary', lambda: describe.dictionary(db.get_dictionary())),
                     ('list', lambda: nested_list(db.get_list())),
                     ('usls', lambda: sorted(db.list())),
                     ('scripts', lambda: [str(x) for x in db.get_dictionary().scripts])):
        try:
            res[name] = fn()
        except Exception as e:
            res[name] = ['error', type(e).__name__]
    return res


def nested_list(l):
    return [[e['ieml'], {k: (v if not isinstance(v, dict) else {a: sorted(b) for a, b in v.items()}) for k, v in e.items() if k != 'index'},
             str(e['index'])] for e in l]


def run(case, ctx):
    import json
    import shutil

    def ask(n, fn, *args):
        """The answer of process n, in a new process"""
        if n == 0:
            o = ctx.in_child(lambda: globals()[fn](*args))
            r = ('ok', o.value) if o.status == 'ok' else ('crash', str(o) + '\n' + str(o.tb))
        else:
            r = PEERS[n - 1].call(fn, *args)
        if r[0] != 'ok':
            ctx.violation('failed', '{} in process {}: {}'.format(fn, n, r[1]))
        return r[1]

    if case['mode'] == 'questions':
        res = [ask(n, 'answers', case['warm'][n], case['questions']) for n in range(3)]
        for q, *l in zip(case['questions'], *res):
            ctx.trace(q, l[0])
            ctx.state(q[0], l[0])
            ctx.probe('question ' + q[0])
            for n in (1, 2):
                if l[n] != l[0]:
                    ctx.violation('disagree', '{}: process 0 answers {}, process {} (another hash seed, {} earlier questions) answers {}'.format(
                        q, l[0], n, len(case['warm'][n]), l[n]))
            if len(l[0]) > 1 and q[0] in ('str', 'factorize'):
                ctx.violation('form', '{}: the same thing written in several ways gives {}'.format(q, l[0]))
            if any(r[0] == 'ok' for r in l[0]):
                ctx.nontrivial = True
        return

    from sim import world
    folder = os.path.join(ctx.root, 'A')
    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'))
    g = ctx.must('clone', lambda: world.open_replica(origin, folder))
    db = world.database(folder, use_cache=False)
    for o in case['body']:
        ctx.must('write', lambda: O.apply_db(db, o))
    res = []
    for n, (seed, cache, warm) in enumerate(case['states']):
        ctx.ctl.readdir_seed = seed
        where = None if cache == 'none' else os.path.join(ctx.root, 'cache-' + ('shared' if cache == 'shared' else str(n)))
        if cache == 'own':
            ask(n, 'database', folder, where, [])
        res.append(ask(n, 'database', folder, where, warm))
        ctx.probe('database, cache ' + cache)
    for n in (1, 2):
        for k in res[0]:
            if res[n][k] != res[0][k]:
                a, b = res[0][k], res[n][k]
                if isinstance(a, dict) and isinstance(b, dict):
                    k += ' ' + next(x for x in a if a[x] != b.get(x))
                    a, b = next((a[x], b.get(x)) for x in a if a[x] != b.get(x))
                    if isinstance(a, dict) and isinstance(b, dict):
                        a, b = {x: v for x, v in a.items() if b.get(x) != v}, {x: v for x, v in b.items() if a.get(x) != v}
                ctx.violation('disagree', 'the {} of the database: process 0 {} gives {}, process {} {} gives {}'.format(
                    k, case['states'][0][:2], str(a)[:1200], n, case['states'][n][:2], str(b)[:1200]))
    for k in ('dictionary', 'list'):
        r = res[0][k]
        ctx.probe('{}: {}'.format(k, ' '.join(r) if isinstance(r, list) and r[:1] == ['error'] else 'computed' if len(r) else 'empty'))
    ctx.trace(json.dumps(res[0], sort_keys=True)[:100000])
    ctx.state('database', json.dumps(res[0], sort_keys=True))
    if isinstance(res[0]['dictionary'], dict):
        ctx.nontrivial = True
        ctx.probe('tables', len(res[0]['dictionary']['tables']))
