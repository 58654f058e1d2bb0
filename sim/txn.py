"""Transactions, as data: generated without the code under test, applied to a replica."""
from sim import pools, ops as O

# root paradigms and what is inside them; some overlap, some are nested, some have several tables
ROOTS = ['O:M:.', 'M:M:.', 'U:M:.', 'M:M:.O:.-', 'O:O:.', 'M:O:.', 'M:M:.u.-', 'O:M:.M:M:.-+M:M:.O:M:.-', 'S:.U:.-+B:.T:.-',
         'M:.', 'O:S:.', 's.M:M:.-', 'M:.-', 'wo.', 'a.', 'M:M:.O:M:.-']
INSIDE = ['U:M:.', 'A:M:.', 'O:S:.', 'O:B:+T:.', 'M:S:.', 'S:M:.', 'S:+B:M:.', 'M:.', 'M:O:.-', 'S:M:.O:.-', 'M:M:.U:.-', 'S:S:.O:.-',
          'O:U:.', 'M:U:.', 'S:O:.', 'M:M:.', 'O:M:.', 's.S:M:.-', 's.M:B:.-', 'S:S:+B:.', 'B:M:.O:.-', 'wo.', 'O:+M:M:.']

EXCEPTIONS = {'ValueError': ValueError, 'KeyError': KeyError, 'KeyboardInterrupt': KeyboardInterrupt,
              'SystemExit': SystemExit, 'OSError': OSError, 'GeneratorExit': GeneratorExit, 'AssertionError': AssertionError,
              'StopIteration': StopIteration, 'MemoryErrorLike': RuntimeError}


def descriptors(rng, nasty=0.3):
    return {l: [v for v in (pools.value(rng, nasty) for _ in range(rng.choice([0, 1, 1, 2]))) if v.strip()]
            for l in pools.LANGS}


def gen_raw(rng, iemls, history=None, n=None, nasty=0.3):
    body = []
    hist = [o for h in (history or []) if h['op'] == 'raw' for o in h['body']]
    for _ in range(n or rng.choice([1, 2, 3, 5])):
        body.append(O.gen_db_op(rng, iemls, nasty, history=hist + body))
    return {'op': 'raw', 'body': body}


def gen_dict(rng):
    k = rng.choice(['root', 'root', 'root', 'para', 'para', 'seti', 'del', 'delroot', 'upd', 'setd', 'migrate'])
    if k == 'root':
        op = {'op': k, 'script': rng.choice(ROOTS), 'inhibitions': pools.some(rng, pools.INHIBITIONS, rng.randrange(3)),
              'tr': descriptors(rng), 'co': descriptors(rng)}
        if not any(op['tr'].values()):
            op['tr']['fr'] = [pools.plain(rng)]
        return op
    if k == 'para':
        return {'op': k, 'script': rng.choice(INSIDE), 'tr': descriptors(rng), 'co': descriptors(rng)}
    if k == 'seti':
        return {'op': k, 'script': rng.choice(ROOTS), 'inhibitions': pools.some(rng, pools.INHIBITIONS, rng.randrange(4))}
    if k == 'del':
        return {'op': k, 'script': rng.choice(INSIDE)}
    if k == 'delroot':
        return {'op': k, 'script': rng.choice(ROOTS), 'empty': rng.random() < 0.6}
    if k == 'upd':
        return {'op': k, 'old': rng.choice(INSIDE + ROOTS), 'new': rng.choice(INSIDE + ROOTS)}
    if k == 'setd':
        return {'op': k, 'ieml': rng.choice(ROOTS + INSIDE + ['a.', 'wo.']), 'desc': rng.choice(pools.DESCS),
                'value': descriptors(rng)}
    # a migration over pairs of usls
    pairs = pools.some(rng, ROOTS + INSIDE + ['a.', 'b.', 'wa.', 'e.'], 4)
    return {'op': 'migrate', 'map': {pairs[0]: pairs[1], pairs[2]: pairs[3]},
            'raise_at': rng.choice([None, None, None, 0, 1, 2])}


def gen_setd(rng, iemls):
    return {'op': 'setd', 'ieml': rng.choice(iemls), 'desc': rng.choice(pools.DESCS), 'value': descriptors(rng)}


def gen_txn(rng, iemls, history=None, dictionary=0.3):
    r = rng.random()
    if r < dictionary:
        return gen_dict(rng)
    if r < dictionary + 0.2:
        return gen_setd(rng, iemls)
    op = gen_raw(rng, iemls, history)
    if rng.random() < 0.25:
        op['raise'] = {'at': rng.randrange(len(op['body']) + 1), 'exc': rng.choice(sorted(EXCEPTIONS))}
    return op


def to_object(ieml):
    """What a caller passes to a transaction: a script, or an usl"""
    from ieml.usl.parser import IEMLParser
    return IEMLParser().parse(ieml)


def factorized(ieml):
    from ieml.dictionary.script import script
    return script(ieml, factorize=True)


class Injected(Exception):
    pass


def apply_txn(gitdb, op, use_cache=True, cache_folder=None):
    """Raises what the code raises"""
    from sim import world
    k = op['op']
    t = world.transactions(gitdb, use_cache=use_cache, cache_folder=cache_folder)
    if k == 'raw':
        db = world.database(gitdb.folder, use_cache=use_cache, cache_folder=cache_folder)
        r = op.get('raise')
        with gitdb.commit(world.sig(2), 'raw'):
            for i, o in enumerate(op['body']):
                if r and r['at'] == i:
                    raise EXCEPTIONS[r['exc']]('injected')
                O.apply_db(db, o)
            if r and r['at'] >= len(op['body']):
                raise EXCEPTIONS[r['exc']]('injected')
    elif k == 'root':
        t.create_root_paradigm(factorized(op['script']), list(op['inhibitions']),
                               {l: list(v) for l, v in op['tr'].items()}, {l: list(v) for l, v in op['co'].items()})
    elif k == 'para':
        t.add_morpheme_paradigm(factorized(op['script']), {l: list(v) for l, v in op['tr'].items()},
                                {l: list(v) for l, v in op['co'].items()})
    elif k == 'seti':
        t.set_inhibitions(factorized(op['script']), list(op['inhibitions']))
    elif k == 'del':
        t.delete_morpheme_paradigm(factorized(op['script']))
    elif k == 'delroot':
        t.delete_morpheme_root_paradigm(factorized(op['script']), empty_descriptors=op['empty'])
    elif k == 'upd':
        t.update_morpheme_paradigm(factorized(op['old']), factorized(op['new']))
    elif k == 'setd':
        t.set_descriptors(to_object(op['ieml']), op['desc'], {l: list(v) for l, v in op['value'].items()})
    elif k == 'migrate':
        n = [0]

        def f(u):
            n[0] += 1
            if op.get('raise_at') is not None and n[0] > op['raise_at']:
                raise Injected('migration')
            new = op['map'].get(str(u))
            return to_object(new) if new else u

        t.update_all_ieml(f, 'simulated migration')
    else:
        raise AssertionError(k)
    return None


# ---------------------------------------------------------------- failing subprocess starts
_spawn = {'at': -1, 'n': 0, 'fired': 0}
_hooked = []


def _audit(event, args):
    if _spawn['at'] >= 0 and event == 'subprocess.Popen':
        k = _spawn['n']
        _spawn['n'] += 1
        if k == _spawn['at']:
            _spawn['fired'] += 1
            raise OSError(12, 'Cannot allocate memory (simulated)')


def arm_spawn(at):
    import sys
    if not _hooked:
        sys.addaudithook(_audit)
        _hooked.append(1)
    _spawn.update(at=at, n=0, fired=0)


def disarm_spawn():
    fired = _spawn['fired']
    _spawn.update(at=-1, n=0, fired=0)
    return fired
