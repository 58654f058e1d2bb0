"""Operations on the database, as data: generated without the code under test, applied to it and to the model."""
from sim import pools

_canon = {}


def canon(ieml):
    """The canonical form of an ieml, as the parser gives it"""
    if ieml not in _canon:
        from ieml.usl.parser import IEMLParser
        _canon[ieml] = str(IEMLParser().parse(ieml))
    return _canon[ieml]


def gen_db_op(rng, iemls, nasty=0.5, structure=0.25, remove=0.4, history=None):
    """history: the earlier operations, to name existing entries in removals"""
    ieml = rng.choice(iemls)
    if rng.random() < structure:
        before = [o for o in (history or []) if o['op'] == 'adds']
        if before and rng.random() < 0.4:
            ieml = rng.choice(before)['ieml']
        if before and rng.random() < remove / 2:
            a = rng.choice(before)
            return {'op': 'rms', 'ieml': a['ieml'], 'key': a['key'], 'value': rng.choice([a['value'], a['value'], None])}
        if rng.random() < remove:
            key = rng.choice([None, 'inhibition', 'is_root', 'is_ignored'])
            value = None
            if key and rng.random() < 0.5:
                value = rng.choice(pools.INHIBITIONS if key == 'inhibition' else ['True', 'False'])
            return {'op': 'rms', 'ieml': ieml, 'key': key, 'value': value}
        key = rng.choice(['inhibition', 'inhibition', 'is_root', 'is_ignored'])
        return {'op': 'adds', 'ieml': ieml, 'key': key,
                'value': rng.choice(pools.INHIBITIONS if key == 'inhibition' else ['True', 'False'])}
    if rng.random() < remove:
        op = {'op': 'rm', 'ieml': ieml, 'lang': rng.choice([None, 'fr', 'en']),
              'desc': rng.choice([None] + pools.DESCS), 'value': None}
        adds = [o for o in (history or []) if o['op'] == 'add']
        if adds and rng.random() < 0.75:
            a = rng.choice(adds)
            op['ieml'] = a['ieml']
            op['lang'] = rng.choice([a['lang'], a['lang'], None])
            op['desc'] = rng.choice([a['desc'], a['desc'], None])
            if rng.random() < 0.6:
                op['value'] = a['value']
                if rng.random() < 0.25 and len(a['value']) > 1:
                    op['value'] = a['value'][:-1]
                if not op['value'].strip():
                    op['value'] = None
        return op
    op = {'op': 'add', 'ieml': ieml, 'lang': rng.choice(pools.LANGS), 'desc': rng.choice(pools.DESCS[:2] + pools.DESCS),
          'value': pools.value(rng, nasty)}
    adds = [o for o in (history or []) if o['op'] == 'add']
    if adds and rng.random() < 0.3:
        a = rng.choice(adds)
        op['value'] = a['value']
        if rng.random() < 0.5:
            op.update(ieml=a['ieml'], lang=a['lang'], desc=a['desc'])
    return op


def gen_bulk(rng, iemls):
    """Several times the usual sizes of buffers (a page, a pipe)"""
    n, size = rng.choice([(70, 100), (30, 3000), (4, 30000), (150, 30)])
    return {'op': 'bulk', 'ieml': rng.choice(iemls), 'lang': rng.choice(pools.LANGS), 'desc': 'comments', 'n': n, 'size': size}


def bulk_values(op):
    return ['{} {}'.format(i, 'x' * op['size']) for i in range(op['n'])]


def apply_db(db, op):
    k = op['op']
    if k == 'bulk':
        for v in bulk_values(op):
            db.add_descriptor(op['ieml'], op['lang'], op['desc'], v)
        return
    if k == 'add':
        db.add_descriptor(op['ieml'], op['lang'], op['desc'], op['value'])
    elif k == 'rm':
        kw = {n: op[m] for n, m in (('language', 'lang'), ('descriptor', 'desc'), ('value', 'value'))
              if op.get(m) is not None}
        db.remove_descriptor(op['ieml'], **kw)
    elif k == 'adds':
        db.add_structure(op['ieml'], op['key'], op['value'])
    elif k == 'rms':
        kw = {n: op[n] for n in ('key', 'value') if op.get(n) is not None}
        db.remove_structure(op['ieml'], **kw)
    else:
        raise AssertionError(k)


def apply_model(model, op):
    k = op['op']
    i = canon(op['ieml'])
    if k == 'bulk':
        for v in bulk_values(op):
            model.add_descriptor(i, op['lang'], op['desc'], v)
        return
    if k == 'add':
        model.add_descriptor(i, op['lang'], op['desc'], op['value'])
    elif k == 'rm':
        model.remove_descriptor(i, op.get('lang'), op.get('desc'), op.get('value'))
    elif k == 'adds':
        model.add_structure(i, op['key'], op['value'])
    elif k == 'rms':
        model.remove_structure(i, op.get('key'), op.get('value'))
