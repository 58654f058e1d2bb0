"""What an answer of the library contains, as plain data that can be compared between processes. Runs in the workers."""


def table(t):
    return {'script': str(t.script), 'parent': str(t.parent.script) if t.parent is not None else None,
            'kind': type(t).__name__, 'rank': t.rank, 'ndim': t.ndim, 'shape': list(map(str, t.shape)) if t.shape else None}


def dictionary(d):
    """The content of a Dictionary: scripts, roots, tables, inhibitions, relations. Not the order of sets."""
    scripts = [str(s) for s in d.scripts]
    rel = {}
    for name, m in d.relations.relations.items():
        c = m.tocoo()
        rel[name] = sorted({(int(i), int(j)) for i, j, v in zip(c.row, c.col, c.data) if v})
    return {'scripts': scripts,
            'index': sorted((str(s), int(i)) for s, i in d.index.items()),
            'roots_idx': [int(i) for i in d.roots_idx],
            'roots': {str(r): sorted(str(t.script) for t in ts) for r, ts in d.tables.roots.items()},
            'tables': {str(s): table(t) for s, t in d.tables.tables.items()},
            'inhibitions': {str(s): sorted(v) for s, v in d._inhibitions.items() if v},
            'relations': rel}


def usl_list(l):
    """The content of get_list(): the order of equal elements and of values is not part of it"""
    res = []
    for e in l:
        e = dict(e)
        for k, v in e.items():
            if isinstance(v, dict):
                e[k] = {l: sorted(x) for l, x in v.items()}
        e['index'] = str(e['index'])
        res.append(e)
    return sorted(res, key=lambda e: (e['index'], e['ieml']))


def rows(df):
    from collections import Counter
    return Counter(tuple(map(str, r)) for r in df.reset_index().itertuples(index=False, name=None))
