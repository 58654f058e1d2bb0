"""The reference model of the database: a multiset of entries."""
from collections import Counter

LANGS = ['fr', 'en']
DESCS = ['translations', 'tags', 'comments', 'rdf_repositories']


def norm_value(v):
    return v.strip().replace('\n', '\\n')


class Model:
    def __init__(self, content=None):
        self.c = Counter(content or {})

    def copy(self):
        return Model(self.c)

    def add_descriptor(self, ieml, lang, desc, value):
        v = norm_value(value)
        if v:
            self.c[('D', ieml, lang, desc, v)] += 1

    def remove_descriptor(self, ieml, lang=None, desc=None, value=None):
        v = norm_value(value) if value is not None else None
        for k in [k for k in self.c if k[0] == 'D' and k[1] == ieml
                  and (lang is None or k[2] == lang) and (desc is None or k[3] == desc)
                  and (v is None or k[4] == v)]:
            del self.c[k]

    def add_structure(self, ieml, key, value):
        self.c[('S', ieml, key, str(value))] += 1

    def remove_structure(self, ieml, key=None, value=None):
        for k in [k for k in self.c if k[0] == 'S' and k[1] == ieml and (key is None or k[2] == key)
                  and (value is None or k[3] == str(value))]:
            del self.c[k]

    def values(self, ieml, lang, desc):
        return sorted(v for k, n in self.c.items() if k[:4] == ('D', ieml, lang, desc) for v in [k[4]] * n)

    def structure(self, ieml, key):
        return sorted(v for k, n in self.c.items() if k[:3] == ('S', ieml, key) for v in [k[3]] * n)

    def descriptors(self, ieml):
        """{(lang, desc): [values]}"""
        res = {}
        for k, n in self.c.items():
            if k[:2] == ('D', ieml):
                res.setdefault((k[2], k[3]), []).extend([k[4]] * n)
        return {k: sorted(v) for k, v in res.items()}

    def iemls(self):
        return sorted({k[1] for k in self.c if k[0] == 'D'})
