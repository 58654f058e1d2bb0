"""C13: dictionary transactions do what they say and keep the root paradigms disjoint."""
import os

from sim import pools, txn
from sim.core import ERRNOS, READ_FAULTS, gen_at, pick

LEVEL = 'exploration'
TECHNIQUE = 'deterministic simulation: histories of dictionary transactions with disk faults and kills, against a reference model'
RUNS = {'quick': 720, 'thorough': 12000}
RULE = ('a case is a seeded history of dictionary transactions (create, extend, update and delete root paradigms and paradigms, set descriptors and '
        'inhibitions, migrate), on overlapping and nested scripts, some with one disk fault (errno on a write, a read, a stat or a listing, short write) or a kill at the k-th file operation. '
        'After each one, the content is compared with the reference model and the dictionary is computed. non-trivial: at least one transaction accepted, '
        'and one refused or hit by a fault. distinct: by the digest of operations, outcomes and contents')
STATES = 'distinct (kind of transaction, accepted, refused or failed, roots of the dictionary)'
REAL = ['ieml.ieml_database.transactions', 'ieml.ieml_database', 'ieml.dictionary', 'libgit2', 'find, xargs, cat, sed, uniq', 'kernel file system (tmpfs)']
STUB = ['errors of system calls (LD_PRELOAD seam)', 'process kills', 'order of directory entries', 'clock']
ASSUMPTIONS = ['the singular sequences, tables and canonical form of one script are as the library computes them',
               'the structure is written by dictionary transactions only']

KILLS = ['crash_before', 'crash_after', 'torn']

# scripts that overlap and contain each other, with one or several tables; a case takes most of its scripts in one or two families
FAMILIES = [
    ['O:M:.', 'M:M:.', 'O:+M:M:.', 'U:M:.', 'A:M:.', 'O:S:.', 'O:B:.', 'O:B:+T:.', 'A:S:.+A:B:.', 'U:S:.+A:B:.', 'S:M:.', 'M:S:.', 'S:+B:M:.',
     'S:S:+B:.', 'U:S:+B:.', 'T:M:.'],
    ['M:M:.O:.-', 'M:M:.U:.-', 'S:M:.O:.-', 'S:S:.O:.-', 'B:M:.O:.-', 'M:S:.O:.-', 'M:M:.u.-', 'M:M:.O:M:.-', 'O:M:.M:M:.-+M:M:.O:M:.-', 'S:M:.U:.-',
     'M:M:.A:M:.-', 'O:M:.M:M:.-'],
    ['O:O:.', 'O:U:.', 'M:O:.', 'S:O:.', 'M:U:.', 'O:+M:O:.', 'U:O:.', 'A:O:.', 'T:O:.', 'S:+B:O:.', 'O:A:.', 'S:+B:U:.'],
    ['O:M:.+M:O:.', 'O:M:.', 'M:O:.', 'O:S:.+S:O:.', 'O:S:.', 'S:O:.', 'U:M:.+M:U:.', 'U:M:.', 'M:U:.', 'S:O:.+B:M:.', 'B:M:.', 'A:M:.'],
    ['U:M:.', 'A:M:.', 'O:S:.', 'O:B:.', 'O:T:.', 'O:S:+B:.', 'O:M:.', 'U:S:+B:.', 'U:S:.+A:B:.'],
    ['s.M:M:.-', 's.S:M:.-', 's.M:B:.-', 's.S:S:+B:.-', 's.S:+B:M:.-'],
    ['U:U:U:.+A:S:U:.+S:U:A:.+S:A:U:.+U:+S:A:A:.', 'U:+S:A:A:.', 'U:U:U:.+A:S:U:.', 'U:U:S:.+A:U:U:.+A:A:S:.+O:A:U:.+U:+S:U:+S:A:.', 'O:A:U:.', 'U:+S:U:+S:A:.'],
    ['M:.', 'O:', 'M:.-', 'S:+B:.', 'S:.U:.-+B:.T:.-', 'M:O:.-', 'S:M:.O:.-'],
]
ROOTS = INSIDE = sum(FAMILIES, [])
# openings: a table is described before the root paradigm it is in; roots side by side, a paradigm in one of them (its rank) then moved over both
STARTS = [
    [('setd', 'O:M:.'), ('root', 'O:M:.+M:O:.')],
    [('setd', 'S:O:.'), ('root', 'O:S:.+S:O:.')],
    [('setd', 'M:U:.'), ('root', 'U:M:.+M:U:.')],
    [('setd', 'M:M:.O:M:.-'), ('root', 'O:M:.M:M:.-+M:M:.O:M:.-')],
    [('root', 'U:M:.'), ('root', 'A:M:.'), ('para', 'U:S:+B:.'), ('upd', 'U:S:+B:.', 'O:S:+B:.')],
    [('root', 'M:U:.'), ('root', 'M:A:.'), ('para', 'S:+B:U:.'), ('upd', 'S:+B:U:.', 'S:+B:O:.')],
    [('root', 'M:M:.U:.-'), ('root', 'M:M:.A:.-'), ('para', 'S:M:.U:.-'), ('upd', 'S:M:.U:.-', 'S:M:.O:.-')],
    [('root', 'O:M:.'), ('para', 'A:M:.'), ('upd', 'A:M:.', 'O:B:.'), ('para', 'A:M:.')],
]
FIELDS = {'root': ['op', 'script', 'inhibitions', 'tr', 'co'], 'para': ['op', 'script', 'tr', 'co'], 'upd': ['op', 'old', 'new'],
          'setd': ['op', 'ieml', 'desc', 'value']}
SINGULAR = ['a.', 'wo.', 's.', 'U:', 'U:.U:.-', 'U:S:.']
OTHERS = ['a. b.', '(a. b.)', 'm1(U:M:.)', 'wa. b. a.']


def prepare():
    from sim import world
    world.install()


# -------------------------------------------------------------- generation

def gen_op(rng, used, family):
    """used: the scripts of the earlier operations, taken again often"""
    def one(l):
        again = [x for x in used if l[-1] in OTHERS or x not in OTHERS]
        if again and rng.random() < 0.4:
            return rng.choice(again)
        return rng.choice(family) if rng.random() < 0.9 else rng.choice(l)
    k = rng.choice(['root'] * 4 + ['para'] * 5 + ['upd'] * 6 + ['setd'] * 3 + ['seti', 'seti', 'del', 'del', 'delroot', 'delroot', 'migrate'])
    if k == 'root':
        op = {'op': k, 'script': one(ROOTS) if rng.random() > 0.04 else rng.choice(SINGULAR),
              'inhibitions': pools.some(rng, pools.INHIBITIONS, rng.choice([0, 0, 1, 2])), 'tr': txn.descriptors(rng, 0.15), 'co': txn.descriptors(rng, 0.15)}
        if not any(op['tr'].values()) and rng.random() < 0.9:
            op['tr']['fr'] = [pools.plain(rng)]
    elif k == 'para':
        op = {'op': k, 'script': one(INSIDE) if rng.random() > 0.03 else rng.choice(SINGULAR), 'tr': txn.descriptors(rng, 0.15), 'co': txn.descriptors(rng, 0.15)}
    elif k == 'seti':
        op = {'op': k, 'script': one(ROOTS), 'inhibitions': pools.some(rng, pools.INHIBITIONS, rng.choice([0, 1, 2, 3]))}
    elif k == 'del':
        op = {'op': k, 'script': one(INSIDE + SINGULAR)}
    elif k == 'delroot':
        op = {'op': k, 'script': one(ROOTS), 'empty': rng.random() < 0.6}
    elif k == 'upd':
        op = {'op': k, 'old': one(INSIDE + ROOTS), 'new': one(INSIDE + ROOTS + (SINGULAR if rng.random() < 0.3 else []))}
        if rng.random() < 0.15:
            op['singular'] = rng.random()
    elif k == 'setd':
        op = {'op': k, 'ieml': one(ROOTS + INSIDE + SINGULAR + OTHERS), 'desc': rng.choice(pools.DESCS[:2] + pools.DESCS),
              'value': txn.descriptors(rng, 0.15) if rng.random() < 0.6 else {}}
        if rng.random() < 0.15:
            op['singular'] = rng.random()
    else:
        pairs = [one(ROOTS + INSIDE + SINGULAR + OTHERS) for _ in range(rng.choice([2, 4, 6]))]
        op = {'op': k, 'map': dict(zip(pairs[::2], pairs[1::2])), 'raise_at': rng.choice([None, None, None, 0, 1, 2])}
    return op


def reset_of(rng, op):
    """The same descriptors again, but for an element: twice, once less, in another order, in the other language"""
    value = {l: list(v) for l, v in op['value'].items()}
    for l in rng.sample(pools.LANGS, 2):
        if value.get(l):
            how = rng.choice(['twice', 'twice', 'less', 'order', 'language'])
            v = rng.choice(value[l])
            if how == 'twice':
                value[l].append(v)
            elif how == 'less':
                value[l].remove(v)
            elif how == 'order':
                value[l].reverse()
            else:
                other = [x for x in pools.LANGS if x != l][0]
                value[l].remove(v)
                value.setdefault(other, []).append(v)
            break
    return dict({k: op[k] for k in ('op', 'ieml', 'desc')}, value=value)


def generate(rng, i, tier):
    ops, used = [], []
    family = sum(pools.some(rng, FAMILIES, rng.choice([1, 1, 2])), [])
    start = []
    if rng.random() < 0.25:
        for k, *scripts in rng.choice(STARTS):
            start.append({'op': k, 'tr': {'fr': [pools.plain(rng)], 'en': []}, 'co': {'fr': [], 'en': []}, 'inhibitions': [], 'script': scripts[0], 'old': scripts[0],
                          'new': scripts[-1], 'ieml': scripts[0], 'desc': rng.choice(pools.DESCS), 'value': {'fr': [pools.plain(rng)], 'en': []}})
            start[-1] = {x: v for x, v in start[-1].items() if x in FIELDS[k]}
    if rng.random() < 0.5:
        family = rng.sample(family, min(len(family), rng.choice([3, 5, 8])))
    for n in range(max(len(start), rng.choice([4, 6, 9, 12]))):
        if n < len(start):
            op = start[n]
        elif n == 0 or rng.random() < 0.1:
            op = {'op': 'root', 'script': rng.choice(family), 'inhibitions': pools.some(rng, pools.INHIBITIONS, rng.choice([0, 1])),
                  'tr': {'fr': [pools.plain(rng)], 'en': []}, 'co': txn.descriptors(rng, 0.1)}
        elif rng.random() < 0.12 and [x for x in ops if x['op'] == 'setd' and any(x['value'].values())]:
            last = [x for x in ops if x['op'] == 'setd' and any(x['value'].values())][-1]
            ops.append(reset_of(rng, last))
            if rng.random() < 0.6:
                ops.append({k: last[k] for k in ('op', 'ieml', 'desc', 'value')})
            continue
        elif used and rng.random() < 0.04:
            # all the descriptors of an ieml are removed, one class after the other
            ieml = rng.choice(used)
            ops += [{'op': 'setd', 'ieml': ieml, 'desc': d, 'value': {}} for d in pools.DESCS]
            continue
        else:
            op = gen_op(rng, used, family)
            if rng.random() < 0.7:
                # the first one of these with which it can be accepted, if there is one
                op['candidates'] = rng.sample(family, len(family))
                if op['op'] in ('upd', 'para') and rng.random() < 0.45:
                    op['mode'] = rng.choice(['across', 'outside', 'undefined'])
                    op['candidates'] += rng.sample(ROOTS, len(ROOTS))
                if op['op'] == 'upd' and rng.random() < 0.8:
                    op['olds'] = rng.sample(family, len(family))
                    op['kept'] = rng.random() < 0.5
                    op['richest'] = rng.random() < 0.5
                elif op['op'] in ('del', 'delroot', 'seti'):
                    op['richest'] = rng.random() < 0.5
        used += [op[k] for k in ('script', 'old', 'new', 'ieml') if k in op] + [x for p in op.get('map', {}).items() for x in p]
        if rng.random() < 0.15:
            kind = rng.choice(['errno', 'errno', 'crash_before', 'crash_after', 'torn', 'short', 'errno_forever',
                               rng.choice(list(READ_FAULTS)), rng.choice(list(READ_FAULTS))])
            op['fault'] = {'kind': kind, 'at': gen_at(rng), 'errno': rng.choice(['EIO', 'ENOSPC', 'EACCES']), 'torn': rng.randrange(256)}
        ops.append(op)
    return {'ops': ops, 'use_cache': rng.random() < 0.6}


def shrinks(case):
    import copy
    for i, op in enumerate(case['ops']):
        for k in ('tr', 'co', 'value'):
            if any(op.get(k, {}).values()):
                c = copy.deepcopy(case)
                c['ops'][i][k] = {l: [] for l in pools.LANGS}
                yield c
                c = copy.deepcopy(case)
                c['ops'][i][k] = {'fr': ['x'], 'en': []}
                if op[k] != c['ops'][i][k]:
                    yield c
        if op.get('inhibitions'):
            c = copy.deepcopy(case)
            c['ops'][i]['inhibitions'] = []
            yield c
        if op.get('fault'):
            c = copy.deepcopy(case)
            del c['ops'][i]['fault']
            yield c


# -------------------------------------------------------------- reference model

class Refused(Exception):
    pass


class Reference:
    """What the dictionary transactions mean, on the entries. facts: the scripts of the dictionary, as computed from the files"""

    def __init__(self, content, facts):
        from sim.model import Model
        self.m = Model(content)
        self.defined = set(facts['scripts'])
        self.roots = roots(content)

    @staticmethod
    def script(text):
        return txn.factorized(text)

    def root_of(self, ss):
        """The root paradigms of a set of singular sequences; None: one of them is in no root paradigm"""
        res = set()
        for x in ss:
            r = [k for k, v in self.roots.items() if x in v]
            res |= set(r) or {None}
        return res

    def choose(self, op):
        """The operation with the first candidate that can be accepted"""
        def ok(k, x):
            s = self.script(x)
            if k == 'para' or k == 'upd':
                r = self.root_of(names(s))
                return len(s) > 1 and str(s) not in self.defined and {
                    'across': len(r) > 1 and None not in r, 'outside': len(r) == 2 and None in r}.get(op.get('mode'), len(r) == 1 and None not in r)
            return str(s) in self.roots if k in ('seti', 'delroot') else len(s) > 1 and str(s) in self.defined if k == 'del' else True

        op = dict(op)
        # the one that has the most kinds of entries, if it has to be the richest
        kinds = {}
        for k in self.m.c:
            kinds.setdefault(k[1], set()).add(k[2:4] if k[0] == 'D' else k[2])
        rich = (lambda l: sorted(l, key=lambda x: -len(kinds.get(str(self.script(x)), ())))) if op.pop('richest', False) else (lambda l: l)
        found = [x for x in op.pop('candidates', ()) if ok(op['op'], x)]
        if op['op'] in ('del', 'delroot', 'seti'):
            found = rich(found)
        if found and 'script' in op:
            op['script'] = found[0]
        elif op['op'] == 'upd':
            op['new'] = found[0] if found else op['new']
            old = [x for x in op.get('olds', ()) if ok('para' if op.get('mode') == 'undefined' else 'del', x) and (not op['kept'] or str(self.script(x)) not in self.roots)]
            op['old'] = rich(old)[0] if old else op['old']
        if op.get('singular') is not None:
            ss = sorted(set().union(*self.roots.values()))
            if ss:
                op['old' if 'old' in op else 'ieml'] = ss[int(op['singular'] * len(ss))]
            del op['singular']
        return op

    def apply(self, op):
        """Raises Refused, or changes the content"""
        getattr(self, op['op'])(op)
        return self.m.c

    def refuse(self, cond, why):
        if cond:
            raise Refused(why)

    def write(self, script, desc, values):
        for l in pools.LANGS:
            for v in values.get(l, []):
                self.m.add_descriptor(str(script), l, desc, v)

    def root(self, op):
        s = self.script(op['script'])
        tables = [t for t in s.tables_script if t != s]
        self.refuse(len(s) == 1, 'singular')
        self.refuse(any(self.m.descriptors(str(t)) for t in [s] + tables), 'already described')
        # is_root without descriptors is a root paradigm that has lost its descriptors, and can find them again
        marked = roots(self.m.c, True)
        self.refuse(any(k != str(s) and v & names(s) for k, v in marked.items()), 'overlaps a root paradigm')
        self.m.remove_structure(str(s))
        self.m.add_structure(str(s), 'is_root', 'True')
        for i in op['inhibitions']:
            self.m.add_structure(str(s), 'inhibition', i)
        self.write(s, 'translations', op['tr'])
        self.write(s, 'comments', op['co'])
        for i, t in enumerate(tables):
            self.paradigm(t, *({l: [v + str(i) for v in op[k].get(l, [])] for l in pools.LANGS} for k in ('tr', 'co')))

    def paradigm(self, s, tr, co):
        self.m.remove_descriptor(str(s))
        self.m.remove_structure(str(s))
        self.m.add_structure(str(s), 'is_root', 'False')
        self.write(s, 'translations', tr)
        self.write(s, 'comments', co)

    def para(self, op):
        s = self.script(op['script'])
        self.refuse(len(s) == 1, 'singular')
        self.refuse(str(s) in self.defined, 'already defined')
        r = self.root_of(names(s))
        self.refuse(len(r) != 1 or None in r, 'not inside one root paradigm')
        self.paradigm(s, op['tr'], op['co'])

    def seti(self, op):
        s = self.script(op['script'])
        self.refuse(str(s) not in self.roots, 'not a root paradigm')
        if set(self.m.structure(str(s), 'inhibition')) == set(op['inhibitions']):
            return
        for i in set(self.m.structure(str(s), 'inhibition')) - set(op['inhibitions']):
            self.m.remove_structure(str(s), 'inhibition', i)
        for i in set(op['inhibitions']) - set(self.m.structure(str(s), 'inhibition')):
            self.m.add_structure(str(s), 'inhibition', i)

    def delroot(self, op):
        s = self.script(op['script'])
        self.refuse(str(s) not in self.roots, 'not a root paradigm')
        self.m.remove_structure(str(s))
        if op['empty']:
            for x in self.defined:
                if names(self.script_as_is(x)) <= self.roots[str(s)]:
                    self.m.remove_descriptor(x)

    @staticmethod
    def script_as_is(x):
        from ieml.dictionary.script import script
        return script(x)

    def __getattr__(self, name):
        if name == 'del':
            return self.delete
        raise AttributeError(name)

    def delete(self, op):
        s = self.script(op['script'])
        self.refuse(len(s) == 1, 'singular')
        self.refuse(str(s) not in self.defined, 'not defined')
        self.m.remove_structure(str(s))
        self.m.remove_descriptor(str(s))

    def upd(self, op):
        old, new = self.script(op['old']), self.script(op['new'])
        if old == new:
            return
        self.refuse(len(old) == 1 or len(new) == 1, 'singular')
        self.refuse(str(old) not in self.defined, 'not defined')
        self.refuse(str(new) in self.defined, 'already defined')
        is_root = str(old) in self.roots
        r = self.root_of(names(new))
        self.refuse(len(r - {None}) != 1, 'not in one root paradigm')
        self.refuse(None in r and not is_root, 'outside of the root paradigms')
        values = self.m.descriptors(str(old))
        structure = [(k[2], k[3]) for k, n in self.m.c.items() if k[:2] == ('S', str(old)) for _ in range(n)]
        if is_root:
            self.refuse(not names(old) <= names(new), 'not a bigger version')
            marked = roots(self.m.c, True)
            self.refuse(any(k not in (str(old), str(new)) and v & names(new) for k, v in marked.items()), 'overlaps a root paradigm')
        self.m.remove_structure(str(old))
        self.m.remove_structure(str(new))
        if is_root:
            self.m.add_structure(str(old), 'is_root', 'False')
            for k, v in structure:
                self.m.add_structure(str(new), k, v)
        else:
            self.m.add_structure(str(new), 'is_root', 'False')
        self.m.remove_descriptor(str(old))
        for (l, d), vs in values.items():
            for v in vs:
                self.m.add_descriptor(str(new), l, d, v)
                if is_root:
                    self.m.add_descriptor(str(old), l, d, '(translation migrated to {}) '.format(new) + v)

    def setd(self, op):
        i = str(txn.to_object(op['ieml']))
        self.refuse(op['ieml'] not in OTHERS and str(self.script(i)) != i, 'not factorized')
        if all(sorted(op['value'].get(l, [])) == self.m.values(i, l, op['desc']) for l in pools.LANGS):
            return
        self.m.remove_descriptor(i, None, op['desc'])
        self.write(i, op['desc'], op['value'])

    def migrate(self, op):
        # those that use a morpheme which is not in the dictionary are left as they are
        found = [x for x in self.m.iemls() if {str(y) for y in morphemes(x)} <= self.defined]
        self.refuse(op.get('raise_at') is not None and len(found) > op['raise_at'], 'the function raises')
        values = {x: self.m.descriptors(x) for x in found}
        for x in found:
            self.m.remove_descriptor(x)
        for x in found:
            new = str(txn.to_object(op['map'][x])) if x in op['map'] else x
            for (l, d), vs in values[x].items():
                for v in vs:
                    self.m.add_descriptor(new, l, d, v)


_names = {}


def names(s):
    """The singular sequences of a script"""
    k = str(s)
    if k not in _names:
        _names[k] = frozenset(str(x) for x in s.singular_sequences)
    return _names[k]


def morphemes(x):
    u = txn.to_object(x)
    return u.morphemes if hasattr(u, 'morphemes') else [u]


def roots(content, without_descriptors=False):
    """{root paradigm: its singular sequences}, from the entries"""
    from ieml.dictionary.script import script
    described = {k[1] for k in content if k[0] == 'D'}
    return {k[1]: names(script(k[1])) for k in content
            if k[0] == 'S' and k[2] == 'is_root' and k[3][0].lower() == 't' and (without_descriptors or k[1] in described)}


def facts(folder):
    from sim import world
    d = world.database(folder, use_cache=False).get_dictionary()
    return {'scripts': [str(s) for s in d.scripts], 'roots': sorted(str(s) for s in d.tables.roots)}


# -------------------------------------------------------------- run

def run(case, ctx):
    from sim import world
    origin = world.make_origin(os.path.join(ctx.root, 'origin.git'))
    folder = os.path.join(ctx.root, 'A')
    g = ctx.must('clone', lambda: world.open_replica(origin, folder))
    cache = os.path.join(ctx.root, 'cache')
    f = {'scripts': [], 'roots': []}
    accepted = other = 0

    for n, op in enumerate(case['ops']):
        s0, h0 = world.workdir_content(folder), world.head(folder)
        op = Reference(s0, f).choose(op)
        what = 'transaction {} {}'.format(n, {k: v for k, v in op.items() if k not in ('tr', 'co', 'value', 'olds', 'kept', 'candidates')})
        ref = Reference(s0, f)
        try:
            s1, why = +ref.apply(op), None
        except Refused as e:
            s1, why = s0, str(e)

        call = lambda: txn.apply_txn(g, op, case['use_cache'], cache)
        fault = op.get('fault')
        if fault:
            snap = ctx.snapshot(folder, cache)
            if fault['kind'] in READ_FAULTS:
                ctx.arm_reads(fault['kind'], folder)
                o = ctx.in_child(call)
                n_events, _ = ctx.end_reads()
            else:
                n_events, o = ctx.count_events(call)
            ctx.restore(snap)
            plan = dict(at=pick(fault['at'], n_events), kind=fault['kind'], errno=ERRNOS[fault['errno']], torn=fault['torn']) if n_events else None
        if fault and plan and fault['kind'] in KILLS:
            o = ctx.in_child(call, plan)
            fired = int(o.status == 'crash')
            if fired:
                world.remove_stale_locks(folder)
            g = ctx.must('reopen', lambda: world.open_replica(origin, folder))
        else:
            if fault and plan and fault['kind'] in READ_FAULTS:
                ctx.arm_reads(fault['kind'], folder, plan['at'], plan['errno'])
            elif fault and plan:
                ctx.ctl.arm(os.getpid(), **plan)
            o = ctx.attempt(call)
            fired = fault and plan and ctx.ctl.fired
            fired = ctx.end_reads()[1] or fired
            if fired and (fault['kind'].endswith('forever') or why is not None):
                # the rollback could fail too
                world.remove_stale_locks(folder)
                ctx.must('reset once the disk works', g.reset)
        if fired:
            ctx.fault(fault['kind'])
            other += 1

        got = world.workdir_content(folder)
        if o.status == 'ok':
            if why is not None:
                ctx.violation('not-refused', '{} is accepted: {}'.format(what, why))
            if got != s1:
                ctx.violation('wrong-effect', '{}: {}'.format(what, world.difference(got, s1)))
            accepted += 1
            outcome = 'accepted'
        elif o.status == 'crash':
            if got not in (s0, s1):
                ctx.violation('wrong-effect', '{} killed: neither before nor after, {}'.format(what, world.difference(got, s0)))
            outcome = 'killed'
        else:
            if why is None and not fired:
                ctx.violation('wrongly-refused', '{}: {}\n{}'.format(what, o, o.tb))
            if fired and fault['kind'].endswith('read_forever') and got == s1 and world.head(folder) != h0:
                ctx.probe('committed, then impossible to undo')
            elif got != s0 or world.head(folder) != h0:
                ctx.violation('refused-with-effect', '{} {}: {}'.format(what, o, world.difference(got, s0)))
            outcome = 'failed' if fired else 'refused'
            other += 1
        d = world.dirty(folder)
        if d:
            ctx.violation('wrong-effect', '{} {}: the working directory is not clean: {}'.format(what, o, d[:4]))
        ctx.probe('{} {}{}'.format(op['op'], outcome, ': ' + why if outcome == 'refused' else ''))

        r = roots(got)
        seen = {}
        for k, v in sorted(r.items()):
            for x in v:
                if x in seen:
                    ctx.violation('overlap', '{} {}: the root paradigms {} and {} share {}'.format(what, o, seen[x], k, x))
                seen[x] = k
        if got != s0:
            x = ctx.in_child(lambda: facts(folder))
            if x.status != 'ok':
                ctx.violation('no-dictionary', '{} {}: the dictionary can\'t be computed: {}\n{}'.format(what, o, x, x.tb))
            f = x.value
        if f['roots'] != sorted(r):
            ctx.violation('wrong-roots', '{} {}: the root paradigms are {}, and not {}'.format(what, o, f['roots'], sorted(r)))
        ctx.trace(op['op'], outcome, why or '', sorted(map(str, got.items())))
        ctx.state(op['op'], outcome, why, f['roots'])
    ctx.nontrivial = bool(accepted and other)
