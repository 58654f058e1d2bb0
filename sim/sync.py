"""What a pull must have done, decided from the commits alone (not with the merge of libgit2). Runs in the workers."""
import os
from collections import Counter

import pygit2

from sim import world


def ancestors(repo, h):
    seen, todo = set(), [str(h)]
    while todo:
        c = todo.pop()
        if c not in seen:
            seen.add(c)
            todo.extend(str(p) for p in repo[c].parent_ids)
    return seen


def merge_bases(folder, a, b):
    """The best common ancestors of two commits"""
    repo = pygit2.Repository(folder)
    common = ancestors(repo, a) & ancestors(repo, b)
    return sorted(c for c in common
                  if not any(o != c and c in ancestors(repo, o) for o in common))


def lines(data):
    return data.split(b'\n')[:-1] if data else []


def _order(x, keep):
    return [l for l in x if l in keep]


def is_combination(base, local, remote, merged):
    """merged holds the changes of the two sides, line by line"""
    b, l, r, m = (lines(d) for d in (base, local, remote, merged))
    cb, cl, cr, cm = map(Counter, (b, l, r, m))
    exact = all(c <= 1 for x in (cb, cl, cr) for c in x.values())
    for x, cx in ((l, cl), (r, cr)):
        keep = set(cb) & set(cx)
        if exact and _order(x, keep) != _order(b, keep):
            exact = False       # lines were moved: a deletion and an addition of the same line
    for k in set(cb) | set(cl) | set(cr) | set(cm):
        dl, dr = cl[k] - cb[k], cr[k] - cb[k]
        d = cm[k] - cb[k]
        if exact:
            ok = {dl + dr} if dl != dr else {dl, dl + dr}
            if d not in ok:
                return False
        elif not min(dl, dr, dl + dr) <= d <= max(dl, dr, dl + dr):
            return False
    return True


def ieml_of(*datas):
    for d in datas:
        if d:
            return world.parse_lines(d, 4)[0][0]
    return None


def values_of(data):
    """{(desc, lang): [values]} of a .desc file"""
    res = {}
    for ieml, lang, desc, value in world.parse_lines(data or b'', 4):
        res.setdefault((desc, lang), []).append(value)
    return {k: sorted(v) for k, v in res.items()}


def flat(descriptor):
    """The same from a value that pull returns for an ieml"""
    return {(d, l): sorted(v) for d, by in descriptor.items() for l, v in by.items() if v}


def verify_pull(ctx, what, g, folder, h0, target, conflicts, fast=True):
    """
    A pull of `target` into h0 has returned `conflicts`. Returns what it was: 'up-to-date', 'fast-forward', 'merge', 'conflict'
    """
    def bad(kind, text):
        ctx.violation(kind, '{}: {}'.format(what, text))

    h = world.head(folder)
    d = world.dirty(folder)
    if d or g.status():
        bad('not-clean', 'the working directory is not clean after the pull: {} {}'.format(d[:5], g.status()))
    if pygit2.Repository(folder).state() != 0 if hasattr(pygit2.Repository, 'state') else False:
        bad('not-clean', 'a merge is still in progress after the pull')
    if world.is_ancestor(folder, target, h0):
        if h != h0:
            bad('wrong-history', 'nothing to pull, but the current commit changed')
        if conflicts:
            bad('false-conflict', 'nothing to pull, but conflicts are reported: {}'.format(sorted(conflicts)))
        return 'up-to-date'
    for side, c in (('local', h0), ('remote', target)):
        if not world.is_ancestor(folder, c, h):
            bad('wrong-history', 'the {} commits are not in the history of the result'.format(side))
    bases = merge_bases(folder, h0, target)
    L, R, M = (world.commit_files(folder, c) for c in (h0, target, h))
    if bases == [h0]:
        if M != R:
            bad('lost-change', 'nothing was changed locally, but the result is not the remote version: {}'.format(
                world.difference(world._content(M.items()), world._content(R.items()))))
        if conflicts:
            bad('false-conflict', 'no local change, but conflicts are reported: {}'.format(sorted(conflicts)))
        return 'fast-forward'
    all_bases = [world.commit_files(folder, b) for b in bases]
    B = all_bases[0] if len(bases) == 1 else None
    reported = dict(conflicts)
    explained = set()
    for p in sorted(set(L) | set(R) | set(M) | set(B or {})):
        l, r, m = L.get(p), R.get(p), M.get(p)
        if l == r:
            if m != l and B is not None:
                bad('lost-change', '{}: the same on both sides, but not in the result'.format(p))
            continue
        if B is None:
            # criss-cross history: the ancestor is itself a merge. Nothing comes from nowhere, conflicts are told
            ieml = ieml_of(l, r, *(b.get(p) for b in all_bases)) if p.endswith('.desc') else None
            if ieml in reported and m == r:
                explained.add(ieml)
                if flat(reported[ieml]) != values_of(l):
                    bad('wrong-conflict', '{}: the conflict returned is {} instead of {}'.format(
                        p, flat(reported[ieml]), values_of(l)))
            elif not set(lines(m)) <= set(lines(l)) | set(lines(r)):
                bad('invented', '{}: lines that are on no side'.format(p))
            continue
        b = B.get(p)
        if b == l:
            if m != r:
                bad('lost-change', '{}: changed by the remote only, the result is {} instead of {}'.format(p, m, r))
            continue
        if b == r:
            if m != l:
                bad('lost-change', '{}: changed locally only, the result is {} instead of {}'.format(p, m, l))
            continue
        combined = m is not None and l is not None and r is not None and is_combination(b or b'', l, r, m)
        if p.endswith('.desc'):
            ieml = ieml_of(l, r, b)
            if ieml in reported:
                explained.add(ieml)
                if m != r:
                    bad('wrong-conflict', '{}: in conflict, the result is {} and not the remote version {}'.format(p, m, r))
                if flat(reported[ieml]) != values_of(l):
                    bad('wrong-conflict', '{}: the conflict returned is {} instead of {}'.format(
                        p, flat(reported[ieml]), values_of(l)))
                ctx.probe('conflict')
            elif not combined:
                bad('silent-loss', '{}: changed on both sides, not reported as a conflict, and not the combination of both: '
                                   'base {} local {} remote {} result {}'.format(p, b, l, r, m))
            else:
                ctx.probe('combined')
        else:
            if m != r and not combined:
                bad('silent-loss', '{}: changed on both sides, neither the remote version nor the combination of both: '
                                   'base {} local {} remote {} result {}'.format(p, b, l, r, m))
            ctx.probe('structure changed on both sides')
    for ieml in reported:
        if ieml not in explained:
            bad('false-conflict', 'a conflict is reported for {}, which was not changed on both sides'.format(ieml))
    if B is None:
        ctx.probe('criss-cross')
    return 'conflict' if reported else 'merge'
