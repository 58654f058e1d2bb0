"""Parsing a text, and what the result is, as plain data that can be compared between processes and threads."""


def parse(kind, text):
    if kind == 'usl':
        from ieml.usl.usl import usl
        return usl(text)
    if kind == 'script':
        from ieml.dictionary.script import script
        return script(text)
    from ieml.usl.decoration.path import path
    return path(text)


def describe(x):
    res = [type(x).__name__, str(x)]
    if hasattr(x, 'decorations'):
        res.append(sorted((str(d.path), str(d.value)) for d in x.decorations))
    if hasattr(x, 'cardinal'):
        res += [x.cardinal, str(x.grammatical_class) if getattr(x, 'grammatical_class', None) is not None else None]
    if hasattr(x, 'layer'):
        res += [x.layer]
    if type(x).__name__.endswith('Path'):
        p = x
        while p is not None:
            res.append(type(p).__name__)
            p = p.child
    return res


def outcome(kind, text, fn=None):
    """What parsing gives: ['ok', ...] or ['error', type, message]"""
    try:
        return ['ok'] + describe((fn or parse)(kind, text))
    except Exception as e:
        return ['error', type(e).__name__, str(e)[:300]]
