"""Inputs. No import of the code under test here: the runner generates cases without it."""

LANGS = ['fr', 'en']
DESCS = ['translations', 'tags', 'comments', 'rdf_repositories']
INHIBITIONS = ['father_substance', 'father_attribute', 'father_mode', 'opposed', 'associated', 'crossed', 'twin']

# singular morphemes
MORPHEMES = ['a.', 'b.', 'wa.', 'e.', 'E:S:.', 'l.', 't.o.-', "E:.-U:.s.-l.-'", 'U:U:.', 'k.m.-', 'wo.', 'y.']
# singular sequences of the root paradigms below
ROOT_SS = ['U:M:.', 'O:M:.']
# paradigms
PARADIGMS = ['O:M:.', 'M:M:.O:.-', 'U:M:.', 'M:O:.', 'O:O:.', 'M:.', 'M:M:.', 'O:S:.', 'O:M:.M:M:.-+M:M:.O:M:.-']
# several usls share the 89 first characters: their file names only differ by the hash
_LONG = ' '.join(['a.', 'b.', 'c.', 'd.', 'e.', 'f.', 'g.', 'h.', 'i.', 'j.', 'k.', 'l.', 'm.', 'n.', 'o.', 'p.', 's.',
                  't.', 'u.', 'wa.', 'we.', 'wo.', 'wu.', 'x.', 'y.', 'a.a.-', 'a.b.-', 'a.e.-', 'b.a.-', 'k.a.-'])
POLYMORPHEMES = ['a. b.', 'a. wa.', 'wa. b. a.', 'a. b. e.', 'b. m1(a. e.)', 'm1(U:M:.)',
                 _LONG + ' k.m.- t.t.-', _LONG + ' k.m.- t.k.-', _LONG + ' k.m.- t.m.-', _LONG]
LEXEMES = ['(a. b.)', '(a.)', '(a.)(wa.)', '()(u.A:.-)', '()(a. b.)']
WORDS = ["[! E:S:. ()(u.A:.-) > E:.l.- (E:.-U:.s.-l.-')]"]
DECORATED = ['a. b. [>constant>a. "foo"]', 'a. b. [>constant>b. "l\'eau"]', '(a. b.) [>flexion>a. "x y"]',
             'a. b. [>constant>a. "x \\"y\\" z"]', '(a. b.)(b. e.) [>content>constant>b. "x"] [>flexion>b. "y"]',
             'b. m1(a. e.) [>group_0>e. "x"]', 'b. m1(a. e.) [>group_0 1 "y"]', '[! E:A:. ()(a. b.)] [>role>E:A:.>content>constant>a. "w"]',
             'a. b. [>constant>a. "x\ny"]', 'a. b. [>constant>a. " , x\\n #"]', 'a. b. [>constant>a. "é\u2028z"]',
             'a. b. [>constant>a. "x\\\\"] [>constant>b. "\\n y"]', 'a. b. [>constant>a. "\\\\n \\z"]']

USLS = MORPHEMES + PARADIGMS + POLYMORPHEMES + LEXEMES + WORDS + DECORATED

# ieml written in a way that is not the canonical one
NOT_NORMALIZED = ['b. a.', 'wa. a.', 'M:.+O:.', 'e. b. a.', '(b. a.)', 'E:S:.']

BAD_IEML = ['zz', 'a', '(', '[]', 'O:M:', 'é']

NASTY = ['a', 'ab', 'a b', '"', '""', 'a"b', '"a"', 'x\\', '\\', 'é', '日本語', 'NA', 'null', 'None', 'nan', '1', '01', '1.0',
         'True', 'false', '1e5', ' a ', 'a  b', 'a\nb', 'a\n', '\\n', 'a\\nb', "l'eau", '#c', ',', ';', 'a\tb', 'a\rb', 'a\r\nb',
         '-', '"a" fr translations "b"', 'a" fr comments "b', '\u2028x', 'x\x0by', '\ufeffa', '{}', '{0}', '%s', '$(x)', "'",
         'a,b', '/', '../x', '*', '[a]', '=1', 'a' * 300, 'é' * 50, '', '   ', '\n',
         'e\u0301te\u0301', '\u00e9t\u00e9', '\u212b', '\ufb01n', '\uff21', '\U0001f600', '\xa0x', '\u200bx', 'x\x85y', 'x\x1cy', 'İı', 'ÉTÉ',
         'été']

WORDSV = ['eau', 'feu', 'water', 'fire', 'tree', 'ciel', 'sky', 'vent']


def value(rng, nasty=0.5):
    if rng.random() < nasty:
        v = rng.choice(NASTY)
        if rng.random() < 0.25:
            v = v + rng.choice(NASTY)
        return v
    return rng.choice(WORDSV) + (str(rng.randrange(100)) if rng.random() < 0.7 else '')


def plain(rng):
    return rng.choice(WORDSV) + ' ' + str(rng.randrange(1000))


def some(rng, l, k):
    return rng.sample(l, min(k, len(l)))


# texts to parse: (kind, text); kind: usl (IEMLParser), script, path
SCRIPT_TEXTS = ['a.', 'wa.', 'E:', 'S:', 'O:M:.', 'M:M:.O:M:.-', "b.-S:.A:.-'", "l.-T:.U:.-',n.-T:.A:.-',b.-S:.A:.-'U:.-'U:.-',_",
                'U:S:+T:S:.', 'O:M:.M:M:.-+M:M:.O:M:.-', "E:.-U:.s.-l.-'", 'i.B:.-', "c.-'B:.-'k.o.-t.o.-',", 'O:O:.', 'F:F:.',
                'A:+U:S:.', "t.i.-l.i.-'", 'p.E:A:S:.-', 'B:S:A:+S:.', "k.-O:M:.-s.y.-'", 'M:.o.-M:.o.-', "we.h.-'k.o.-'"]
BAD_SCRIPTS = ['', 'a', 'E', 'O:M', 'A:B:+.', 'a..', 'wa.-.', 'a.b', 'S:U', "b.-S:.A:.-'_", 'a.+O:M:.', 'Z:', '+', 'a.-b.', "l.-'l.-"]
USL_TEXTS = ['a. b.', 'S: A:', 'm1(U:M:.)', 'A: m1(S: B: T:)', 'm1(A:) m1(E:) m1(S: B: T:)', '(a. b.)', '()(u.A:.-)', '(S:)(B:)',
             "(m1(E:.wo.U:.-t.o.-' E:.wo.A:.-t.o.-'))(U:)", "s.-S:.U:.-' n.-T:.A:.-' m1(E:.-U:.b.-l.-' E:.-U:.f.-l.-') m1(E:.-B:.k.-l.-')",
             "[! E:A:. ()(m.-B:.A:.-') > E:A:. E:A:. (E:B:.-d.u.-')(p.E:A:T:.- m1(S:))]",
             "[! E:B:. ()(k.a.-k.a.-' l.o.-k.o.-') > E:.f.- ()(m1(p.E:A:S:.- p.E:A:B:.- p.E:A:T:.-))]",
             "[E:A:.  (E:.-n.S:.-')(b.a.- b.o.-n.o.-s.u.-') > E:A:. E:A:. ()(n.-S:.U:.-') > ! E:A:. E:U:. ()]",
             "[! E:S:. ()(u.A:.-) > E:.l.- (E:.-U:.s.-l.-')]", 'M:M:.O:.-', 'U:M:. a.']
BAD_USLS = ['(', 'a. (', '[]', '[! E:A:. ()(a.)', 'a. b. m1(', 'm1()', '(a.)(', 'zz', '[E:A:. ()(a.)]', 'a. b. [>constant>wa. "x"]',
            '()(a.) ()', 'a. b. ["x"]', '(a.)(b.)(c.)(d.)', 'a. b. [>constant>a.]', 'O: M', '! a.', 'b. b a.', '[! U: ()(a.)]']
DECORATED_TEXTS = ['a. b. [>constant>a. "foo"]', 'a. b. [>constant>b. "bar"]', 'a. b. [>constant>a. "1"] [>constant>b. "2"]',
                   '()(a. b.) [>content>constant>a. "x"]', '(a. b.)(b. e.) [>flexion>a. "y"]', 'a. m1(b. e.) [>group_0 1>e. "g"]',
                   'U:M:. b. [>constant>b. "p"]', "[! E:A:. ()(a. b.)] [>role>! E:A:.>content>constant>b. \"w\"]",
                   "[! E:A:. ()(a. b.) > E:A:. E:A:. (E:B:.-d.u.-')(b. m1(S:))] [>role>E:A:. E:A:.>content>constant>b. \"z\"]"]
PATH_TEXTS = ['>', '>constant', '>constant>S:', '>group_0 1>S:', '>group_2 1', '>group_1 1>B:', '>content>constant>S:', '>flexion>S:',
              '>flexion', ">role>E:A:. E:A:.>content>constant>k.a.-k.a.-'", '>role>! E:A:.>flexion>b.', '>role>E:A:.', '>content']
BAD_PATHS = ['', '>>', '>constant>', 'constant', '>group_9>S:', '>role', '>role>', '>flexion>flexion', '>content>content>a.', '>content>zz']


def gen_text(rng, bad=0.25, kinds=('usl', 'usl', 'script', 'path')):
    k = rng.choice(kinds)
    b = rng.random() < bad
    if k == 'script':
        return [k, rng.choice(BAD_SCRIPTS if b else SCRIPT_TEXTS)]
    if k == 'path':
        return [k, rng.choice(BAD_PATHS if b else PATH_TEXTS)]
    return [k, rng.choice(BAD_USLS if b else USL_TEXTS + DECORATED_TEXTS[:9] + SCRIPT_TEXTS[:12])]

BRANCHES = ['master'] * 6 + ['dev', 'feature/x', 'V1.0-é']
