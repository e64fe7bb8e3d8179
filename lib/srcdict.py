"""Harvests literals from the current source of DHParser's modules, to be mixed into
generated inputs (sizes, indices, strings), the way fuzzers use dictionaries.  This only
steers generation; it never decides anything."""
import ast, functools, os

REPO = os.environ.get('VERIF_REPO', '/repo')


@functools.lru_cache(maxsize=None)
def _literals(module):
    ints, strs = set(), set()
    path = os.path.join(REPO, 'DHParser', module + '.py')
    try:
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
    except (OSError, SyntaxError):
        return (), ()
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
    for n in ast.walk(tree):
        if isinstance(n, ast.Constant) and id(n) not in doc:
            if isinstance(n.value, int) and not isinstance(n.value, bool) and 2 <= abs(n.value) <= 4096:
                ints.add(abs(n.value))
            elif isinstance(n.value, str) and 1 <= len(n.value) <= 16:
                strs.add(n.value)
    return tuple(sorted(ints)), tuple(sorted(strs))


def ints(*modules, limit=600, around=True):
    s = set()
    for m in modules:
        for i in _literals(m)[0]:
            for d in ((-1, 0, 1) if around else (0,)):
                if 0 <= i + d <= limit:
                    s.add(i + d)
    return sorted(s) or [2, 3]


def strs(*modules, maxlen=12, pred=None):
    s = set()
    for m in modules:
        for x in _literals(m)[1]:
            if len(x) <= maxlen and (pred is None or pred(x)):
                s.add(x)
    return sorted(s) or ['a']
