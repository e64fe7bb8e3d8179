"""Generator and reference model for node-trees.  A tree is a literal (name, attrs, result): attrs is a tuple of
(key, value) pairs, result a string or a tuple of such literals."""
from hypothesis import strategies as st
from . import gen

NAMES = ['a', 'b', 'c', 'A', 'B', 'doc', 'head', 'p', 'em', 'x1', 'long_name']
ANON = [':Text', ':Whitespace', ':RegExp', ':Series']
ATTRS = ['id', 'n', 'class', 'type', 'lang', 'k1']
PLAIN = st.sampled_from(['', 'x', 'ab', ' ', 'a b', 'hello world', '42', '\n', 'ä€', 'foo', ' lead', 'trail '])


def attrs(values=PLAIN, names=ATTRS, maxn=3):
    return st.one_of(st.just(()), st.just(()),
                     st.dictionaries(st.sampled_from(names), values, max_size=maxn).map(lambda d: tuple(d.items())))


@st.composite
def trees(draw, content=PLAIN, names=NAMES, anon=ANON, attr_values=PLAIN, attr_names=ATTRS, depth=4, width=4,
          empty_branch=True, anon_attrs=False, size=40, mind=0, minw=0):
    pool = list(names) * 2 + list(anon)
    budget = [draw(st.integers(1, size))]

    def node(d, root=False):
        budget[0] -= 1
        nm = draw(st.sampled_from(pool if not root else list(names)))
        at = draw(attrs(attr_values, attr_names)) if (attr_names and (anon_attrs or nm[0] != ':')) else ()
        n = draw(st.integers(minw if root else 0, width)) if d > 0 and budget[0] > 0 else 0
        if n and nm not in (':Text', ':Whitespace', ':RegExp'):
            return (nm, at, tuple(node(d - 1) for _ in range(n)))
        return (nm, at, draw(content))
    return node(draw(st.integers(mind, depth)), True)


def build(lit):
    from DHParser.nodetree import Node
    name, at, res = lit
    nd = Node(name, res if isinstance(res, str) else tuple(build(c) for c in res))
    if at: nd.attr.update(dict(at))
    return nd


def lit(nd):
    """The literal of a node; attribute-less nodes yield ()."""
    at = tuple((k, v) for k, v in nd.attr.items()) if nd.has_attr() else ()
    return (nd.name, at, tuple(lit(c) for c in nd.children) if nd.children else str(nd.result))


def norm(l):
    """An empty tuple of children is the same as empty content."""
    n, a, r = l
    return (n, a, r if isinstance(r, str) else (tuple(norm(c) for c in r) or ''))


def content(l): return l[2] if isinstance(l[2], str) else ''.join(content(c) for c in l[2])


def walk(l):
    yield l
    if not isinstance(l[2], str):
        for c in l[2]: yield from walk(c)


def leaves(l): return [x for x in walk(l) if isinstance(x[2], str) or not x[2]]
def size(l): return sum(1 for _ in walk(l))


def show(l):
    n, a, r = l
    return '(' + n + ''.join(f' @{k}={v!r}' for k, v in a) + ' ' + (repr(r) if isinstance(r, str) else ' '.join(map(show, r))) + ')'
