"""Shared Hypothesis strategies for texts, all producing plain Python literals."""
from hypothesis import strategies as st
from . import srcdict

SPECIAL = ['\n', ' ', '\t', '"', "'", '\\', '(', ')', '[', ']', '{', '}', '<', '>', '&', ';', ':', '=', '`',
           '#', '%', '$', '§', 'ä', 'ß', 'é', '€', '\u2028', '\u00a0', '😀', '\x1b', '\x1c', '\x1d', '0', '9', '_', '-', '.',
           ',', '/', '|', '*', '+', '?', '!', '^', '~', '@', '\r']
ANY_CHAR = st.characters(exclude_categories=('Cs',))


def text_of(alphabet, min_size=0, max_size=12):
    return st.lists(st.sampled_from(list(alphabet)), min_size=min_size, max_size=max_size).map(''.join)


def weird_text(min_size=0, max_size=20):
    return st.one_of(
        text_of('ab \n', min_size, max_size),
        st.lists(st.one_of(st.sampled_from(SPECIAL), st.sampled_from('abcXYZ')),
                 min_size=min_size, max_size=max_size).map(''.join),
        st.text(ANY_CHAR, min_size=min_size, max_size=max_size))


def long_text(modules, alphabet='ab \nxy', limit=400):
    """Text whose length lies around some integer literal of the modules under test."""
    sizes = srcdict.ints(*modules, limit=limit)
    def build(t):
        n, seed_words, off = t
        unit = ''.join(seed_words) or 'a'
        s = (unit * (n // len(unit) + 2))[off:off + n]
        return s
    return st.tuples(st.one_of(st.sampled_from(sizes), st.integers(0, limit)),
                     st.lists(st.sampled_from(list(alphabet)), min_size=1, max_size=9),
                     st.integers(0, 3)).map(build)


IDENT_HEAD = 'abcdefgxyzABXY'
IDENT_TAIL = IDENT_HEAD + '0129_'


def idents(max_size=6):
    return st.tuples(st.sampled_from(IDENT_HEAD),
                     text_of(IDENT_TAIL, 0, max_size - 1)).map(''.join)
