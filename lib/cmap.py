"""Reference model of content mappings: explicit enumeration of leaves."""
from .pbt import equal


def oracle(root, select, ignore):
    """-> list of leaf paths"""
    out = []

    def walk(node, path):
        path = path + [node]
        if ignore and node.name in ignore[1]: return
        if node.children:
            for c in node.children: walk(c, path)
        elif select is None or (select[0] == 'paths' and any(n.name in select[1] for n in path)) or (select[0] == 'leaves' and node.name in select[1]):
            out.append(path)
    walk(root, [])
    return out


def criteria(select, ignore):
    from DHParser import nodetree as N
    sel = N.LEAF_PATH if select is None else N.leaf_paths(set(select[1])) if select[0] == 'paths' else \
        (lambda path: not path[-1].children and path[-1].name in select[1])
    return sel, (N.NO_PATH if ignore is None else set(ignore[1]))


def ids(p): return [id(n) for n in p]


def compare(cm, paths, what=''):
    equal([ids(p) for p in cm.path_list], [ids(p) for p in paths], what, 'path_list')
    pos, out = 0, []
    for p in paths: out.append(pos); pos += len(p[-1].content)
    equal(cm.pos_list, out, what, 'pos_list')
    equal(cm.content, ''.join(p[-1].content for p in paths), what, 'content')
