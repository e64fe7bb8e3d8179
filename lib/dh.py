"""Convenience wrappers around the public API of DHParser (imported lazily)."""


def compile_grammar(src):
    """Returns (grammar_object or None, messages)."""
    from DHParser.ebnf import compile_ebnf
    from DHParser.error import is_error
    res = compile_ebnf(src)
    if res.result is None or any(is_error(m.code) for m in res.messages):
        return None, res.messages
    return provider(res.result)(), res.messages


_NS = {}


def compile_ebnf(src):
    """Returns plain, comparable data: (python source, [(position, code, message)...])."""
    from DHParser.ebnf import compile_ebnf as compile
    res = compile(src)
    return res.result, sorted((m.pos, int(m.code), m.message) for m in res.messages)


def provider(python_src):
    """Executes generated Python code (the imports only once) and returns the factory."""
    return namespace(python_src)['parsing'].factory


def grammar_class(python_src):
    """Executes generated Python code and returns the (fresh, never instantiated) Grammar-class."""
    from DHParser.parse import Grammar
    ns = namespace(python_src)
    return next(v for k, v in ns.items() if k not in _NS and isinstance(v, type) and issubclass(v, Grammar))


def namespace(python_src):
    from DHParser.ebnf import DHPARSER_IMPORTS
    if not _NS:
        exec(compile(DHPARSER_IMPORTS.replace('{dhparser_parentdir}', repr('/repo'))
                     if '{dhparser_parentdir}' in DHPARSER_IMPORTS else DHPARSER_IMPORTS, '<imports>', 'exec'), _NS)
    ns = dict(_NS)
    exec(compile(python_src, '<grammar>', 'exec'), ns)
    return ns


def errors_only(messages):
    from DHParser.error import is_error
    return [m for m in messages if is_error(m.code)]
