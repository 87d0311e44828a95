WC = 'bead_cli/web/commands.py'
BODY = """        names: Set[str] = set()
        while args:
            name = args.pop()
            if name == sentinel:
                return names
            if name in ('..', '/'):
                raise ValueError(f'Unexpected delimiter: {repr(name)} after {names}.')
            if not is_valid_name(name):
                raise ValueError(f'Malformed name: {repr(name)} after {names}.')
            names.add(name)
        raise ValueError(f'Delimiter not found: {repr(sentinel)}.')
"""
CALL = """        if self.sources:
            sketch = web_sketch.set_sources(sketch, self.sources)
        if self.sinks:
            sketch = web_sketch.set_sinks(sketch, self.sinks)
        return sketch
"""
R = [
    dict(id='r6-words-true', props=['C16'], edits=[(WC, BODY, """        found: Set[str] = set()
        while True:
            if not args:
                raise ValueError(f'Delimiter not found: {repr(sentinel)}.')
            word = args.pop()
            if word == sentinel:
                break
            if not is_valid_name(word):
                raise ValueError(f'Unexpected delimiter: {repr(word)} after {found}.')
            found.add(word)
        return found
""")]),
    dict(id='r6-words-walrus', props=['C16'], edits=[(WC, BODY, """        names = set()
        while args:
            if (name := args.pop()) == sentinel:
                return names
            elif not is_valid_name(name):
                raise ValueError(f'Unexpected delimiter: {repr(name)} after {names}.')
            names |= {name}
        raise ValueError(f'Delimiter not found: {repr(sentinel)}.')
""")]),
    dict(id='r6-words-tested', props=['C16'], edits=[(WC, BODY, """        names: Set[str] = set()
        while args and is_valid_name(args[-1]):
            names.add(args.pop())
        if not args:
            raise ValueError(f'Delimiter not found: {repr(sentinel)}.')
        last = args.pop()
        if last != sentinel:
            raise ValueError(f'Unexpected delimiter: {repr(last)} after {names}.')
        return names
""")]),
    dict(id='r6-words-list', props=['C16'], edits=[(WC, BODY, """        names = []
        while args:
            name = args.pop()
            if name == sentinel:
                return set(names)
            if not is_valid_name(name):
                raise ValueError(f'Unexpected delimiter: {repr(name)} after {names}.')
            names.append(name)
        raise ValueError(f'Delimiter not found: {repr(sentinel)}.')
""")]),
    dict(id='r6-filter-loop', props=['C16'], edits=[(WC, CALL, """        steps = [(web_sketch.set_sources, self.sources), (web_sketch.set_sinks, self.sinks)]
        for step, names in steps:
            if names:
                sketch = step(sketch, names)
        return sketch
""")]),
    dict(id='r6-filter-swap', props=['C16'], edits=[(WC, CALL, """        result = web_sketch.set_sources(sketch, self.sources) if self.sources else sketch
        return web_sketch.set_sinks(result, self.sinks) if self.sinks else result
""")]),
]
