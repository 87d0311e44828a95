'''Refactorings of the web package.'''
GR = 'bead_cli/web/graph.py'
SK = 'bead_cli/web/sketch.py'
DU = 'bead_cli/web/dummy.py'
IO = 'bead_cli/web/io.py'
CL = 'bead_cli/web/cluster.py'
CM = 'bead_cli/web/commands.py'

R = [
dict(id='web-edges-get', props=['C17', 'C16'], edits=[(GR, '''        try:
            src = bead_index[src_ref]
        except LookupError:
            src = bead_index[src_ref] = Dummy.phantom_from_input(bead, input)

        yield Edge(src, bead, input.name)
''', '''        src = bead_index.get(src_ref)
        if src is None:
            src = Dummy.phantom_from_input(bead, input)
            bead_index[src_ref] = src

        yield Edge(src, bead, input.name)
''')]),
dict(id='web-edges-notin', props=['C17'], edits=[(GR, '''        try:
            src = bead_index[src_ref]
        except LookupError:
            src = bead_index[src_ref] = Dummy.phantom_from_input(bead, input)

        yield Edge(src, bead, input.name)
''', '''        if src_ref not in bead_index:
            bead_index[src_ref] = Dummy.phantom_from_input(bead, input)
        yield Edge(bead_index[src_ref], bead, input.name)
''')]),
dict(id='web-edges-list', props=['C17'], edits=[(GR, '''    for input in bead.inputs:
        src_ref = Ref.from_bead(input)
        try:
            src = bead_index[src_ref]
        except LookupError:
            src = bead_index[src_ref] = Dummy.phantom_from_input(bead, input)

        yield Edge(src, bead, input.name)
''', '''    edges = []
    for input in bead.inputs:
        src_ref = Ref.from_bead(input)
        try:
            src = bead_index[src_ref]
        except KeyError:
            src = Dummy.phantom_from_input(bead, input)
            bead_index[src_ref] = src
        edges.append(Edge(src, bead, input.name))
    return edges
''')]),
dict(id='web-group-setdefault', props=['C16', 'C18'], edits=[(GR, '''    edges_by_src: Dict[Ref, List[Edge]] = defaultdict(list)
    for edge in edges:
        edges_by_src[edge.src_ref].append(edge)
    return edges_by_src
''', '''    return group_by(edges, lambda edge: edge.src_ref)
'''), (GR, '''    edges_by_dest: Dict[Ref, List[Edge]] = defaultdict(list)
    for edge in edges:
        edges_by_dest[edge.dest_ref].append(edge)
    return edges_by_dest


def closure''', '''    return group_by(edges, lambda edge: edge.dest_ref)


def group_by(edges, key) -> Dict[Ref, List[Edge]]:
    groups: Dict[Ref, List[Edge]] = defaultdict(list)
    for edge in edges:
        groups[key(edge)].append(edge)
    return groups


def closure''')]),
dict(id='web-closure-list', props=['C16'], edits=[(GR, '''    reachable: Set[Ref] = set()
    todo: Set[Ref] = set(roots)
    while todo:
        src = todo.pop()
        reachable.add(src)
        for edge in edges_by_src[src]:
            dest_id = edge.dest_ref
            if dest_id not in reachable:
                todo.add(dest_id)
    return reachable
''', '''    reachable: Set[Ref] = set()
    stack: List[Ref] = list(roots)
    while stack:
        ref = stack.pop()
        if ref in reachable:
            continue
        reachable.add(ref)
        stack.extend(edge.dest_ref for edge in edges_by_src[ref])
    return reachable
''')]),
dict(id='web-closure-update', props=['C16'], edits=[(GR, '''        for edge in edges_by_src[src]:
            dest_id = edge.dest_ref
            if dest_id not in reachable:
                todo.add(dest_id)
    return reachable
''', '''        neighbours = {edge.dest_ref for edge in edges_by_src[src]}
        todo.update(neighbours - reachable)
    return reachable
''')]),
dict(id='web-closure-eager', props=['C16'], edits=[(GR, '''    reachable: Set[Ref] = set()
    todo: Set[Ref] = set(roots)
    while todo:
        src = todo.pop()
        reachable.add(src)
        for edge in edges_by_src[src]:
            dest_id = edge.dest_ref
            if dest_id not in reachable:
                todo.add(dest_id)
    return reachable
''', '''    reachable: Set[Ref] = set(roots)
    todo: List[Ref] = list(roots)
    while todo:
        src = todo.pop()
        for edge in edges_by_src[src]:
            if edge.dest_ref not in reachable:
                reachable.add(edge.dest_ref)
                todo.append(edge.dest_ref)
    return reachable
''')]),
dict(id='web-node-index-inline', props=['C16', 'C17', 'C18', 'C26'], edits=[(GR, '''    def register_map(ref, node):
        value = node_by_ref.setdefault(ref, node)
        assert node == value
    for e in edges:
        register_map(e.src_ref, e.src)
        register_map(e.dest_ref, e.dest)

    return node_by_ref
''', '''    for e in edges:
        for ref, node in ((e.src_ref, e.src), (e.dest_ref, e.dest)):
            value = node_by_ref.setdefault(ref, node)
            assert node == value
    return node_by_ref
''')]),
dict(id='web-node-index-in', props=['C16', 'C17', 'C18', 'C26'], edits=[(GR, '''        value = node_by_ref.setdefault(ref, node)
        assert node == value
''', '''        if ref in node_by_ref:
            assert node == node_by_ref[ref]
        else:
            node_by_ref[ref] = node
''')]),
dict(id='web-refs-loop', props=['C16', 'C17'], edits=[(GR, '''    return {node.ref for node in nodes}
''', '''    refs = set()
    for node in nodes:
        refs.add(node.ref)
    return refs
''')]),
dict(id='web-refs-edges', props=['C16', 'C17'], edits=[(GR, '''    return set(node_index_from_edges(edges))
''', '''    return set(node_index_from_edges(edges).keys())
''')]),
dict(id='web-toposort-early', props=['C18'], edits=[(GR, '''        for input_edge in edges_by_dest[ref]:
            input_node = input_edge.src
            if input_node.ref in todo:
                dfs(input_node.ref)
        path.pop()
''', '''        for edge in edges_by_dest[ref]:
            if edge.src_ref not in todo:
                continue
            dfs(edge.src_ref)
        path.pop()
''')]),
dict(id='web-toposort-guard', props=['C18'], edits=[(GR, '''        if ref in path:
            raise ValueError('Loop detected!', path, ref)

        path.append(ref)
        for input_edge in edges_by_dest[ref]:
            input_node = input_edge.src
            if input_node.ref in todo:
                dfs(input_node.ref)
        path.pop()

        todo.remove(ref)
''', '''        if ref not in todo:
            return
        if ref in path:
            raise ValueError('Loop detected!', path, ref)

        path.append(ref)
        for input_edge in edges_by_dest[ref]:
            dfs(input_edge.src.ref)
        path.pop()

        todo.discard(ref)
''')]),
dict(id='web-toposort-set', props=['C18'], edits=[(GR, '''    while todo:
        dfs(next(iter(todo)))

    return output
''', '''    for ref in list(todo):
        if ref in todo:
            dfs(ref)

    return output
''')]),
dict(id='sk-from-beads-loop', props=['C17', 'C16'], edits=[(SK, '''        edges = tuple(
            itertools.chain.from_iterable(
                generate_input_edges(bead_index, bead)
                for bead in tuple(bead_index.values())))
        return cls(tuple(bead_index.values()), edges)
''', '''        edges = []
        for bead in list(bead_index.values()):
            edges.extend(generate_input_edges(bead_index, bead))
        return cls(tuple(bead_index.values()), tuple(edges))
''')]),
dict(id='sk-from-beads-comp', props=['C17', 'C16'], edits=[(SK, '''        edges = tuple(
            itertools.chain.from_iterable(
                generate_input_edges(bead_index, bead)
                for bead in tuple(bead_index.values())))
        return cls(tuple(bead_index.values()), edges)
''', '''        known_beads = tuple(bead_index.values())
        edges = tuple(
            edge
            for bead in known_beads
            for edge in generate_input_edges(bead_index, bead))
        return cls(beads=tuple(bead_index.values()), edges=edges)
''')]),
dict(id='sk-heads-loop', props=['C26', 'C18'], edits=[(SK, '''    head_by_ref = {c.head.ref: c.head for c in sketch.clusters}
    head_edges = tuple(e for e in sketch.edges if e.dest_ref in head_by_ref)
    src_by_ref = {e.src_ref: e.src for e in head_edges}
    heads = {**head_by_ref, **src_by_ref}.values()
    return Sketch(beads=tuple(heads), edges=head_edges)
''', '''    beads_by_ref = {}
    for cluster in sketch.clusters:
        beads_by_ref[cluster.head.ref] = cluster.head
    head_refs = set(beads_by_ref)
    head_edges = []
    for edge in sketch.edges:
        if edge.dest_ref in head_refs:
            head_edges.append(edge)
            beads_by_ref[edge.src_ref] = edge.src
    return Sketch(beads=tuple(beads_by_ref.values()), edges=tuple(head_edges))
''')]),
dict(id='sk-heads-update', props=['C26', 'C18'], edits=[(SK, '''    src_by_ref = {e.src_ref: e.src for e in head_edges}
    heads = {**head_by_ref, **src_by_ref}.values()
    return Sketch(beads=tuple(heads), edges=head_edges)
''', '''    kept = dict(head_by_ref)
    kept.update((e.src_ref, e.src) for e in head_edges)
    return Sketch(tuple(kept.values()), head_edges)
''')]),
dict(id='sk-heads-union', props=['C26', 'C18'], edits=[(SK, '''    heads = {**head_by_ref, **src_by_ref}.values()
''', '''    heads = (head_by_ref | src_by_ref).values()
''')]),
dict(id='sk-sink-list', props=['C18'], edits=[(SK, '''    sink_edges = (Edge(src, sink) for src in sketch.beads)
    return (
        Sketch(
            beads=sketch.beads + tuple([sink]),
            edges=sketch.edges + tuple(sink_edges)
        ),
        sink
    )
''', '''    sink_edges = tuple(Edge(src=bead, dest=sink) for bead in sketch.beads)
    extended = Sketch(beads=(*sketch.beads, sink), edges=(*sketch.edges, *sink_edges))
    return extended, sink
''')]),
dict(id='sk-sink-name', props=['C18'], edits=[(SK, '''    sink_name = '*' * (1 + max((len(bead.name) for bead in sketch.beads), default=0))
''', '''    longest = max([len(bead.name) for bead in sketch.beads], default=0)
    sink_name = '*' * (longest + 1)
''')]),
dict(id='sk-sources-helper', props=['C16'], edits=[(SK, '''    cluster_filter = ClusterFilter(sketch)

    edges = cluster_filter.get_encoded_edges()
    root_refs = cluster_filter.get_encoded_refs(cluster_names)

    cluster_refs_to_keep = closure(root_refs, group_by_src(edges))

    return cluster_filter.get_filtered_by_refs(cluster_refs_to_keep)


def set_sinks''', '''    cluster_filter = ClusterFilter(sketch)
    return keep_reachable(cluster_filter, cluster_filter.get_encoded_edges(), cluster_names)


def keep_reachable(cluster_filter, edges, cluster_names) -> Sketch:
    root_refs = cluster_filter.get_encoded_refs(cluster_names)
    refs = closure(root_refs, group_by_src(edges))
    return cluster_filter.get_filtered_by_refs(refs)


def set_sinks'''), (SK, '''    edges = cluster_filter.get_encoded_edges()
    edges = [e.reversed() for e in edges]
    root_refs = cluster_filter.get_encoded_refs(cluster_names)

    cluster_refs_to_keep = closure(root_refs, group_by_src(edges))

    return cluster_filter.get_filtered_by_refs(cluster_refs_to_keep)
''', '''    edges = [e.reversed() for e in cluster_filter.get_encoded_edges()]
    return keep_reachable(cluster_filter, edges, cluster_names)
''')]),
dict(id='sk-sinks-by-dest', props=['C16'], edits=[(SK, '''    edges = cluster_filter.get_encoded_edges()
    edges = [e.reversed() for e in edges]
    root_refs = cluster_filter.get_encoded_refs(cluster_names)

    cluster_refs_to_keep = closure(root_refs, group_by_src(edges))
''', '''    reversed_edges = tuple(e.reversed() for e in cluster_filter.get_encoded_edges())
    cluster_refs_to_keep = closure(
        cluster_filter.get_encoded_refs(cluster_names),
        group_by_src(reversed_edges))
''')]),
dict(id='sk-refs-dict', props=['C16'], edits=[(SK, '''        return [
            self.dummy_by_name[name].ref
            for name in sorted(set(bead_names))
            if name in self.dummy_by_name
        ]
''', '''        known_names = set(bead_names) & set(self.dummy_by_name)
        return [self.dummy_by_name[name].ref for name in known_names]
''')]),
dict(id='sk-filtered-direct', props=['C16'], edits=[(SK, '''        cluster_edges_to_keep = {
            (src, dest)
            for src, dest in src_dest_pairs
            if src in clusters_to_keep and dest in clusters_to_keep
        }
        encoded_edges = [
            Edge(
                self.dummy_by_name[src],
                self.dummy_by_name[dest],
            )
            for src, dest in cluster_edges_to_keep
        ]
        return self''', '''        encoded_edges = []
        for src, dest in src_dest_pairs:
            if src not in clusters_to_keep:
                continue
            if dest not in clusters_to_keep:
                continue
            encoded_edges.append(Edge(self.dummy_by_name[src], self.dummy_by_name[dest]))
        return self''')]),
dict(id='sk-filtered-names', props=['C16'], edits=[(SK, '''        bead_names = {src for src, _ in src_dest_pairs} | {dest for _, dest in src_dest_pairs}
        assert bead_names''', '''        bead_names = set()
        for src_name, dest_name in src_dest_pairs:
            bead_names.add(src_name)
            bead_names.add(dest_name)
        assert bead_names''')]),
dict(id='sk-pairs-loop', props=['C16'], edits=[(SK, '''        return {(e.src.name, e.dest.name) for e in edges}
''', '''        return set((edge.src.name, edge.dest.name) for edge in edges)
''')]),
dict(id='sk-color-loop', props=['C18'], edits=[(SK, '''        if cluster_head.freshness is UP_TO_DATE:
            if any(e.src.freshness is not UP_TO_DATE for e in edges_by_dest[cluster_head.ref]):
                cluster_head.set_freshness(OUT_OF_DATE)
''', '''        if cluster_head.freshness is not UP_TO_DATE:
            continue
        for edge in edges_by_dest[cluster_head.ref]:
            if edge.src.freshness is not UP_TO_DATE:
                cluster_head.set_freshness(OUT_OF_DATE)
                break
''')]),
dict(id='sk-color-all', props=['C18'], edits=[(SK, '''            if any(e.src.freshness is not UP_TO_DATE for e in edges_by_dest[cluster_head.ref]):
''', '''            if not all(e.src.freshness == UP_TO_DATE for e in edges_by_dest[cluster_head.ref]):
''')]),
dict(id='sk-color-reset', props=['C18'], edits=[(SK, '''    for cluster in sketch.clusters:
        cluster.reset_freshness()

    # down''', '''    for name in sketch.cluster_by_name:
        sketch.cluster_by_name[name].reset_freshness()

    # down''')]),
dict(id='sk-drop-comp', props=['C16', 'C26'], edits=[(SK, '''        inputs_to_keep = []
        for input in bead.inputs:
            input_ref = Ref.from_bead(input)
            if (input_ref, bead.ref) in edges_as_refs:
                inputs_to_keep.append(input)
        beads.append(attr.evolve(bead, inputs=inputs_to_keep))
''', '''        inputs_to_keep = [
            input
            for input in bead.inputs
            if (Ref.from_bead(input), bead.ref) in edges_as_refs]
        beads.append(attr.evolve(bead, inputs=inputs_to_keep))
''')]),
dict(id='sk-drop-helper', props=['C16', 'C26'], edits=[(SK, '''    beads = []
    for bead in sketch.beads:
        inputs_to_keep = []
        for input in bead.inputs:
            input_ref = Ref.from_bead(input)
            if (input_ref, bead.ref) in edges_as_refs:
                inputs_to_keep.append(input)
        beads.append(attr.evolve(bead, inputs=inputs_to_keep))
    return Sketch.from_beads(beads)
''', '''
    def without_deleted_inputs(bead):
        return attr.evolve(bead, inputs=[
            input for input in bead.inputs
            if (Ref.from_bead(input), bead.ref) in edges_as_refs])

    return Sketch.from_beads([without_deleted_inputs(bead) for bead in sketch.beads])
''')]),
dict(id='sk-drop-group', props=['C16', 'C26'], edits=[(SK, '''    edges_as_refs = {(edge.src_ref, edge.dest_ref) for edge in sketch.edges}
    beads = []
''', '''    edges_as_refs = set()
    for edge in sketch.edges:
        edges_as_refs.add((edge.src_ref, edge.dest_ref))
    beads = []
''')]),
dict(id='du-index-comp', props=['C17', 'C16', 'C26'], edits=[(DU, '''        bead_by_ref = {}
        for bead in beads:
            bead_by_ref[cls.from_bead(bead)] = bead
        return bead_by_ref
''', '''        return {cls.from_bead(bead): bead for bead in beads}
''')]),
dict(id='du-phantom-arg', props=['C17', 'C18'], edits=[(DU, '''        phantom = (
            cls(
                name=inputspec.name,
                content_id=inputspec.content_id,
                kind=inputspec.kind,
                freeze_time_str=inputspec.freeze_time_str))
        phantom.freshness = Freshness.PHANTOM
        return phantom
''', '''        return cls(
            name=inputspec.name,
            content_id=inputspec.content_id,
            kind=inputspec.kind,
            freeze_time_str=inputspec.freeze_time_str,
            freshness=Freshness.PHANTOM)
''')]),
dict(id='du-set-freshness', props=['C18'], edits=[(DU, '''        if self.freshness != Freshness.PHANTOM:
            self.freshness = freshness
''', '''        if not self.is_not_phantom:
            return
        self.freshness = freshness
''')]),
dict(id='cl-index-setdefault', props=['C18', 'C26', 'C16'], edits=[(CL, '''        if bead.name not in cluster_by_name:
            cluster_by_name[bead.name] = Cluster(bead.name)
        cluster_by_name[bead.name].add(bead)
''', '''        cluster = cluster_by_name.get(bead.name)
        if cluster is None:
            cluster = cluster_by_name[bead.name] = Cluster(bead.name)
        cluster.add(bead)
''')]),
dict(id='cl-index-try', props=['C18', 'C26', 'C16'], edits=[(CL, '''        if bead.name not in cluster_by_name:
            cluster_by_name[bead.name] = Cluster(bead.name)
        cluster_by_name[bead.name].add(bead)
''', '''        try:
            cluster = cluster_by_name[bead.name]
        except KeyError:
            cluster = Cluster(bead.name)
            cluster_by_name[bead.name] = cluster
        cluster.add(bead)
''')]),
dict(id='cl-reset-first', props=['C18'], edits=[(CL, '''        beads = self.beads()

        if beads and beads[0].is_not_phantom:
            beads[0].set_freshness(Freshness.UP_TO_DATE)

        for bead in beads[1:]:
            bead.set_freshness(Freshness.SUPERSEDED)
''', '''        for i, bead in enumerate(self.beads()):
            bead.set_freshness(Freshness.UP_TO_DATE if i == 0 else Freshness.SUPERSEDED)
''')]),
dict(id='cl-reset-star', props=['C18'], edits=[(CL, '''        beads = self.beads()

        if beads and beads[0].is_not_phantom:
            beads[0].set_freshness(Freshness.UP_TO_DATE)

        for bead in beads[1:]:
            bead.set_freshness(Freshness.SUPERSEDED)
''', '''        beads = self.beads()
        if not beads:
            return
        latest, *older = beads
        if latest.is_not_phantom:
            latest.set_freshness(Freshness.UP_TO_DATE)
        for bead in older:
            bead.set_freshness(Freshness.SUPERSEDED)
''')]),
dict(id='cl-add-nested', props=['C18', 'C26'], edits=[(CL, '''        def head_order(bead):
            return (bead.is_not_phantom, bead.freeze_time)

        # the initial head is not one of the beads, it has to go, even for phantoms older than EPOCH
        if len(self) == 1 or head_order(bead) >= head_order(self.head):
            self.head = bead
''', '''        is_first = len(self.beads_by_content_id) == 1
        if is_first or not self._is_before_head(bead):
            self.head = bead

    def _is_before_head(self, bead):
        if bead.is_not_phantom != self.head.is_not_phantom:
            return self.head.is_not_phantom
        return bead.freeze_time < self.head.freeze_time
''')]),
dict(id='io-loads', props=['C19'], edits=[(IO, '''    with open(file_name, 'w') as f:
        dump(beads, f)
''', '''    with open(file_name, 'w') as f:
        f.write(dumps(beads))
''')]),
dict(id='io-enc-helper', props=['C19'], edits=[(IO, '''    if attr.has(obj.__class__):
        return {
            ENCODING: ENCODING_ATTRS,
            CLASS_NAME: obj.__class__.__name__,
            **attr.asdict(obj, recurse=False),
        }
    if isinstance(obj, Enum):
''', '''    cls = type(obj)
    if attr.has(cls):
        encoded = attr.asdict(obj, recurse=False)
        encoded[ENCODING] = ENCODING_ATTRS
        encoded[CLASS_NAME] = cls.__name__
        return encoded
    if isinstance(obj, Enum):
''')]),
dict(id='io-reconstruct-if', props=['C19'], edits=[(IO, '''    construct = {
        ENCODING_ATTRS: attr_load,
        ENCODING_ENUM: enum_load,
        None: dict_load,
    }[encoding]
    return construct(json_dict, type_by_name)
''', '''    if encoding is None:
        return dict_load(json_dict, type_by_name)
    if encoding == ENCODING_ATTRS:
        return attr_load(json_dict, type_by_name)
    if encoding == ENCODING_ENUM:
        return enum_load(json_dict, type_by_name)
    raise KeyError(encoding)
''')]),
dict(id='io-attr-load-loop', props=['C19'], edits=[(IO, '''    attrs = {
        key: value
        for key, value in json_dict.items()
        if key not in {CLASS_NAME, ENCODING}
    }
    return cls(**attrs)
''', '''    attrs = dict(json_dict)
    del attrs[CLASS_NAME]
    del attrs[ENCODING]
    return cls(**attrs)
''')]),
dict(id='io-path-open', props=['C19'], edits=[(IO, '''    with open(file_name) as f:
        return load(f)
''', '''    with open(file_name) as f:
        beads = load(f)
    return beads
''')]),
dict(id='cm-filter-early', props=['C16'], edits=[(CM, '''        if self.sources:
            sketch = web_sketch.set_sources(sketch, self.sources)
        if self.sinks:
            sketch = web_sketch.set_sinks(sketch, self.sinks)
        return sketch
''', '''        filtered = web_sketch.set_sources(sketch, self.sources) if self.sources else sketch
        if not self.sinks:
            return filtered
        return web_sketch.set_sinks(filtered, self.sinks)
''')]),
dict(id='cm-pop-names', props=['C16'], edits=[(CM, '''            if name in ('..', '/'):
                raise ValueError(f'Unexpected delimiter: {repr(name)} after {names}.')
            if not is_valid_name(name):
                raise ValueError(f'Malformed name: {repr(name)} after {names}.')
            names.add(name)
''', '''            if not is_valid_name(name):
                raise ValueError(f'Unexpected delimiter: {repr(name)} after {names}.')
            names |= {name}
''')]),
dict(id='cm-load-all', props=['C17'], edits=[(CM, '''        return Sketch.from_beads([Dummy.from_bead(bead) for bead in beads])
''', '''        dummies = list(map(Dummy.from_bead, beads))
        return Sketch.from_beads(dummies)
''')]),
]
