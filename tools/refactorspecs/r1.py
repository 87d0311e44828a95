R = [
dict(id='securehash-helper', props=['C01', 'C02'], edits=[('bead/tech/securehash.py', '''    bytes_read = 0

    with file:
        while True:
            block = file.read(READ_BLOCK_SIZE)
            if not block:
                break
            bytes_read += len(block)
            hash.update(block)

    assert bytes_read == file_size
''', '''    with file:
        total = _update_from(hash, file)

    assert total == file_size
'''), ('bead/tech/securehash.py', '''def file(file, file_size):
''', '''def _update_from(hash, stream):
    count = 0
    block = stream.read(READ_BLOCK_SIZE)
    while block:
        hash.update(block)
        count += len(block)
        block = stream.read(READ_BLOCK_SIZE)
    return count


def file(file, file_size):
''')]),
dict(id='securehash-iter', props=['C01'], edits=[('bead/tech/securehash.py', '''        while True:
            block = file.read(READ_BLOCK_SIZE)
            if not block:
                break
            bytes_read += len(block)
            hash.update(block)
''', '''        for block in iter(lambda: file.read(READ_BLOCK_SIZE), b''):
            bytes_read += len(block)
            hash.update(block)
''')]),
dict(id='securehash-framing', props=['C01'], edits=[('bead/tech/securehash.py', '''    hash.update(f'{size}:'.encode('ascii'))
''', '''    prefix = str(size) + ':'
    hash.update(prefix.encode('utf-8'))
''')]),
dict(id='checks-loop', props=['C02', 'C05'], edits=[('bead/ziparchive.py', '''        if not all(self._checks()):
            raise InvalidArchive
''', '''        for ok in self._checks():
            if not ok:
                raise InvalidArchive(self.archive_filename)
''')]),
dict(id='checks-direct', props=['C02'], edits=[('bead/ziparchive.py', '''        yield self._has_well_formed_meta()
        yield self._bead_creation_time_is_in_the_past()
        yield self._extra_file() is None
        yield self._file_with_different_content_id() is None
''', '''        checks = (
            self._has_well_formed_meta,
            self._bead_creation_time_is_in_the_past,
            lambda: self._extra_file() is None,
            lambda: self._file_with_different_content_id() is None)
        for check in checks:
            yield check()
''')]),
dict(id='extra-file-helper', props=['C02'], edits=[('bead/ziparchive.py', '''        data_dir_prefix = layouts.Archive.DATA + '/'
        code_dir_prefix = layouts.Archive.CODE + '/'
        manifest = self.manifest
        # check that there are no extra files
        for name in self.zipfile.namelist():
            is_data = name.startswith(data_dir_prefix)
            is_code = name.startswith(code_dir_prefix)
            if is_data or is_code:
                if name not in manifest:
                    # unexpected extra file!
                    return name
''', '''        prefixes = (layouts.Archive.DATA + '/', layouts.Archive.CODE + '/')
        manifest = self.manifest
        # check that there are no extra files
        extra = [
            name
            for name in self.zipfile.namelist()
            if name.startswith(prefixes) and name not in manifest]
        return extra[0] if extra else None
''')]),
dict(id='different-content-reorder', props=['C02'], edits=[('bead/ziparchive.py', '''        for name, hash in self.manifest.items():
            try:
                info = self.zipfile.getinfo(name)
            except KeyError:
                return name
            archived_hash = securehash.file(self.zipfile.open(info), info.file_size)
            if hash != archived_hash:
                return name
''', '''        zip_file = self.zipfile
        for name, expected in self.manifest.items():
            if not self._has_content(zip_file, name, expected):
                return name
        return None

    def _has_content(self, zip_file, name, expected):
        try:
            info = zip_file.getinfo(name)
        except KeyError:
            return False
        return securehash.file(zip_file.open(info), info.file_size) == expected
''')]),
dict(id='is-code-listcomp', props=['C03', 'C23', 'C20'], edits=[('bead/workspace.py', '''        def is_code(f):
            return f not in {
                layouts.Workspace.INPUT.as_posix(),
                layouts.Workspace.OUTPUT.as_posix(),
                layouts.Workspace.META.as_posix(),
                layouts.Workspace.TEMP.as_posix()}

        for f in sorted(os.listdir(source_directory)):
            if is_code(f):
                self.add_path(
                    source_directory / f,
                    f'{layouts.Archive.CODE}/{f}')
''', '''        special = {
            path.as_posix()
            for path in (
                layouts.Workspace.INPUT,
                layouts.Workspace.OUTPUT,
                layouts.Workspace.META,
                layouts.Workspace.TEMP)}

        for name in sorted(os.listdir(source_directory)):
            if name in special:
                continue
            self.add_path(source_directory / name, layouts.Archive.CODE + '/' + name)
''')]),
dict(id='add-file-order', props=['C03', 'C23'], edits=[('bead/workspace.py', '''        self.zipfile.write(path, zip_path)
        self.add_hash(
            zip_path,
            securehash.file(open(path, 'rb'), os.path.getsize(path)))
''', '''        size = os.path.getsize(path)
        content_hash = securehash.file(open(path, 'rb'), size)
        self.zipfile.write(path, zip_path)
        self.add_hash(zip_path, content_hash)
''')]),
dict(id='add-path-inline', props=['C03', 'C23'], edits=[('bead/workspace.py', '''        for f in os.listdir(path):
            self.add_path(path / f, f'{zip_path}/{f}')
''', '''        for f in sorted(os.listdir(path)):
            child = path / f
            child_zip_path = '/'.join((zip_path, f))
            if os.path.isdir(child):
                self.add_directory(child, child_zip_path)
            else:
                self.add_path(child, child_zip_path)
''')]),
dict(id='extract-helper', props=['C04', 'C06', 'C05'], edits=[('bead/ziparchive.py', '''        with self.zipfile.open(zip_path) as source:
            with open(fs_path, 'wb') as target:
                shutil.copyfileobj(source, target)
''', '''        with self.zipfile.open(zip_path) as source, open(fs_path, 'wb') as target:
            shutil.copyfileobj(source, target)
''')]),
dict(id='extract-dir-helper', props=['C04', 'C05', 'C06'], edits=[('bead/ziparchive.py', '''        for zip_path in zip_paths:
            relative_path = os.path.normpath(zip_path[zip_dir_prefix_len:])
            if os.path.isabs(relative_path) or relative_path.split(os.path.sep)[0] == os.path.pardir:
                raise InvalidArchive(self.archive_filename)

''', '''        if any(self._is_outside(zip_path[zip_dir_prefix_len:]) for zip_path in zip_paths):
            raise InvalidArchive(self.archive_filename)

'''), ('bead/ziparchive.py', '''    def unpack_code_to(self, fs_dir):
''', '''    @staticmethod
    def _is_outside(path):
        normalized = os.path.normpath(path)
        return os.path.isabs(normalized) or normalized.split(os.path.sep)[0] == os.path.pardir

    def unpack_code_to(self, fs_dir):
''')]),
dict(id='input-cmd-early-return', props=['C05', 'C14'], edits=[('bead_cli/input.py', '''    try:
        verify_with_feedback(archive)
    except InvalidArchive:
        warning(f'Bead for {input_nick} is found but damaged - not loading.')
    else:
        if workspace.is_loaded(input_nick):
            print(f'Removing current data from {input_nick}')
            workspace.unload(input_nick)
        print(f'Loading new data to {input_nick} ...', end='', flush=True)
        workspace.load(input_nick, archive)
        print(' Done')
''', '''    try:
        verify_with_feedback(archive)
    except InvalidArchive:
        warning(f'Bead for {input_nick} is found but damaged - not loading.')
        return
    if workspace.is_loaded(input_nick):
        print(f'Removing current data from {input_nick}')
        workspace.unload(input_nick)
    print(f'Loading new data to {input_nick} ...', end='', flush=True)
    workspace.load(input_nick, archive)
    print(' Done')
''')]),
dict(id='load-find-helper', props=['C05', 'C14'], edits=[('bead_cli/input.py', '''        content_id = input.content_id
        archive = None
        for box in env.get_boxes():
            # Only try to find by exact content_id match
            try:
                bead = box.search().by_content_id(content_id).first()
                archive = box.resolve(bead)
                break
            except LookupError:
                continue
        if archive is None:
''', '''        archive = _find_by_content_id(env.get_boxes(), input.content_id)
        if archive is None:
'''), ('bead_cli/input.py', '''def _load(env, workspace, input):
''', '''def _find_by_content_id(boxes, content_id):
    for box in boxes:
        try:
            return box.resolve(box.search().by_content_id(content_id).first())
        except LookupError:
            pass
    return None


def _load(env, workspace, input):
''')]),
dict(id='update-query-helper', props=['C14', 'C05'], edits=[('bead_cli/input.py', '''                if args.bead_offset:
                    # handle --prev --next - use kind instead of bead name
                    query = search(boxes).by_kind(input.kind)
                    if args.bead_offset == 1:
                        bead = query.newer_than(input.freeze_time).oldest()  # next = oldest of newer beads
                    else:
                        bead = query.older_than(input.freeze_time).newest()  # prev = newest of older beads
                else:
                    # --time - use kind instead of bead name
                    bead = search(boxes).by_kind(input.kind).at_or_older(args.bead_time).newest()
''', '''                query = search(boxes).by_kind(input.kind)
                if args.bead_offset == 1:
                    bead = query.newer_than(input.freeze_time).oldest()
                elif args.bead_offset:
                    bead = query.older_than(input.freeze_time).newest()
                else:
                    bead = query.at_or_older(args.bead_time).newest()
''')]),
dict(id='load-steps', props=['C06', 'C05'], edits=[('bead/workspace.py', '''        input_dir = self.directory / layouts.Workspace.INPUT
        fs.make_writable(input_dir)
        try:
            self.add_input(
                input_nick,
                archive.kind, archive.content_id, archive.freeze_time_str)
            destination_dir = input_dir / input_nick
            archive.unpack_data_to(destination_dir)
            for f in fs.all_subpaths(destination_dir):
                fs.make_readonly(f)
        finally:
            fs.make_readonly(input_dir)
''', '''        input_dir = self.directory / layouts.Workspace.INPUT
        destination_dir = input_dir / input_nick
        fs.make_writable(input_dir)
        try:
            self.add_input(input_nick, archive.kind, archive.content_id, archive.freeze_time_str)
            archive.unpack_data_to(destination_dir)
            self._protect(destination_dir)
        finally:
            fs.make_readonly(input_dir)

    def _protect(self, directory):
        for path in fs.all_subpaths(directory):
            fs.make_readonly(path)
''')]),
dict(id='input-dir-property', props=['C06'], edits=[('bead/workspace.py', '''        assert self.has_input(input_nick)
        input_dir = self.directory / layouts.Workspace.INPUT
        fs.make_writable(input_dir)
        try:
            fs.rmtree(input_dir / input_nick)
        finally:
            fs.make_readonly(input_dir)
''', '''        assert self.has_input(input_nick)
        input_dir = self._input_dir
        fs.make_writable(input_dir)
        try:
            fs.rmtree(input_dir / input_nick)
        finally:
            fs.make_readonly(input_dir)

    @property
    def _input_dir(self):
        return self.directory / layouts.Workspace.INPUT
''')]),
dict(id='rawfs-match-all', props=['C07', 'C08', 'C09'], edits=[('bead/box_rawfs.py', '''    def match(bead):
        for check in checkers:
            if not check(bead):
                return False
        return True
    return match
''', '''    def match(bead):
        return all(check(bead) for check in checkers)
    return match
''')]),
dict(id='rawfs-listcomp', props=['C07', 'C12'], edits=[('bead/box_rawfs.py', '''        beads = []
        for archive in self._archives_from(paths, box_name):
            if match(archive):
                bead = self._bead_from_archive(archive)
                beads.append(bead)
        return beads
''', '''        return [
            self._bead_from_archive(archive)
            for archive in self._archives_from(paths, box_name)
            if match(archive)]
''')]),
dict(id='rawfs-operators', props=['C07'], edits=[('bead/box_rawfs.py', '''    QueryCondition.NEWER_THAN: lambda timestamp: lambda bead: bead.freeze_time > timestamp,
    QueryCondition.OLDER_THAN: lambda timestamp: lambda bead: bead.freeze_time < timestamp,
''', '''    QueryCondition.NEWER_THAN: lambda timestamp: lambda bead: timestamp < bead.freeze_time,
    QueryCondition.OLDER_THAN: lambda timestamp: lambda bead: not bead.freeze_time >= timestamp,
''')]),
dict(id='rawfs-names-paths', props=['C07', 'C12'], edits=[('bead/box_rawfs.py', '''        bead_names = {
            value
            for tag, value in conditions
            if tag == QueryCondition.BEAD_NAME}
        if bead_names:
            if len(bead_names) > 1:
                return []
            paths = self._glob_bead_files(bead_names.pop())
        else:
            paths = self._glob_bead_files()
''', '''        paths = self._glob_bead_files()
''')]),
]
