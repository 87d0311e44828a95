'''Refactorings all over, a second round.'''
WS, ZA, BX, BI, RF = 'bead/workspace.py', 'bead/ziparchive.py', 'bead/box.py', 'bead/box_index.py', 'bead/box_rawfs.py'
FS, TS, SH, PE, ZO, ME = 'bead/tech/fs.py', 'bead/tech/timestamp.py', 'bead/tech/securehash.py', 'bead/tech/persistence.py', 'bead/zipopener.py', 'bead/meta.py'
IN, CB, CO, EN, CW, BE = 'bead_cli/input.py', 'bead_cli/box.py', 'bead_cli/common.py', 'bead_cli/environment.py', 'bead_cli/workspace.py', 'bead/bead.py'

R = [
dict(id='r5-hash-walrus', props=['C01'], edits=[(SH, '''        while True:
            block = file.read(READ_BLOCK_SIZE)
            if not block:
                break
            bytes_read += len(block)
            hash.update(block)
''', '''        while block := file.read(READ_BLOCK_SIZE):
            hash.update(block)
            bytes_read += len(block)
''')]),
dict(id='r5-hash-affix', props=['C01'], edits=[(SH, '''    hash.update(f'{size}:'.encode('ascii'))
''', '''    prefix = str(size) + ':'
    hash.update(prefix.encode('ascii'))
''')]),
dict(id='r5-hash-eof-flag', props=['C01'], edits=[(SH, '''        while True:
            block = file.read(READ_BLOCK_SIZE)
            if not block:
                break
            bytes_read += len(block)
            hash.update(block)
''', '''        block = file.read(READ_BLOCK_SIZE)
        while block:
            bytes_read += len(block)
            hash.update(block)
            block = file.read(READ_BLOCK_SIZE)
''')]),
dict(id='r5-validate-loop', props=['C02', 'C05'], edits=[(ZA, '''        if not all(self._checks()):
            raise InvalidArchive
''', '''        for is_ok in self._checks():
            if not is_ok:
                raise InvalidArchive
''')]),
dict(id='r5-extra-file-prefixes', props=['C02', 'C05'], edits=[(ZA, '''        for name in self.zipfile.namelist():
            is_data = name.startswith(data_dir_prefix)
            is_code = name.startswith(code_dir_prefix)
            if is_data or is_code:
                if name not in manifest:
                    # unexpected extra file!
                    return name
''', '''        for name in self.zipfile.namelist():
            if not name.startswith((data_dir_prefix, code_dir_prefix)):
                continue
            if name not in manifest:
                return name
        return None
''')]),
dict(id='r5-content-id-helper', props=['C02', 'C05'], edits=[(ZA, '''            archived_hash = securehash.file(self.zipfile.open(info), info.file_size)
            if hash != archived_hash:
                return name
''', '''            if self._hash_of(info) != hash:
                return name

    def _hash_of(self, info):
        return securehash.file(self.zipfile.open(info), info.file_size)
''')]),
dict(id='r5-content-id-early', props=['C02', 'C12', 'C09'], edits=[(ZA, '''        if self._content_id is None:
            self._content_id = self.calculate_content_id()
        return self._content_id
''', '''        if self._content_id is not None:
            return self._content_id
        self._content_id = self.calculate_content_id()
        return self._content_id
''')]),
dict(id='r5-meta-keys', props=['C02'], edits=[(ZA, '''        meta = self.meta
        return all(key in meta for key in META_KEYS)
''', '''        return set(META_KEYS) <= set(self.meta)
''')]),
dict(id='r5-extract-with', props=['C04'], edits=[(ZA, '''        with self.zipfile.open(zip_path) as source:
            with open(fs_path, 'wb') as target:
                shutil.copyfileobj(source, target)
''', '''        with self.zipfile.open(zip_path) as source, open(fs_path, 'wb') as target:
            shutil.copyfileobj(source, target)
''')]),
dict(id='r5-extract-parent', props=['C04'], edits=[(ZA, '''        upperdirs = os.path.dirname(fs_path.as_posix())
        if upperdirs:
            tech.fs.ensure_directory(tech.fs.Path(upperdirs))
''', '''        tech.fs.ensure_directory(fs_path.parent)
''')]),
dict(id='r5-extract-inline', props=['C04'], edits=[(ZA, '''            fs_path = fs_dir / zip_path[zip_dir_prefix_len:]
            self.extract_file(zip_path, fs_path)
''', '''            relative_path = zip_path[zip_dir_prefix_len:]
            self.extract_file(zip_path, fs_dir / relative_path)
''')]),
dict(id='r5-extract-removeprefix', props=['C04'], edits=[(ZA, '''            fs_path = fs_dir / zip_path[zip_dir_prefix_len:]
            self.extract_file(zip_path, fs_path)
''', '''            self.extract_file(zip_path, fs_dir / zip_path.removeprefix(zip_dir_prefix))
''')]),
dict(id='r5-unpack-to', props=['C20', 'C04'], edits=[(BE, '''        self.unpack_code_to(workspace.directory)
        workspace.create_directories()
        self.unpack_meta_to(workspace)
''', '''        directory = workspace.directory
        self.unpack_code_to(directory)
        workspace.create_directories()
        self.unpack_meta_to(workspace)
''')]),
dict(id='r5-get-input-next', props=['C14', 'C06'], edits=[(BE, '''        for input in self.inputs:
            if name == input.name:
                return input
''', '''        return next((input for input in self.inputs if input.name == name), None)
''')]),
dict(id='r5-add-file-with', props=['C03', 'C23'], edits=[(WS, '''        self.zipfile.write(path, zip_path)
        self.add_hash(
            zip_path,
            securehash.file(open(path, 'rb'), os.path.getsize(path)))
''', '''        self.zipfile.write(path, zip_path)
        size = os.path.getsize(path)
        hash = securehash.file(open(path, 'rb'), size)
        self.add_hash(zip_path, hash)
''')]),
dict(id='r5-add-path-flipped', props=['C03', 'C23'], edits=[(WS, '''        if os.path.isdir(path):
            self.add_directory(path, zip_path)
        else:
            assert os.path.isfile(path), '%s is neither a file nor a directory' % path
            self.add_file(path, zip_path)
''', '''        if not os.path.isdir(path):
            assert os.path.isfile(path), '%s is neither a file nor a directory' % path
            self.add_file(path, zip_path)
            return
        self.add_directory(path, zip_path)
''')]),
dict(id='r5-add-directory-sorted', props=['C03'], edits=[(WS, '''        for f in os.listdir(path):
            self.add_path(path / f, f'{zip_path}/{f}')
''', '''        for f in sorted(os.listdir(path)):
            self.add_path(path / f, zip_path + '/' + f)
''')]),
dict(id='r5-add-code-filter', props=['C03'], edits=[(WS, '''        for f in sorted(os.listdir(source_directory)):
            if is_code(f):
                self.add_path(
                    source_directory / f,
                    f'{layouts.Archive.CODE}/{f}')
''', '''        for f in sorted(filter(is_code, os.listdir(source_directory))):
            self.add_path(
                source_directory / f,
                f'{layouts.Archive.CODE}/{f}')
''')]),
dict(id='r5-pack-flag', props=['C23'], edits=[(WS, '''        except (RuntimeError, Exception):
            if zipfilename.exists():
                zipfilename.unlink()
            raise
''', '''        except Exception:
            zipfilename.unlink(missing_ok=True)
            raise
''')]),
dict(id='r5-unload-helper', props=['C06', 'C21'], edits=[(WS, '''        assert self.has_input(input_nick)
        input_dir = self.directory / layouts.Workspace.INPUT
        fs.make_writable(input_dir)
        try:
            fs.rmtree(input_dir / input_nick)
        finally:
            fs.make_readonly(input_dir)
''', '''        assert self.has_input(input_nick)
        input_dir = self.directory / layouts.Workspace.INPUT
        self._remove_writable(input_dir, input_nick)

    def _remove_writable(self, directory, name):
        fs.make_writable(directory)
        try:
            fs.rmtree(directory / name)
        finally:
            fs.make_readonly(directory)
''')]),
dict(id='r5-delete-input-guard', props=['C06'], edits=[(WS, '''        m = self.meta
        del m[meta.INPUTS][input_nick]
        self.meta = m
''', '''        m = self.meta
        inputs = m[meta.INPUTS]
        del inputs[input_nick]
        self.meta = m
''')]),
dict(id='r5-inputs-list', props=['C06', 'C20'], edits=[(WS, '''        return tuple(meta.parse_inputs(self.meta))
''', '''        inputs = list(meta.parse_inputs(self.meta))
        return tuple(inputs)
''')]),
dict(id='r5-is-valid-loop', props=['C22'], edits=[(WS, '''        dir = self.directory
        return all(
            (
                (dir / layouts.Workspace.INPUT).is_dir(),
                (dir / layouts.Workspace.OUTPUT).is_dir(),
                (dir / layouts.Workspace.TEMP).is_dir(),
                (dir / layouts.Workspace.BEAD_META).is_file()))
''', '''        dir = self.directory
        for subdir in (layouts.Workspace.INPUT, layouts.Workspace.OUTPUT, layouts.Workspace.TEMP):
            if not (dir / subdir).is_dir():
                return False
        return (dir / layouts.Workspace.BEAD_META).is_file()
''')]),
dict(id='r5-cwd-parents', props=['C22'], edits=[(WS, '''        while not ws.is_valid:
            parent = ws.directory.parent
            if parent == ws.directory:
                return cwd
            ws = cls(parent)
        return ws
''', '''        for directory in (cwd.directory, *cwd.directory.parents):
            ws = cls(directory)
            if ws.is_valid:
                return ws
        return cwd
''')]),
dict(id='r5-match-generator', props=['C07'], edits=[(RF, '''        for check in checkers:
            if not check(bead):
                return False
        return True
''', '''        return not any(not check(bead) for check in checkers)
''')]),
dict(id='r5-rawfs-paths-if', props=['C07'], edits=[(RF, '''        for archive in self._archives_from(paths, box_name):
            if match(archive):
                bead = self._bead_from_archive(archive)
                beads.append(bead)
        return beads
''', '''        for archive in self._archives_from(paths, box_name):
            if not match(archive):
                continue
            beads.append(self._bead_from_archive(archive))
        return beads
''')]),
dict(id='r5-rawfs-cache-get', props=['C12', 'C09'], edits=[(RF, '''        if key in self._path_cache:
            return self._path_cache[key]
''', '''        cached_path = self._path_cache.get(key)
        if cached_path is not None:
            return cached_path
''')]),
dict(id='r5-rawfs-glob-gen', props=['C07', 'C12'], edits=[(RF, '''        for path in self.box_directory.glob('*.zip'):
            if path.name.startswith(bead_name):
                yield path
''', '''        paths = self.box_directory.glob('*.zip')
        return (path for path in paths if path.name.startswith(bead_name))
''')]),
dict(id='r5-newest-sorted', props=['C08'], edits=[(BX, '''        return max(beads, key=lambda b: b.freeze_time)
''', '''        return sorted(beads, key=lambda b: b.freeze_time)[-1]
''')]),
dict(id='r5-newest-loop', props=['C08'], edits=[(BX, '''        return max(beads, key=lambda b: b.freeze_time)
''', '''        newest = beads[0]
        for bead in beads[1:]:
            if bead.freeze_time > newest.freeze_time:
                newest = bead
        return newest
''')]),
dict(id='r5-newest-none', props=['C08'], edits=[(BX, '''        return max(beads, key=lambda b: b.freeze_time)
''', '''        newest = None
        for bead in beads:
            if newest is None or bead.freeze_time > newest.freeze_time:
                newest = bead
        return newest
''')]),
dict(id='r5-older-negative', props=['C08'], edits=[(BX, '''        sorted_beads = sorted(beads, key=lambda b: b.freeze_time, reverse=True)
        if n >= len(sorted_beads):
            raise LookupError(f"Not enough beads found (requested index {n}, found {len(sorted_beads)})")
        return sorted_beads[n]
''', '''        count = len(beads)
        if n >= count:
            raise LookupError(f"Not enough beads found (requested index {n}, found {count})")
        return sorted(beads, key=lambda b: b.freeze_time, reverse=True)[n]
''')]),
dict(id='r5-multi-chain', props=['C08'], edits=[(BX, '''        all_beads = []
        for box in self.boxes:
            beads = box.get_beads(self.conditions)
            all_beads.extend(beads)

        return self._apply_unique_filter(all_beads)
''', '''        all_beads = []
        for box in self.boxes:
            for bead in box.get_beads(self.conditions):
                all_beads.append(bead)
        return self._apply_unique_filter(all_beads)
''')]),
dict(id='r5-unique-setdefault', props=['C08'], edits=[(BX, '''        seen_content_ids = set()
        unique_beads = []
        for bead in beads:
            if bead.content_id not in seen_content_ids:
                seen_content_ids.add(bead.content_id)
                unique_beads.append(bead)
        return unique_beads
''', '''        seen = set()
        unique_beads = []
        for bead in beads:
            content_id = bead.content_id
            if content_id in seen:
                continue
            unique_beads.append(bead)
            seen.add(content_id)
        return unique_beads
''')]),
dict(id='r5-condition-helper', props=['C08', 'C07'], edits=[(BX, '''        if isinstance(timestamp, str):
            timestamp = time_from_timestamp(timestamp)
        self.conditions.append((QueryCondition.NEWER_THAN, timestamp))
        return self
''', '''        return self._time_condition(QueryCondition.NEWER_THAN, timestamp)

    def _time_condition(self, condition, timestamp):
        if isinstance(timestamp, str):
            timestamp = time_from_timestamp(timestamp)
        self.conditions += [(condition, timestamp)]
        return self
''')]),
dict(id='r5-resolver-choice', props=['C09', 'C12'], edits=[(BX, '''        if index_path_exists(self.directory):
            if can_read_index(self.directory):
                return BoxIndex(self.directory)
            else:
                return NullResolver()
        else:
            return RawFilesystemResolver(self.directory)
''', '''        directory = self.directory
        if not index_path_exists(directory):
            return RawFilesystemResolver(directory)
        return BoxIndex(directory) if can_read_index(directory) else NullResolver()
''')]),
dict(id='r5-box-resolve-match', props=['C12'], edits=[(BX, '''        if (archive.name != bead.name or
            archive.content_id != bead.content_id or
            archive.box_name != bead.box_name):
            raise ValueError(
''', '''        is_match = (
            archive.name == bead.name
            and archive.content_id == bead.content_id
            and archive.box_name == bead.box_name)
        if not is_match:
            raise ValueError(
''')]),
dict(id='r5-store-name', props=['C12', 'C23'], edits=[(BX, '''        zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
''', '''        archive_name = f'{workspace.name}_{freeze_time}.zip'
        zipfilename = self.directory / archive_name
''')]),
dict(id='r5-where-join', props=['C09'], edits=[(BI, '''    if where_parts:
        sql += ' WHERE ' + ' AND '.join(where_parts)
    sql += ' ORDER BY freeze_time_unix'
''', '''    where = ' AND '.join(where_parts)
    if where:
        sql = f'{sql} WHERE {where}'
    sql = f'{sql} ORDER BY freeze_time_unix'
''')]),
dict(id='r5-query-cursor', props=['C09'], edits=[(BI, '''    for row in cursor.fetchall():
        name, content_id, kind, freeze_time_str, file_path = row
        
''', '''    for name, content_id, kind, freeze_time_str, _file_path in cursor:
''')]),
dict(id='r5-sync-sets', props=['C10'], edits=[(BI, '''            current_files = set()
            for archive_path in self.box_directory.glob('*.zip'):
                relative_path = archive_path.relative_to(self.box_directory)
                current_files.add(str(relative_path))
                
                # Add new files to index
                if str(relative_path) not in indexed_files:
                    self.index_archive_file(archive_path)
''', '''            current_files = {
                str(archive_path.relative_to(self.box_directory))
                for archive_path in self.box_directory.glob('*.zip')}

            # Add new files to index
            for file_path in current_files - indexed_files:
                self.index_archive_file(self.box_directory / file_path)
''')]),
dict(id='r5-sync-orphans', props=['C10'], edits=[(BI, '''            orphaned_files = indexed_files - current_files
            for file_path in orphaned_files:
                orphaned_archive_path = self.box_directory / file_path
                self.unindex_archive_file(orphaned_archive_path)
''', '''            for file_path in indexed_files:
                if file_path not in current_files:
                    self.unindex_archive_file(self.box_directory / file_path)
''')]),
dict(id='r5-index-steps', props=['C10', 'C24'], edits=[(BI, '''            archive = ZipArchive(archive_path, box_name='')
            archive.validate()
            
            relative_path = archive_path.relative_to(self.box_directory)
''', '''            relative_path = archive_path.relative_to(self.box_directory)
            archive = ZipArchive(archive_path, box_name='')
            archive.validate()
''')]),
dict(id='r5-index-inputs-first', props=['C10', 'C24'], edits=[(BI, '''                insert_bead_record(conn, archive, relative_path)
                delete_bead_inputs(conn, archive.name, archive.content_id)
''', '''                delete_bead_inputs(conn, archive.name, archive.content_id)
                insert_bead_record(conn, archive, relative_path)
''')]),
dict(id='r5-find-path-early', props=['C09'], edits=[(BI, '''    row = cursor.fetchone()
    return row[0] if row else None
''', '''    row = cursor.fetchone()
    if row is None:
        return None
    (file_path,) = row
    return file_path
''')]),
dict(id='r5-file-dump-with', props=['C24'], edits=[(PE, '''    except BaseException:
        if os.path.exists(temp_path):
            os.remove(temp_path)
        raise
''', '''    except BaseException:
        temp_exists = os.path.exists(temp_path)
        if temp_exists:
            os.remove(temp_path)
        raise
''')]),
dict(id='r5-fs-write-open', props=['C06', 'C24'], edits=[(FS, '''    if isinstance(content, bytes):
        path.write_bytes(content)
    else:
        path.write_text(content, encoding='utf-8')
''', '''    if not isinstance(content, bytes):
        content = content.encode('utf-8')
    path.write_bytes(content)
''')]),
dict(id='r5-fs-mode-local', props=['C21', 'C06'], edits=[(FS, '''    mode = os.stat(path)[stat.ST_MODE]
    os.chmod(path, mode | stat.S_IWRITE)
''', '''    mode = os.stat(path).st_mode
    writable = mode | stat.S_IWUSR
    os.chmod(path, writable)
''')]),
dict(id='r5-fs-ensure', props=['C04', 'C06'], edits=[(FS, '''    if not os.path.exists(path):
        os.makedirs(path)

    assert os.path.isdir(path)
''', '''    if os.path.exists(path):
        assert os.path.isdir(path)
        return
    os.makedirs(path)
    assert os.path.isdir(path)
''')]),
dict(id='r5-ts-v-inline', props=['C11'], edits=[(TS, '''            tzoffset = (
                (-1 if values.get('tzsign', '+') == '-' else 1)
                *
                (v('tzhour', 0) * 60 + v('tzmin', 0)))
''', '''            tzoffset = v('tzhour', 0) * 60 + v('tzmin', 0)
            if values.get('tzsign', '+') == '-':
                tzoffset = -tzoffset
''')]),
dict(id='r5-ts-iso-list', props=['C11'], edits=[(TS, '''    for parse in _ISO8601_PARSERS:
        parsed = parse(timeish)
        if parsed is not None:
            return parsed
    raise ValueError('Time is not in a recognised iso-8601 format', timeish)
''', '''    for parse in _ISO8601_PARSERS:
        parsed = parse(timeish)
        if parsed is None:
            continue
        return parsed
    raise ValueError('Time is not in a recognised iso-8601 format', timeish)
''')]),
dict(id='r5-ts-now', props=['C11'], edits=[(TS, '''    return datetime.now(timezone.utc).astimezone().strftime('%Y%m%dT%H%M%S%f%z')
''', '''    now = datetime.now(timezone.utc)
    local_now = now.astimezone()
    return local_now.strftime('%Y%m%dT%H%M%S%f%z')
''')]),
dict(id='r5-zo-helper', props=['C15'], edits=[(ZO, '''        if filename not in self.open_zip_files:
            if len(self.open_zip_files) == self.max_size:
                self.close(self.least_recently_used_filename)
            self.open_zip_files[filename] = ZipFile(filename)

        self.access(filename)
''', '''        if filename not in self.open_zip_files:
            self._make_room()
            self.open_zip_files[filename] = ZipFile(filename)

        self.access(filename)
'''), (ZO, '''    @property
    def least_recently_used_filename(self):
''', '''    def _make_room(self):
        if len(self.open_zip_files) >= self.max_size:
            self.close(self.least_recently_used_filename)

    @property
    def least_recently_used_filename(self):
''')]),
dict(id='r5-zo-min-get', props=['C15'], edits=[(ZO, '''        least_recently_used_filename, _ = sorted(self.access_times.items(), key=access_time)[0]
''', '''        least_recently_used_filename, _ = min(self.access_times.items(), key=access_time)
''')]),
dict(id='r5-cli-load-for-else', props=['C14', 'C05', 'C06'], edits=[(IN, '''        archive = None
        for box in env.get_boxes():
            # Only try to find by exact content_id match
            try:
                bead = box.search().by_content_id(content_id).first()
                archive = box.resolve(bead)
                break
            except LookupError:
                continue
        if archive is None:
            warning(f'Could not find bead for input "{input.name}" - not loaded!')
            return
        _check_load_with_feedback(workspace, input.name, archive)
''', '''        for box in env.get_boxes():
            try:
                bead = box.search().by_content_id(content_id).first()
                archive = box.resolve(bead)
            except LookupError:
                continue
            break
        else:
            warning(f'Could not find bead for input "{input.name}" - not loaded!')
            return
        _check_load_with_feedback(workspace, input.name, archive)
''')]),
dict(id='r5-cli-load-early', props=['C14', 'C05', 'C06'], edits=[(IN, '''    assert input is not None
    if not workspace.is_loaded(input.name):
        content_id = input.content_id
''', '''    assert input is not None
    is_loaded = workspace.is_loaded(input.name)
    if not is_loaded:
        content_id = input.content_id
''')]),
dict(id='r5-cli-check-split', props=['C05', 'C06'], edits=[(IN, '''        warning(f'Bead for {input_nick} is found but damaged - not loading.')
    else:
        if workspace.is_loaded(input_nick):
            print(f'Removing current data from {input_nick}')
            workspace.unload(input_nick)
        print(f'Loading new data to {input_nick} ...', end='', flush=True)
        workspace.load(input_nick, archive)
        print(' Done')
''', '''        warning(f'Bead for {input_nick} is found but damaged - not loading.')
        return
    _replace_input(workspace, input_nick, archive)


def _replace_input(workspace, input_nick, archive):
    if workspace.is_loaded(input_nick):
        print(f'Removing current data from {input_nick}')
        workspace.unload(input_nick)
    print(f'Loading new data to {input_nick} ...', end='', flush=True)
    workspace.load(input_nick, archive)
    print(' Done')
''')]),
dict(id='r5-cli-update-offset', props=['C14'], edits=[(IN, '''                if args.bead_offset:
                    # handle --prev --next - use kind instead of bead name
                    query = search(boxes).by_kind(input.kind)
                    if args.bead_offset == 1:
                        bead = query.newer_than(input.freeze_time).oldest()  # next = oldest of newer beads
                    else:
                        bead = query.older_than(input.freeze_time).newest()  # prev = newest of older beads
                else:
                    # --time - use kind instead of bead name
                    bead = search(boxes).by_kind(input.kind).at_or_older(args.bead_time).newest()
''', '''                query = search(boxes).by_kind(input.kind)
                if not args.bead_offset:
                    bead = query.at_or_older(args.bead_time).newest()
                elif args.bead_offset == 1:
                    bead = query.newer_than(input.freeze_time).oldest()
                else:
                    bead = query.older_than(input.freeze_time).newest()
''')]),
dict(id='r5-cli-update-all', props=['C14'], edits=[(IN, '''            else:
                _update_input(workspace, input, archive)
        print('All inputs are up to date.')
''', '''                continue
            _update_input(workspace, input, archive)
        print('All inputs are up to date.')
''')]),
dict(id='r5-cli-update-boxes', props=['C14'], edits=[(IN, '''        workspace = get_workspace(args)
        for input in workspace.inputs:
            try:
                bead = search(env.get_boxes()).by_kind(input.kind).at_or_older(args.bead_time).newest()
                # Resolve bead to archive for _update_input
                archive = resolve(env.get_boxes(), bead)
''', '''        workspace = get_workspace(args)
        boxes = env.get_boxes()
        for input in workspace.inputs:
            try:
                query = search(boxes).by_kind(input.kind)
                bead = query.at_or_older(args.bead_time).newest()
                archive = resolve(boxes, bead)
''')]),
dict(id='r5-cli-unload-all', props=['C06'], edits=[(IN, '''            for input in workspace.inputs:
                _unload(workspace, input.name)
        else:
            _unload(workspace, input_nick)
''', '''            input_nicks = [input.name for input in workspace.inputs]
        else:
            input_nicks = [input_nick]
        for nick in input_nicks:
            _unload(workspace, nick)
''')]),
dict(id='r5-cli-resolve-bead', props=['C14'], edits=[(CO, '''    boxes = env.get_boxes()
    bead = bead_box.search(boxes).by_name(bead_ref_base).at_or_older(time).newest()
    return bead_box.resolve(boxes, bead)
''', '''    boxes = env.get_boxes()
    query = bead_box.search(boxes)
    query = query.at_or_older(time).by_name(bead_ref_base)
    return bead_box.resolve(boxes, query.newest())
''')]),
dict(id='r5-cli-verify-else', props=['C05'], edits=[(CO, '''    try:
        archive.validate()
        print(' OK', flush=True)
    except InvalidArchive:
        print(' DAMAGED!', flush=True)
        raise
''', '''    try:
        archive.validate()
    except InvalidArchive:
        print(' DAMAGED!', flush=True)
        raise
    else:
        print(' OK', flush=True)
''')]),
dict(id='r5-cli-edit-order', props=['C05', 'C14', 'C20'], edits=[(CW, '''        if args.workspace is DERIVE_FROM_BEAD_NAME:
            workspace = Workspace(bead.name)
        else:
            workspace = args.workspace
''', '''        workspace = Workspace(bead.name) if args.workspace is DERIVE_FROM_BEAD_NAME else args.workspace
''')]),
dict(id='r5-cli-edit-review', props=['C05', 'C04'], edits=[(CW, '''            output_directory = workspace.directory / layouts.Workspace.OUTPUT
            bead.unpack_data_to(output_directory)
''', '''            bead.unpack_data_to(workspace.directory / layouts.Workspace.OUTPUT)
''')]),
dict(id='r5-cli-discard', props=['C21'], edits=[(CW, '''        if not args.force:
            assert_valid_workspace(workspace)
        directory = workspace.directory
        # on non-posix systems (Windows) it might happen, that we can not remove
        # the directory we are in -> ignore errors
        tech.fs.rmtree(directory, ignore_errors=os.name != 'posix')
''', '''        force = args.force
        directory = workspace.directory
        if not force:
            assert_valid_workspace(workspace)
        ignore_errors = os.name != 'posix'
        tech.fs.rmtree(directory, ignore_errors=ignore_errors)
''')]),
dict(id='r5-cli-save-box', props=['C13', 'C12'], edits=[(CW, '''            box = env.get_box(box_name)
            if box is None:
                die(f'Unknown box: {box_name}')
''', '''            if not env.is_known_box(box_name):
                die(f'Unknown box: {box_name}')
            box = env.get_box(box_name)
''')]),
dict(id='r5-cli-box-add', props=['C13'], edits=[(CB, '''        location = directory.resolve()
        try:
            env.add_box(name, location)
            env.save()
            print(f'Will remember box {name}')
        except ValueError as e:
            print('ERROR:', *e.args)
            print('Check the parameters: both name and directory must be unique!')
''', '''        location = directory.resolve()

        try:
            env.add_box(name, location)
        except ValueError as e:
            print('ERROR:', *e.args)
            print('Check the parameters: both name and directory must be unique!')
            return
        env.save()
        print(f'Will remember box {name}')
''')]),
dict(id='r5-cli-forget', props=['C13'], edits=[(CB, '''        if env.is_known_box(name):
            env.forget_box(name)
            env.save()
            print(f'Box "{name}" is forgotten')
        else:
            print(f'WARNING: no box defined with "{name}"')
''', '''        if not env.is_known_box(name):
            print(f'WARNING: no box defined with "{name}"')
            return
        env.forget_box(name)
        env.save()
        print(f'Box "{name}" is forgotten')
''')]),
dict(id='r5-env-add-two', props=['C13'], edits=[(EN, '''        for box in boxes:
            if box.name == name:
                raise ValueError(f'Box with name {name} already exists')
            if box.location == directory:
                raise ValueError(
                    f'Box with location {box.location} already exists')

        self.set_boxes(boxes + [Box(name, directory)])
''', '''        self._check_unused(boxes, name, directory)
        boxes.append(Box(name, directory))
        self.set_boxes(boxes)

    def _check_unused(self, boxes, name, directory):
        for box in boxes:
            if box.name == name:
                raise ValueError(f'Box with name {name} already exists')
            if box.location == directory:
                raise ValueError(
                    f'Box with location {box.location} already exists')
''')]),
dict(id='r5-env-forget-filter', props=['C13'], edits=[(EN, '''        self.set_boxes(
            box
            for box in self.get_boxes()
            if box.name != name)
''', '''        boxes_to_keep = [box for box in self.get_boxes() if box.name != name]
        self.set_boxes(boxes_to_keep)
''')]),
dict(id='r5-env-set-loop', props=['C13'], edits=[(EN, '''        self._content[ENV_BOXES] = [
            {
                BOX_NAME: box.name,
                BOX_LOCATION: box.location.as_posix()
            }
            for box in boxes]
''', '''        specs = []
        for box in boxes:
            specs.append({BOX_NAME: box.name, BOX_LOCATION: box.location.as_posix()})
        self._content[ENV_BOXES] = specs
''')]),
dict(id='r5-meta-wellformed', props=['C12', 'C06'], edits=[(ME, '''        return string not in ('', '.', '..') and '/' not in string and '__' not in string
''', '''        if string in ('', '.', '..'):
            return False
        return '/' not in string and '__' not in string
''')]),
dict(id='r5-meta-parse-list', props=['C20', 'C06'], edits=[(ME, '''    for name in inputs:
        spec = inputs[name]
        yield InputSpec(
            name,
            spec[INPUT_KIND],
            spec[INPUT_CONTENT_ID],
            spec[INPUT_FREEZE_TIME])
''', '''    for name in inputs:
        spec = inputs[name]
        yield InputSpec(
            name=name,
            kind=spec[INPUT_KIND],
            content_id=spec[INPUT_CONTENT_ID],
            freeze_time_str=spec[INPUT_FREEZE_TIME])
''')]),
]
