'''Refactorings of workspace, fs, timestamp, meta, environment, persistence, zipopener.'''
WS = 'bead/workspace.py'
FS = 'bead/tech/fs.py'
TS = 'bead/tech/timestamp.py'
ENV = 'bead_cli/environment.py'
ZO = 'bead/zipopener.py'
META = 'bead/meta.py'

R = [
dict(id='ws-is-valid-and', props=['C22', 'C03'], edits=[(WS, '''        return all(
            (
                (dir / layouts.Workspace.INPUT).is_dir(),
                (dir / layouts.Workspace.OUTPUT).is_dir(),
                (dir / layouts.Workspace.TEMP).is_dir(),
                (dir / layouts.Workspace.BEAD_META).is_file()))
''', '''        directories = (layouts.Workspace.INPUT, layouts.Workspace.OUTPUT, layouts.Workspace.TEMP)
        if not (dir / layouts.Workspace.BEAD_META).is_file():
            return False
        return all((dir / subdir).is_dir() for subdir in directories)
''')]),
dict(id='ws-cwd-loop', props=['C22'], edits=[(WS, '''        cwd = cls(os.getcwd())
        ws = cwd
        while not ws.is_valid:
            parent = ws.directory.parent
            if parent == ws.directory:
                return cwd
            ws = cls(parent)
        return ws
''', '''        cwd = cls(os.getcwd())
        for directory in (cwd.directory, *cwd.directory.parents):
            ws = cls(directory)
            if ws.is_valid:
                return ws
        return cwd
''')]),
dict(id='ws-cwd-true', props=['C22'], edits=[(WS, '''        ws = cwd
        while not ws.is_valid:
            parent = ws.directory.parent
            if parent == ws.directory:
                return cwd
            ws = cls(parent)
        return ws
''', '''        candidate = cwd
        while True:
            if candidate.is_valid:
                return candidate
            parent = candidate.directory.parent
            if parent == candidate.directory:
                break
            candidate = cls(parent)
        return cwd
''')]),
dict(id='ws-pack-temp', props=['C23', 'C03', 'C24'], edits=[(WS, '''        except (RuntimeError, Exception):
            if zipfilename.exists():
                zipfilename.unlink()
            raise
''', '''        except Exception:
            zipfilename.unlink(missing_ok=True)
            raise
''')]),
dict(id='ws-pack-done', props=['C23'], edits=[(WS, '''        try:
            _ZipCreator().create(zipfilename, self, freeze_time, comment)
        except (RuntimeError, Exception):
            if zipfilename.exists():
                zipfilename.unlink()
            raise
''', '''        creator = _ZipCreator()
        try:
            creator.create(zipfilename, self, freeze_time, comment)
        except Exception as error:
            self._remove_partial(zipfilename)
            raise error

    def _remove_partial(self, path):
        if path.exists():
            path.unlink()
''')]),
dict(id='ws-add-input-local', props=['C06', 'C20', 'C24'], edits=[(WS, '''        m = self.meta
        m[meta.INPUTS][input_nick] = {
            meta.INPUT_KIND: kind,
            meta.INPUT_CONTENT_ID: content_id,
            meta.INPUT_FREEZE_TIME: freeze_time_str}
        self.meta = m
''', '''        spec = {
            meta.INPUT_CONTENT_ID: content_id,
            meta.INPUT_FREEZE_TIME: freeze_time_str,
            meta.INPUT_KIND: kind}
        workspace_meta = self.meta
        inputs = workspace_meta[meta.INPUTS]
        inputs[input_nick] = spec
        self.meta = workspace_meta
''')]),
dict(id='ws-delete-input-pop', props=['C06'], edits=[(WS, '''        m = self.meta
        del m[meta.INPUTS][input_nick]
        self.meta = m

    def load''', '''        m = self.meta
        m[meta.INPUTS].pop(input_nick)
        self.meta = m

    def load''')]),
dict(id='ws-writable-input', props=['C06'], edits=[(WS, '''        input_dir = self.directory / layouts.Workspace.INPUT
        fs.make_writable(input_dir)
        try:
            fs.rmtree(input_dir / input_nick)
        finally:
            fs.make_readonly(input_dir)
''', '''        with self._writable_input_dir() as input_dir:
            fs.rmtree(input_dir / input_nick)
'''), (WS, '''        input_dir = self.directory / layouts.Workspace.INPUT
        fs.make_writable(input_dir)
        try:
            self.add_input(
                input_nick,
                archive.kind, archive.content_id, archive.freeze_time_str)
            destination_dir = input_dir / input_nick
            archive.unpack_data_to(destination_dir)
            for f in fs.all_subpaths(destination_dir):
                fs.make_readonly(f)
        finally:
            fs.make_readonly(input_dir)
''', '''        with self._writable_input_dir() as input_dir:
            self.add_input(
                input_nick,
                archive.kind, archive.content_id, archive.freeze_time_str)
            destination_dir = input_dir / input_nick
            archive.unpack_data_to(destination_dir)
            for f in fs.all_subpaths(destination_dir):
                fs.make_readonly(f)

    @contextlib.contextmanager
    def _writable_input_dir(self):
        input_dir = self.directory / layouts.Workspace.INPUT
        fs.make_writable(input_dir)
        try:
            yield input_dir
        finally:
            fs.make_readonly(input_dir)
'''), (WS, '''import os
import zipfile
''', '''import contextlib
import os
import zipfile
''')]),
dict(id='ws-create-order', props=['C20', 'C03'], edits=[(WS, '''        bead_meta = {
            meta.KIND: kind,
            meta.INPUTS: {}}
        fs.write_file(
            dir / layouts.Workspace.BEAD_META,
            persistence.dumps(bead_meta))
''', '''        text = persistence.dumps({meta.INPUTS: {}, meta.KIND: kind})
        fs.write_file(self._meta_filename, text)
''')]),
dict(id='zip-create-compression', props=['C03', 'C23'], edits=[(WS, '''        user_compression_preference = os.environ.get('BEAD_ZIP_COMPRESSION')
        compression = {
            'off': zipfile.ZIP_STORED,
            'stored': zipfile.ZIP_STORED,
            # these are not universally supported compression methods
            # 'lzma': zipfile.ZIP_LZMA,
            # 'bz2': zipfile.ZIP_BZIP2,
            'deflated': zipfile.ZIP_DEFLATED,
        }.get(user_compression_preference, zipfile.ZIP_DEFLATED)
        try:
            with''', '''        compression = self._compression()
        try:
            with'''), (WS, '''    def add_code(self, workspace):
''', '''    @staticmethod
    def _compression():
        if os.environ.get('BEAD_ZIP_COMPRESSION') in ('off', 'stored'):
            return zipfile.ZIP_STORED
        return zipfile.ZIP_DEFLATED

    def add_code(self, workspace):
''')]),
dict(id='zip-create-local', props=['C03', 'C23', 'C24'], edits=[(WS, '''                allowZip64=True,
            ) as self.zipfile:
                self.zipfile.comment = comment.encode('utf-8')
                self.add_data(workspace)
                self.add_code(workspace)
                self.add_meta(workspace, timestamp)
''', '''                allowZip64=True,
            ) as zip:
                self.zipfile = zip
                zip.comment = comment.encode('utf-8')
                self.add_code(workspace)
                self.add_data(workspace)
                self.add_meta(workspace, timestamp)
''')]),
dict(id='zip-add-meta-loop', props=['C20', 'C03'], edits=[(WS, '''        bead_meta = {
            meta.META_VERSION: META_VERSION,
            meta.KIND: workspace.kind,
            meta.FREEZE_TIME: timestamp,
            meta.INPUTS: {
                input.name: {
                    meta.INPUT_KIND: input.kind,
                    meta.INPUT_CONTENT_ID: input.content_id,
                    meta.INPUT_FREEZE_TIME: input.freeze_time_str}
                for input in workspace.inputs},
            meta.FREEZE_NAME: workspace.name}
''', '''        inputs = {}
        for input in workspace.inputs:
            inputs[input.name] = {
                meta.INPUT_KIND: input.kind,
                meta.INPUT_CONTENT_ID: input.content_id,
                meta.INPUT_FREEZE_TIME: input.freeze_time_str}
        bead_meta = {
            meta.META_VERSION: META_VERSION,
            meta.KIND: workspace.kind,
            meta.FREEZE_TIME: timestamp,
            meta.FREEZE_NAME: workspace.name,
            meta.INPUTS: inputs}
''')]),
dict(id='parse-inputs-items', props=['C20'], edits=[(META, '''    inputs = meta[INPUTS]
    for name in inputs:
        spec = inputs[name]
        yield InputSpec(
            name,
            spec[INPUT_KIND],
            spec[INPUT_CONTENT_ID],
            spec[INPUT_FREEZE_TIME])
''', '''    for name, spec in meta[INPUTS].items():
        yield InputSpec(
            name=name,
            kind=spec[INPUT_KIND],
            content_id=spec[INPUT_CONTENT_ID],
            freeze_time_str=spec[INPUT_FREEZE_TIME])
''')]),
dict(id='bead-name-steps', props=['C12', 'C20'], edits=[(META, '''        return string not in ('', '.', '..') and '/' not in string and '__' not in string
''', '''        if string in ('', '.', '..'):
            return False
        return not ('/' in string or '__' in string)
''')]),
dict(id='fs-all-subpaths', props=['C06', 'C21'], edits=[(FS, '''    for root, _dirs, files in os.walk(dir, followlinks=followlinks):
        root = Path(root)
        yield root
        for file in files:
            yield root / file
''', '''    for root, _dirs, files in os.walk(dir, followlinks=followlinks):
        folder = Path(root)
        yield folder
        yield from (folder / name for name in files)
''')]),
dict(id='fs-rmtree-early', props=['C21', 'C06'], edits=[(FS, '''    if not os.path.islink(root):
        for path in all_subpaths(root, followlinks=False):
            if not os.path.islink(path):
                make_writable(path)
    shutil.rmtree(root, *args, **kwargs)
''', '''    if not os.path.islink(root):
        _make_all_writable(root)
    shutil.rmtree(root, *args, **kwargs)


def _make_all_writable(root):
    for path in all_subpaths(root):
        if os.path.islink(path):
            continue
        make_writable(path)
''')]),
dict(id='fs-mode-attr', props=['C21', 'C06'], edits=[(FS, '''def make_writable(path: Path):
    mode = os.stat(path)[stat.ST_MODE]
    os.chmod(path, mode | stat.S_IWRITE)
''', '''def make_writable(path: Path):
    os.chmod(path, os.stat(path).st_mode | stat.S_IWUSR)
''')]),
dict(id='ts-convert-flat', props=['C11'], edits=[(TS, '''            # v for value
            def v(key, default):
                return int(values.get(key, default))
            tzoffset = (
                (-1 if values.get('tzsign', '+') == '-' else 1)
                *
                (v('tzhour', 0) * 60 + v('tzmin', 0)))
''', '''            # v for value
            def v(key, default):
                return int(values.get(key, default))
            tzoffset = v('tzhour', 0) * 60 + v('tzmin', 0)
            if values.get('tzsign') == '-':
                tzoffset = -tzoffset
''')]),
dict(id='ts-convert-early', props=['C11'], edits=[(TS, '''        parts = match(timeish)
        if parts:
            values = parts.groupdict()
''', '''        parts = match(timeish)
        if parts is None:
            return None
        if True:
            values = parts.groupdict()
''')]),
dict(id='ts-parse-next', props=['C11'], edits=[(TS, '''    for parse in _ISO8601_PARSERS:
        parsed = parse(timeish)
        if parsed is not None:
            return parsed
    raise ValueError('Time is''', '''    results = (parse(timeish) for parse in _ISO8601_PARSERS)
    for result in results:
        if result is None:
            continue
        return result
    raise ValueError('Time is''')]),
dict(id='ts-delta-sum', props=['C11'], edits=[(TS, '''    match = re.fullmatch(_DELTAS, delta_str)
    if match:
        delta = timedelta()
        for amount, unit_abbrev in re.findall(_DELTA, delta_str):
            delta += timedelta(**{_TIME_UNITS[unit_abbrev]: int(amount)})
        return delta
    raise ValueError(
        'Invalid''', '''    if re.fullmatch(_DELTAS, delta_str):
        delta = timedelta(0)
        for match in re.findall(_DELTA, delta_str):
            unit = _TIME_UNITS[match[1]]
            delta = delta + timedelta(**{unit: int(match[0])})
        return delta
    raise ValueError(
        'Invalid''')]),
dict(id='ts-not-parsed', props=['C11'], edits=[(TS, '''    parsed = _parse_default_timestamp(timestamp_str)
    if parsed is None:
        raise ValueError(
            'Not a full, basic timestamp (%s)' % _DEFAULT_FULL_TIMESTAMP,
            timestamp_str)
    return parsed
''', '''    parsed = _parse_default_timestamp(timestamp_str)
    if parsed is not None:
        return parsed
    raise ValueError(f'Not a full, basic timestamp ({_DEFAULT_FULL_TIMESTAMP})', timestamp_str)
''')]),
dict(id='env-add-any', props=['C13'], edits=[(ENV, '''        for box in boxes:
            if box.name == name:
                raise ValueError(f'Box with name {name} already exists')
            if box.location == directory:
                raise ValueError(
                    f'Box with location {box.location} already exists')

        self.set_boxes(boxes + [Box(name, directory)])
''', '''        if any(box.name == name for box in boxes):
            raise ValueError(f'Box with name {name} already exists')
        if any(box.location == directory for box in boxes):
            raise ValueError(f'Box with location {directory} already exists')

        boxes.append(Box(name, directory))
        self.set_boxes(boxes)
''')]),
dict(id='env-forget-loop', props=['C13'], edits=[(ENV, '''        self.set_boxes(
            box
            for box in self.get_boxes()
            if box.name != name)
''', '''        remaining = []
        for box in self.get_boxes():
            if box.name == name:
                continue
            remaining.append(box)
        self.set_boxes(remaining)
''')]),
dict(id='env-get-next', props=['C13', 'C14'], edits=[(ENV, '''        for box in self.get_boxes():
            if box.name == name:
                return box

    def is''', '''        return next((box for box in self.get_boxes() if box.name == name), None)

    def is''')]),
dict(id='env-known-any', props=['C13'], edits=[(ENV, '''        return self.get_box(name) is not None
''', '''        return any(box.name == name for box in self.get_boxes())
''')]),
dict(id='env-get-boxes-static', props=['C13'], edits=[(ENV, '''        def box(box_spec):
            return Box(
                box_spec.get(BOX_NAME),
                Path(box_spec.get(BOX_LOCATION)))
        return [box(spec) for spec in self._content.get(ENV_BOXES, ())]
''', '''        boxes = []
        for box_spec in self._content.get(ENV_BOXES, []):
            location = Path(box_spec.get(BOX_LOCATION))
            boxes.append(Box(box_spec.get(BOX_NAME), location))
        return boxes
''')]),
dict(id='env-load', props=['C13', 'C24'], edits=[(ENV, '''        with open(self.filename) as f:
            self._content = persistence.load(f)
''', '''        self._content = persistence.file_load(self.filename)
''')]),
dict(id='zo-lru-min', props=['C15'], edits=[(ZO, '''        def access_time(filename_access_time: Tuple[FileName, LogicalTime]):
            _, access_time = filename_access_time
            return access_time
        least_recently_used_filename, _ = sorted(self.access_times.items(), key=access_time)[0]
''', '''        least_recently_used_filename = min(self.access_times, key=self.access_times.get)
''')]),
dict(id='zo-lru-lambda', props=['C15'], edits=[(ZO, '''        def access_time(filename_access_time: Tuple[FileName, LogicalTime]):
            _, access_time = filename_access_time
            return access_time
        least_recently_used_filename, _ = sorted(self.access_times.items(), key=access_time)[0]
''', '''        least_recently_used_filename, _ = min(self.access_times.items(), key=lambda item: item[1])
''')]),
dict(id='zo-open-early', props=['C15'], edits=[(ZO, '''        if filename not in self.open_zip_files:
            if len(self.open_zip_files) == self.max_size:
                self.close(self.least_recently_used_filename)
            self.open_zip_files[filename] = ZipFile(filename)

        self.access(filename)
        return self.open_zip_files[filename]
''', '''        zip_file = self.open_zip_files.get(filename)
        if zip_file is None:
            if len(self.open_zip_files) >= self.max_size:
                self.close(self.least_recently_used_filename)
            zip_file = ZipFile(filename)
            self.open_zip_files[filename] = zip_file

        self.access(filename)
        return zip_file
''')]),
dict(id='zo-close-pop', props=['C15'], edits=[(ZO, '''        self.open_zip_files[filename].close()
        del self.open_zip_files[filename]
        del self.access_times[filename]
''', '''        del self.access_times[filename]
        zip_file = self.open_zip_files.pop(filename)
        zip_file.close()
'''), (ZO, '''        for filename in list(self.open_zip_files.keys()):
            self.close(filename)
''', '''        while self.open_zip_files:
            self.close(next(iter(self.open_zip_files)))
''')]),
dict(id='zo-close-all-tuple', props=['C15'], edits=[(ZO, '''        for filename in list(self.open_zip_files.keys()):
            self.close(filename)
''', '''        for filename in tuple(self.open_zip_files):
            self.close(filename)
''')]),
]
