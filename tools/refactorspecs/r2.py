'''Refactorings of box.py and box_index.py.'''
BOX = 'bead/box.py'
IX = 'bead/box_index.py'

R = [
dict(id='search-helper', props=['C08'], edits=[(BOX, '''    def oldest(self) -> Bead:
        beads = self._get_beads()
        if not beads:
            raise LookupError("No beads found")
        return min(beads, key=lambda b: b.freeze_time)

    def newest(self) -> Bead:
        beads = self._get_beads()
        if not beads:
            raise LookupError("No beads found")
        return max(beads, key=lambda b: b.freeze_time)
''', '''    def _get_some_beads(self):
        beads = self._get_beads()
        if not beads:
            raise LookupError("No beads found")
        return beads

    def oldest(self) -> Bead:
        return min(self._get_some_beads(), key=lambda b: b.freeze_time)

    def newest(self) -> Bead:
        return max(self._get_some_beads(), key=lambda b: b.freeze_time)
''')]),
dict(id='search-nth', props=['C08'], edits=[(BOX, '''    def newer(self, n: int = 1) -> Bead:
        beads = self._get_beads()
        if not beads:
            raise LookupError("No beads found")
        sorted_beads = sorted(beads, key=lambda b: b.freeze_time)
        if n >= len(sorted_beads):
            raise LookupError(f"Not enough beads found (requested index {n}, found {len(sorted_beads)})")
        return sorted_beads[n]

    def older(self, n: int = 1) -> Bead:
        beads = self._get_beads()
        if not beads:
            raise LookupError("No beads found")
        sorted_beads = sorted(beads, key=lambda b: b.freeze_time, reverse=True)
        if n >= len(sorted_beads):
            raise LookupError(f"Not enough beads found (requested index {n}, found {len(sorted_beads)})")
        return sorted_beads[n]
''', '''    def newer(self, n: int = 1) -> Bead:
        return self._nth_by_time(n, reverse=False)

    def older(self, n: int = 1) -> Bead:
        return self._nth_by_time(n, reverse=True)

    def _nth_by_time(self, n, reverse):
        beads = self._get_beads()
        if not beads:
            raise LookupError("No beads found")
        count = len(beads)
        if count <= n:
            raise LookupError(f"Not enough beads found (requested index {n}, found {count})")
        ordered = list(beads)
        ordered.sort(key=lambda bead: bead.freeze_time, reverse=reverse)
        return ordered[n]
''')]),
dict(id='search-condition-helper', props=['C08'], edits=[(BOX, '''    def at_time(self, timestamp):
        if isinstance(timestamp, str):
            timestamp = time_from_timestamp(timestamp)
        self.conditions.append((QueryCondition.AT_TIME, timestamp))
        return self

    def newer_than(self, timestamp):
        if isinstance(timestamp, str):
            timestamp = time_from_timestamp(timestamp)
        self.conditions.append((QueryCondition.NEWER_THAN, timestamp))
        return self
''', '''    def _add_time_condition(self, condition, timestamp):
        if isinstance(timestamp, str):
            time = time_from_timestamp(timestamp)
        else:
            time = timestamp
        self.conditions.append((condition, time))
        return self

    def at_time(self, timestamp):
        return self._add_time_condition(QueryCondition.AT_TIME, timestamp)

    def newer_than(self, timestamp):
        return self._add_time_condition(QueryCondition.NEWER_THAN, timestamp)
''')]),
dict(id='search-conditions-concat', props=['C08'], edits=[(BOX, '''        self.conditions.append((QueryCondition.BEAD_NAME, name))
''', '''        self.conditions += [(QueryCondition.BEAD_NAME, name)]
'''), (BOX, '''        self.conditions.append((QueryCondition.KIND, kind))
''', '''        self.conditions = self.conditions + [(QueryCondition.KIND, kind)]
''')]),
dict(id='unique-dict', props=['C08'], edits=[(BOX, '''        seen_content_ids = set()
        unique_beads = []
        for bead in beads:
            if bead.content_id not in seen_content_ids:
                seen_content_ids.add(bead.content_id)
                unique_beads.append(bead)
        return unique_beads
''', '''        unique_beads = {}
        for bead in beads:
            unique_beads.setdefault(bead.content_id, bead)
        return list(unique_beads.values())
''')]),
dict(id='unique-continue', props=['C08'], edits=[(BOX, '''        seen_content_ids = set()
        unique_beads = []
        for bead in beads:
            if bead.content_id not in seen_content_ids:
                seen_content_ids.add(bead.content_id)
                unique_beads.append(bead)
        return unique_beads
''', '''        result = []
        seen = set()
        for bead in beads:
            content_id = bead.content_id
            if content_id in seen:
                continue
            result.append(bead)
            seen.add(content_id)
        return result
''')]),
dict(id='multi-comprehension', props=['C08'], edits=[(BOX, '''        all_beads = []
        for box in self.boxes:
            beads = box.get_beads(self.conditions)
            all_beads.extend(beads)

        return self._apply_unique_filter(all_beads)
''', '''        return self._apply_unique_filter([
            bead
            for box in self.boxes
            for bead in box.get_beads(self.conditions)])
''')]),
dict(id='multi-plus', props=['C08'], edits=[(BOX, '''        all_beads = []
        for box in self.boxes:
            beads = box.get_beads(self.conditions)
            all_beads.extend(beads)

        return self._apply_unique_filter(all_beads)
''', '''        found = []
        for box in self.boxes:
            found += box.get_beads(self.conditions)
        return self._apply_unique_filter(found)
''')]),
dict(id='multi-first', props=['C08'], edits=[(BOX, '''            try:
                beads = box.get_beads(self.conditions)
                if beads:
                    return beads[0]
            except (InvalidArchive, IOError, OSError):
                continue
''', '''            try:
                beads = box.get_beads(self.conditions)
            except (InvalidArchive, OSError):
                beads = []
            if beads:
                return beads[0]
''')]),
dict(id='resolve-next', props=['C12'], edits=[(BOX, '''    for box in boxes:
        if box.name == bead.box_name:
            return box.resolve(bead)

    raise LookupError(f"Could not find box '{bead.box_name}' to resolve bead '{bead.name}'")
''', '''    box = next((box for box in boxes if box.name == bead.box_name), None)
    if box is None:
        raise LookupError(f"Could not find box '{bead.box_name}' to resolve bead '{bead.name}'")
    return box.resolve(bead)
''')]),
dict(id='resolve-matching', props=['C12'], edits=[(BOX, '''        if (archive.name != bead.name or
            archive.content_id != bead.content_id or
            archive.box_name != bead.box_name):
            raise ValueError(
''', '''        matches = (
            archive.box_name == bead.box_name
            and archive.name == bead.name
            and archive.content_id == bead.content_id)
        if not matches:
            raise ValueError(
''')]),
dict(id='resolve-tuple', props=['C12'], edits=[(BOX, '''        if (archive.name != bead.name or
            archive.content_id != bead.content_id or
            archive.box_name != bead.box_name):
            raise ValueError(
''', '''        actual = (archive.name, archive.content_id, archive.box_name)
        expected = (bead.name, bead.content_id, bead.box_name)
        if actual != expected:
            raise ValueError(
'''), (BOX, '''        file_path = self.resolver.get_file_path(bead.name, bead.content_id)
        if not file_path.exists():
            raise LookupError(f"Archive file not found: {file_path}")
            
        archive = ZipArchive(file_path, self.name)
''', '''        file_path = self._path_of(bead)
        archive = ZipArchive(file_path, self.name)
'''), (BOX, '''    def _validate_archive_matches_bead(''', '''    def _path_of(self, bead):
        file_path = self.resolver.get_file_path(bead.name, bead.content_id)
        if file_path.exists():
            return file_path
        raise LookupError(f"Archive file not found: {file_path}")

    def _validate_archive_matches_bead(''')]),
dict(id='store-helper', props=['C12', 'C23'], edits=[(BOX, '''        if not self.directory.exists():
            raise BoxError(f'Box "{self.name}": directory {self.directory} does not exist')
        if not self.directory.is_dir():
            raise BoxError(f'Box "{self.name}": {self.directory} is not a directory')
        
        if not BeadName.is_wellformed(workspace.name):
            raise BoxError(f'Box "{self.name}": can not store bead with invalid name "{workspace.name}"')

        zipfilename = self.directory / f'{workspace.name}_{freeze_time}.zip'
''', '''        self._check_can_store(workspace.name)
        filename = '{}_{}.zip'.format(workspace.name, freeze_time)
        zipfilename = self.directory / filename
'''), (BOX, '''    def store(self, workspace, freeze_time) -> Path:
''', '''    def _check_can_store(self, name):
        directory = self.directory
        if not BeadName.is_wellformed(name):
            raise BoxError(f'Box "{self.name}": can not store bead with invalid name "{name}"')
        if not directory.exists():
            raise BoxError(f'Box "{self.name}": directory {directory} does not exist')
        if not directory.is_dir():
            raise BoxError(f'Box "{self.name}": {directory} is not a directory')

    def store(self, workspace, freeze_time) -> Path:
''')]),
dict(id='where-if', props=['C09'], edits=[(IX, '''    for condition_type, value in conditions:
        if condition_type in condition_mapping:
            sql_clause, value_transformer = condition_mapping[condition_type]
            where_parts.append(sql_clause)
            parameters.append(value_transformer(value))
''', '''    for condition_type, value in conditions:
        if condition_type not in condition_mapping:
            continue
        sql_clause, transform = condition_mapping[condition_type]
        parameters.append(transform(value))
        where_parts.append(sql_clause)
''')]),
dict(id='where-get', props=['C09'], edits=[(IX, '''    for condition_type, value in conditions:
        if condition_type in condition_mapping:
            sql_clause, value_transformer = condition_mapping[condition_type]
            where_parts.append(sql_clause)
            parameters.append(value_transformer(value))
''', '''    for condition in conditions:
        entry = condition_mapping.get(condition[0])
        if entry is not None:
            where_parts.append(entry[0])
            parameters.append(entry[1](condition[1]))
''')]),
dict(id='query-beads-helper', props=['C09'], edits=[(IX, '''    beads = []
    for row in cursor.fetchall():
        name, content_id, kind, freeze_time_str, file_path = row
        
        bead = Bead()
        bead.name = name
        bead.content_id = content_id
        bead.kind = kind
        bead.freeze_time_str = freeze_time_str
        bead.box_name = box_name
        
        bead.inputs = load_bead_inputs(conn, name, content_id)
        beads.append(bead)
    
    return beads
''', '''    return [_row_to_bead(conn, row, box_name) for row in cursor.fetchall()]


def _row_to_bead(conn, row, box_name):
    bead = Bead()
    bead.box_name = box_name
    bead.name, bead.content_id, bead.kind, bead.freeze_time_str, _ = row
    bead.inputs = load_bead_inputs(conn, bead.name, bead.content_id)
    return bead
''')]),
dict(id='query-beads-columns', props=['C09'], edits=[(IX, '''    sql = 'SELECT name, content_id, kind, freeze_time_str, file_path FROM beads'
    if where_parts:
        sql += ' WHERE ' + ' AND '.join(where_parts)
    sql += ' ORDER BY freeze_time_unix'
    
    cursor = conn.execute(sql, parameters)
    
    beads = []
    for row in cursor.fetchall():
        name, content_id, kind, freeze_time_str, file_path = row
        
''', '''    where = f" WHERE {' AND '.join(where_parts)}" if where_parts else ''
    sql = f'SELECT kind, name, content_id, freeze_time_str FROM beads{where} ORDER BY freeze_time_unix ASC'

    beads = []
    for kind, name, content_id, freeze_time_str in conn.execute(sql, parameters):
''')]),
dict(id='load-inputs-comprehension', props=['C09'], edits=[(IX, '''    inputs = []
    for row in cursor.fetchall():
        input_name, input_kind, input_content_id, input_freeze_time_str = row
        inputs.append(InputSpec(
            name=input_name,
            kind=input_kind,
            content_id=input_content_id,
            freeze_time_str=input_freeze_time_str
        ))
    
    return inputs
''', '''    return [
        InputSpec(name=row[0], kind=row[1], content_id=row[2], freeze_time_str=row[3])
        for row in cursor
    ]
''')]),
dict(id='load-inputs-star', props=['C09'], edits=[(IX, '''        input_name, input_kind, input_content_id, input_freeze_time_str = row
        inputs.append(InputSpec(
            name=input_name,
            kind=input_kind,
            content_id=input_content_id,
            freeze_time_str=input_freeze_time_str
        ))
''', '''        inputs.append(InputSpec(*row))
''')]),
dict(id='rebuild-missing-ok', props=['C10', 'C24'], edits=[(IX, '''        if self.index_path.exists():
            self.index_path.unlink()
        ensure_index''', '''        self.index_path.unlink(missing_ok=True)
        ensure_index''')]),
dict(id='rebuild-sorted', props=['C10'], edits=[(IX, '''        for zip_path in self.box_directory.glob('*.zip'):
            self.index_archive_file(zip_path)
''', '''        for zip_path in sorted(self._archive_paths()):
            self.index_archive_file(zip_path)

    def _archive_paths(self):
        return self.box_directory.glob('*.zip')
''')]),
dict(id='sync-two-passes', props=['C10'], edits=[(IX, '''            current_files = set()
            for archive_path in self.box_directory.glob('*.zip'):
                relative_path = archive_path.relative_to(self.box_directory)
                current_files.add(str(relative_path))
                
                # Add new files to index
                if str(relative_path) not in indexed_files:
                    self.index_archive_file(archive_path)
            
            # Remove files from index that no longer exist
            orphaned_files = indexed_files - current_files
            for file_path in orphaned_files:
                orphaned_archive_path = self.box_directory / file_path
                self.unindex_archive_file(orphaned_archive_path)
''', '''            current_files = {
                str(path.relative_to(self.box_directory))
                for path in self.box_directory.glob('*.zip')
            }

            for file_path in current_files - indexed_files:
                self.index_archive_file(self.box_directory / file_path)
            for file_path in indexed_files - current_files:
                self.unindex_archive_file(self.box_directory / file_path)
''')]),
dict(id='sync-name', props=['C10'], edits=[(IX, '''                relative_path = archive_path.relative_to(self.box_directory)
                current_files.add(str(relative_path))
                
                # Add new files to index
                if str(relative_path) not in indexed_files:
                    self.index_archive_file(archive_path)
            
            # Remove files from index that no longer exist
            orphaned_files = indexed_files - current_files
            for file_path in orphaned_files:
                orphaned_archive_path = self.box_directory / file_path
                self.unindex_archive_file(orphaned_archive_path)
''', '''                name = str(archive_path.relative_to(self.box_directory))
                if name not in indexed_files:
                    self.index_archive_file(archive_path)
                current_files.add(name)

            for file_path in indexed_files:
                if file_path in current_files:
                    continue
                self.unindex_archive_file(self.box_directory / file_path)
''')]),
dict(id='index-helper', props=['C10', 'C09', 'C24'], edits=[(IX, '''            with create_update_connection(self.index_path) as conn:
                insert_bead_record(conn, archive, relative_path)
                delete_bead_inputs(conn, archive.name, archive.content_id)
                
                for input_spec in archive.inputs:
                    insert_input_record(conn, archive.name, archive.content_id, input_spec)
                
                conn.commit()
        except Exception:
            pass
    
    def unindex''', '''            with create_update_connection(self.index_path) as conn:
                self._replace_records(conn, archive, relative_path)
                conn.commit()
        except Exception:
            pass

    @staticmethod
    def _replace_records(conn, archive, relative_path):
        name, content_id = archive.name, archive.content_id
        delete_bead_inputs(conn, name, content_id)
        insert_bead_record(conn, archive, relative_path)
        for input_spec in archive.inputs:
            insert_input_record(conn, name, content_id, input_spec)

    def unindex''')]),
dict(id='index-with-conn', props=['C10', 'C24'], edits=[(IX, '''                for input_spec in archive.inputs:
                    insert_input_record(conn, archive.name, archive.content_id, input_spec)
                
                conn.commit()
''', '''                with conn:
                    for input_spec in archive.inputs:
                        insert_input_record(conn, archive.name, archive.content_id, input_spec)
''')]),
dict(id='index-executemany', props=['C10', 'C24'], edits=[(IX, '''                for input_spec in archive.inputs:
                    insert_input_record(conn, archive.name, archive.content_id, input_spec)
                
                conn.commit()
''', '''                conn.executemany(
                    'INSERT INTO inputs VALUES (?, ?, ?, ?, ?, ?)',
                    [(archive.name, archive.content_id, i.name, i.kind, i.content_id, i.freeze_time_str)
                     for i in archive.inputs])
                conn.commit()
''')]),
dict(id='sql-named-columns', props=['C10', 'C09'], edits=[(IX, '''    conn.execute(\'\'\'
        INSERT INTO inputs 
        (bead_name, bead_content_id, input_name, input_kind, 
         input_content_id, input_freeze_time_str)
        VALUES (?, ?, ?, ?, ?, ?)
    \'\'\', (bead_name, bead_content_id, input_spec.name, 
          input_spec.kind, input_spec.content_id, input_spec.freeze_time_str))
''', '''    conn.execute(
        'INSERT INTO inputs (input_name, input_kind, input_content_id, input_freeze_time_str,'
        ' bead_name, bead_content_id) VALUES (?, ?, ?, ?, ?, ?)',
        (input_spec.name, input_spec.kind, input_spec.content_id, input_spec.freeze_time_str,
         bead_name, bead_content_id))
''')]),
dict(id='find-file-path-if', props=['C12', 'C09'], edits=[(IX, '''    row = cursor.fetchone()
    return row[0] if row else None
''', '''    row = cursor.fetchone()
    if row is None:
        return None
    file_path, = row
    return file_path
''')]),
dict(id='get-file-path-flat', props=['C12', 'C09'], edits=[(IX, '''                file_path = find_file_path(conn, name, content_id)
                if file_path is None:
                    raise LookupError(f"Bead not found in index: name='{name}', content_id='{content_id}'")
                return self.box_directory / file_path
        except LookupError:
            raise
        except Exception as e:
            raise BoxIndexError(f"Failed to get file path from index: {e}")
''', '''                file_path = find_file_path(conn, name, content_id)
        except Exception as e:
            raise BoxIndexError(f"Failed to get file path from index: {e}") from e
        if file_path is None:
            raise LookupError(f"Bead not found in index: name='{name}', content_id='{content_id}'")
        return self.box_directory / file_path
''')]),
dict(id='unix-microseconds', props=['C09', 'C11'], edits=[(IX, '''        # integer arithmetic: floats are not precise enough for microseconds
        return (timestamp - UNIX_EPOCH) // timedelta(microseconds=1)
''', '''        since_epoch = timestamp - UNIX_EPOCH
        return (since_epoch.days * 86400 + since_epoch.seconds) * 1000000 + since_epoch.microseconds
''')]),
dict(id='indexed-files-loop', props=['C10'], edits=[(IX, '''    return {row[0] for row in cursor.fetchall()}
''', '''    files = set()
    for (file_path,) in cursor:
        files.add(file_path)
    return files
''')]),
dict(id='delete-bead-names', props=['C10'], edits=[(IX, '''    conn.execute(\'\'\'
        DELETE FROM inputs 
        WHERE (bead_name, bead_content_id) IN (
            SELECT name, content_id FROM beads WHERE file_path = ?
        )
    \'\'\', (file_path,))
''', '''    rows = conn.execute('SELECT name, content_id FROM beads WHERE file_path = ?', (file_path,)).fetchall()
    for name, content_id in rows:
        delete_bead_inputs(conn, name, content_id)
''')]),
dict(id='ensure-index-else', props=['C10', 'C24'], edits=[(IX, '''    try:
        index_path = box_directory / '.index.sqlite'
        with create_update_connection(index_path):
            pass
        return True
    except Exception:
        return False
''', '''    try:
        with create_update_connection(box_directory / INDEX_NAME):
            return True
    except Exception:
        return False
'''), (IX, '''UNIX_EPOCH = ''', '''INDEX_NAME = '.index.sqlite'
UNIX_EPOCH = '''), (IX, '''        self.index_path = self.box_directory / '.index.sqlite'
''', '''        self.index_path = self.box_directory / INDEX_NAME
''')]),
]
