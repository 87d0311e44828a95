import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
p('C01','Content hash is exact, length-framed and independent of how data is read',
 "The content hash of a byte sequence is SHA-512 over its decimal length, ':', the bytes, ';', and the length again, and it is the same whether the bytes are hashed from memory or streamed from a file, for every length and however the reads are split. When the streamed data is not of the declared length no hash is produced. Hence two different contents never feed the same input to SHA-512, and an archive's content id depends on exactly the bytes of its manifest.",
 ['inputs'],'all byte strings, all declared lengths, all ways the reads can be chunked (including short reads and data longer than the read block)',
 'The tests hash a handful of strings of at most a few bytes, never data crossing the 1 MiB read block and never short reads.',
 ['bead/tech/securehash.py','bead/ziparchive.py'],
 [('streaming hash','bead/tech/securehash.py:file'),('in-memory hash','bead/tech/securehash.py:bytes'),('content id','bead/ziparchive.py:ZipArchive.calculate_content_id')])
p('C02','An archive validates exactly when it is complete and untampered',
 "Validation accepts an archive only if its metadata has every mandatory field, its freeze time is not in the future, every entry in the code and data sections is listed in the manifest, and every manifest entry is present in the archive with content that hashes to the listed value. An archive satisfying all of these is accepted, and every other archive is refused with an error.",
 ['inputs'],'all archives: any set of entries, any manifest, any metadata',
 'Tests validate a few well-formed archives and one hacked one; they do not cover each way an archive can be inconsistent, nor combinations.',
 ['bead/ziparchive.py','bead/tech/securehash.py'],
 [('validation checks','bead/ziparchive.py:ZipArchive._checks'),('extra entry check','bead/ziparchive.py:ZipArchive._extra_file'),('hash check','bead/ziparchive.py:ZipArchive._file_with_different_content_id')])
p('C03','A saved bead holds exactly the output and code files of the workspace',
 "Saving a workspace produces an archive whose data section is exactly the files under the output folder and whose code section is exactly all other files outside the top-level input, output, temp and metadata folders, under the same relative paths and byte for byte. The archive's manifest lists exactly these entries plus the metadata entry, each with the hash of its content.",
 ['inputs'],'all workspace trees: any depth, any file names and contents, nested folders that share the reserved names',
 'Tests save a few one- or two-file workspaces and check single files; they never compare whole trees or the manifest.',
 ['bead/workspace.py'],
 [('archive creation','bead/workspace.py:_ZipCreator.create'),('recursive walk','bead/workspace.py:_ZipCreator.add_directory'),('code selection','bead/workspace.py:_ZipCreator.add_code')],
 [('hashes','entry name -> content hash, becomes the manifest','bead/workspace.py:_ZipCreator')])
p('C04','Unpacking restores files faithfully and never escapes its target folder',
 "Unpacking the code or data of an archive into a folder creates every file of that section at its relative path with exactly the archived bytes, and nothing from other sections. It never creates, overwrites or changes anything outside the target folder, whatever names the entries have; an archive with an entry that would land outside is refused.",
 ['inputs'],'all archives, including entries with absolute names, parent references, redundant separators and prefixes shared between sections',
 'Tests extract two plain files from a friendly archive; hostile or unusual entry names are not exercised.',
 ['bead/ziparchive.py','bead/bead.py'],
 [('section extraction','bead/ziparchive.py:ZipArchive.extract_dir'),('file extraction','bead/ziparchive.py:ZipArchive.extract_file')])
p('C05','Only validated archives ever reach a workspace',
 "The commands that add, update or load an input, and the command that opens a bead for editing, put files in place only from an archive that passed full validation earlier in that same command. If the archive is damaged, the inputs recorded in the workspace and the loaded input data stay as they were, and no new workspace is created.",
 ['inputs','histories'],'all command arguments, all archives (valid or damaged), all prior workspace states',
 'Two tests use one kind of hacked archive with two commands; other commands, other kinds of damage and the preserved state are not checked.',
 ['bead_cli/input.py','bead_cli/workspace.py','bead_cli/common.py'],
 [('verify before load','bead_cli/input.py:_check_load_with_feedback'),('update','bead_cli/input.py:_update_input'),('edit','bead_cli/workspace.py:CmdEdit.run'),('verification','bead_cli/common.py:verify_with_feedback')])
p('C06','Input records and loaded input data change only for the named input',
 "Loading an archive as an input records exactly its kind, content id and freeze time under that input name and makes its data available read-only in that input's folder; unloading removes only that folder and deleting removes only that record and folder. Records and data of all other inputs, the workspace kind, and the rest of the workspace are unaffected, and the input folder is write protected again afterwards even when the operation fails. An input name that could not be read back later is refused before anything is changed.",
 ['inputs','histories','fault_sequences'],'all input names, all prior workspace metadata, any sequence of operations, failure at any unpacking step',
 'Tests run a few fixed command sequences with at most two well-named inputs and do not compare the remaining state.',
 ['bead/workspace.py','bead/meta.py','bead_cli/input.py'],
 [('record/forget','bead/workspace.py:Workspace.add_input'),('load','bead/workspace.py:Workspace.load'),('unload','bead/workspace.py:Workspace.unload'),('delete','bead/workspace.py:Workspace.delete_input')],
 [('inputs','mapping of input name to kind, content id, freeze time','.bead-meta/bead')])
p('C07','Searching a plain box returns exactly the matching beads',
 "Searching a box without an index returns exactly the beads stored in it that satisfy every given condition (name, kind, content id, and time equal, newer, older, at-or-newer, at-or-older), whatever characters their names contain and however the archive files are named. Files in the box that are not readable bead archives are ignored and never make a search fail or hide other beads.",
 ['inputs'],'all box contents (valid archives, foreign or damaged zip files), all combinations of conditions and values',
 'Tests list three beads and do a couple of lookups by plain names; junk is tested only with a non-zip file.',
 ['bead/box_rawfs.py','bead/box.py','bead/ziparchive.py'],
 [('condition compilation','bead/box_rawfs.py:compile_conditions'),('scan','bead/box_rawfs.py:RawFilesystemResolver.get_beads'),('file selection','bead/box_rawfs.py:RawFilesystemResolver._glob_bead_files')])
p('C08','Newest, oldest, n-th, first and unique select the right bead across boxes',
 "Over all given boxes, newest/oldest return a matching bead whose freeze time no other matching bead exceeds/undercuts, the n-th newer/older selection returns the bead at that position of the matching beads in time order, and each reports not-found exactly when there is no such bead. The unique filter keeps exactly one bead per content id, the first found; without it all matching beads of all boxes are returned.",
 ['inputs'],'all numbers of boxes and beads, all orders, duplicate contents, equal times, all positions',
 'The tests only call newest on one box with three beads.',
 ['bead/box.py'],
 [('selection','bead/box.py:BaseSearch'),('unique','bead/box.py:BaseSearch._apply_unique_filter'),('multi box','bead/box.py:MultiBoxSearch')])
p('C09','An indexed box answers queries exactly like a plain box',
 "For the same set of valid archives a box with an up-to-date index returns, for every combination of search conditions, the same beads as the box without index: same names, content ids, kinds, freeze times and input references. Freeze times are compared to the microsecond, so beads or limits one microsecond apart are told apart, and looking up a bead's file finds an archive of that bead or reports not-found.",
 ['inputs'],'all sets of archives, all combinations of conditions, all time values in any time zone with microsecond resolution',
 'There is no test of the index at all in the suite.',
 ['bead/box_index.py','bead/box_rawfs.py'],
 [('query building','bead/box_index.py:build_where_clause'),('query','bead/box_index.py:query_beads'),('time conversion','bead/box_index.py:timestamp_to_unix_utc_microseconds'),('lookup','bead/box_index.py:find_file_path')])
p('C10','Index maintenance keeps the index equal to the valid archives on disk',
 "Adding an archive to the index makes its entry carry exactly that archive's metadata, inputs and file and changes no other bead's entry; an invalid archive is never added. Removing a file drops only the bead indexed for that file; rebuilding leaves exactly the valid archives of the folder, and synchronizing adds the new ones and drops exactly those whose file is gone. Repeating any of these leaves the indexed beads as they are.",
 ['inputs','histories'],'all folder contents, all prior index contents, any sequence of add, remove, rebuild, sync',
 'There is no test of index maintenance in the suite.',
 ['bead/box_index.py'],
 [('add','bead/box_index.py:BoxIndex.index_archive_file'),('remove','bead/box_index.py:BoxIndex.unindex_archive_file'),('rebuild','bead/box_index.py:BoxIndex.rebuild'),('sync','bead/box_index.py:BoxIndex.sync')])
p('C11','Timestamps round-trip and order by the instant they denote',
 "A freeze time string denotes one instant: reading it back gives exactly the date, time, microsecond and zone offset written, and strings compare by instant across time zones. Anything that is not a complete timestamp is rejected by the strict reader, user-entered times are read according to their documented formats and time differences add up all their parts, and the timestamp of the present moment denotes the present instant in every time zone, also around daylight saving changes.",
 ['inputs','configurations'],'all dates, times, microseconds and offsets; all strings; all local time zones',
 'Tests sample a few literals and one fixed clock; no offsets around daylight saving, no near-miss strings.',
 ['bead/tech/timestamp.py'],
 [('strict parser','bead/tech/timestamp.py:time_from_timestamp'),('parser','bead/tech/timestamp.py:_compile_parser'),('deltas','bead/tech/timestamp.py:parse_timedelta'),('present','bead/tech/timestamp.py:timestamp')])
p('C12','A saved bead is found again under its name, and only the right archive resolves',
 "Saving a workspace into a box stores a file from which exactly the workspace's name is read back, so a later search for that name in that box finds it; a workspace whose name could not be read back is refused and nothing is stored. Resolving a found bead yields an archive with exactly the bead's name, content id and box, or fails; it never yields a different bead.",
 ['inputs'],'all workspace names, all freeze times, all box contents',
 'Tests use a few plain alphanumeric names.',
 ['bead/box.py','bead/ziparchive.py','bead/meta.py','bead/box_rawfs.py'],
 [('file name','bead/box.py:Box.store'),('name parsing','bead/ziparchive.py:bead_name_from_file_path'),('resolve','bead/box.py:Box.resolve'),('match check','bead/box.py:Box._validate_archive_matches_bead')])
p('C13','The list of known boxes stays unique and is changed only as asked',
 "Defining a box appends exactly that name and location, or is refused leaving the list unchanged when the name or the location is already in use; forgetting a box removes exactly the box of that name. Looking up a name returns the box defined with it or nothing, and the list survives saving and loading unchanged and in order.",
 ['inputs','histories'],'all sequences of add, forget, save, load with any names and locations',
 'Tests define at most two boxes in fixed sequences.',
 ['bead_cli/environment.py','bead_cli/box.py'],
 [('registry','bead_cli/environment.py:Environment'),('commands','bead_cli/box.py:CmdAdd')],
 [('boxes','ordered list of box name and directory','env.json')])
p('C14','Bead references resolve to the documented version',
 "Updating an input to the next version takes the oldest bead of the same kind strictly newer than the current one, previous takes the newest strictly older one, and otherwise the newest bead of that kind not later than the given time limit (no limit by default) is taken. Adding an input or opening a bead by name takes the newest bead of that name not later than the limit unless the reference is a file, and loading a recorded input takes only a bead with exactly the recorded content id; all known boxes are considered. When there is no such bead, nothing is loaded.",
 ['inputs'],'all box contents, all recorded inputs, all time limits and options',
 'Tests use one history of five beads in one box.',
 ['bead_cli/input.py','bead_cli/common.py','bead_cli/workspace.py'],
 [('update','bead_cli/input.py:CmdUpdate'),('reference resolution','bead_cli/common.py:resolve_bead'),('load','bead_cli/input.py:_load'),('options','bead_cli/common.py:BEAD_OFFSET')])
p('C15','The open-archive cache is bounded and always serves the requested file',
 "Opening an archive through the cache always returns a usable, not closed handle of the requested file. At most the configured number of archives stay open, and when room is needed exactly the least recently requested one is closed; closing all leaves none open.",
 ['histories'],'all sequences of open, close and close-all over any number of files',
 'No test opens more archives than the cache holds.',
 ['bead/zipopener.py'],
 [('cache','bead/zipopener.py:OpenZipLRUCache')],
 [('open_zip_files','open handles by file name','bead/zipopener.py:OpenZipLRUCache'),('access_times','logical time of last request','bead/zipopener.py:OpenZipLRUCache')])
p('C16','Web filters keep exactly the clusters connected to the named ones',
 "Filtering the web of beads by sources keeps exactly the links between bead names reachable from the named sources along input links (by sinks: names from which a named sink is reachable), and the beads of the names on those links; all versions of a kept name stay, and links keep their labels. Reachability is exact for every graph, including graphs with cycles.",
 ['inputs'],'all sets of beads and input links, all sets of source and sink names',
 'Tests compute closure on five small chains and never run the source or sink filter.',
 ['bead_cli/web/sketch.py','bead_cli/web/graph.py','bead_cli/web/commands.py'],
 [('closure','bead_cli/web/graph.py:closure'),('grouping','bead_cli/web/graph.py:group_by_src'),('cluster filter','bead_cli/web/sketch.py:ClusterFilter')])
p('C17','The web has one node per bead, one link per input and a sound ordering',
 "The web built from beads contains exactly one node per distinct bead name and content id, a stand-in node for each referenced but missing bead, and for each input of each node exactly one link labelled with the input's name from the referenced bead; having the same bead in several boxes is no error. Ordering the nodes lists every node once, each after all its inputs, and is refused exactly when the links form a cycle.",
 ['inputs'],'all collections of beads, inputs and boxes, including duplicates, missing references and cycles',
 'Tests sample small hand-made graphs and never put one bead into two boxes.',
 ['bead_cli/web/sketch.py','bead_cli/web/graph.py','bead_cli/web/dummy.py'],
 [('web construction','bead_cli/web/sketch.py:Sketch.from_beads'),('links','bead_cli/web/graph.py:generate_input_edges'),('order','bead_cli/web/graph.py:toposort')])
p('C18','Freshness marks exactly the beads whose whole input chain is current',
 "After coloring, a bead is up to date exactly when it is the newest version of its name, missing versions included, and every one of its inputs is an up-to-date bead; the newest of its name is out of date when any of its inputs is not up to date, all other versions are superseded, and missing beads stay marked as missing. This is transitive along input chains of any length.",
 ['inputs'],'all acyclic webs, any number of versions per name, missing inputs',
 'Tests sample six tiny webs.',
 ['bead_cli/web/sketch.py','bead_cli/web/cluster.py','bead_cli/web/dummy.py'],
 [('coloring','bead_cli/web/sketch.py:color_beads'),('cluster head','bead_cli/web/cluster.py:Cluster.add'),('reset','bead_cli/web/cluster.py:Cluster.reset_freshness')])
p('C19','A web saved to file loads back identical',
 "Writing the beads of a web to a file and reading it back yields the same beads with the same names, content ids, kinds, freeze times, inputs, box names and freshness, in the same order, for all values these can take.",
 ['inputs'],'all beads with any text values, any inputs, every freshness value',
 'Tests round-trip a few fixed beads.',
 ['bead_cli/web/io.py','bead_cli/web/dummy.py'],
 [('encode','bead_cli/web/io.py:encoder'),('decode','bead_cli/web/io.py:reconstruct')])
p('C20','Kind and input references survive saving and reopening unchanged',
 "The archive saved from a workspace records the workspace's name and kind, the given freeze time, and for each input exactly its name, kind, content id and freeze time, and reading the archive gives back these values. Opening the bead for editing gives a workspace with the same kind and the same inputs.",
 ['inputs'],'all kinds, freeze times and sets of inputs',
 'Tests check single fields for one or two inputs.',
 ['bead/workspace.py','bead/meta.py','bead/ziparchive.py','bead/bead.py'],
 [('metadata written','bead/workspace.py:_ZipCreator.add_meta'),('metadata read','bead/meta.py:parse_inputs'),('reopen','bead/bead.py:Archive.unpack_to')])
p('C21','Deleting a tree touches nothing outside it',
 "Discarding a workspace or removing input data deletes everything in that folder, write protected or not, and changes or deletes nothing outside it: symbolic links inside the tree are removed but what they point to keeps its content and permissions. Making something writable or read-only changes only its owner-write permission. Without force, only a valid workspace is ever discarded.",
 ['inputs'],'all directory trees, including links to files and folders outside, and any permissions',
 'Tests remove small trees without links.',
 ['bead/tech/fs.py','bead_cli/workspace.py'],
 [('removal','bead/tech/fs.py:rmtree'),('walk','bead/tech/fs.py:all_subpaths'),('permissions','bead/tech/fs.py:make_writable'),('discard','bead_cli/workspace.py:CmdDiscard.run')])
p('C22','The workspace of a directory is its nearest enclosing valid workspace',
 "The workspace chosen for the current directory is the current directory itself if it is a valid workspace, otherwise the closest valid workspace among its ancestors, and the current directory when there is none. A directory is a valid workspace exactly when its input, output and temp folders and its metadata file are all present.",
 ['inputs'],'all directory depths and all combinations of present folders along the path',
 'Tests check one level of nesting.',
 ['bead/workspace.py'],
 [('lookup','bead/workspace.py:Workspace.for_current_working_directory'),('validity','bead/workspace.py:Workspace.is_valid')])
p('C23','A failed save leaves no archive behind and a save never overwrites one',
 "If saving fails at any point with an error, no archive file is left at the destination. If a file already exists at the destination the save fails and that file is left untouched.",
 ['fault_sequences','inputs'],'failure at any step of archive creation, any destination state',
 'Tests do not make archive creation fail.',
 ['bead/workspace.py','bead/box.py'],
 [('cleanup','bead/workspace.py:Workspace.pack')])
p('C24','A crash or a failed write in the middle of a change never loses what was stored',
 "If the process dies, or a write fails, at any instant of a save, a change of the list of boxes, of a workspace's input records or of an index entry, then everything stored before is still readable: bead files are untouched, the list of boxes, the records and the index entries of each bead are either those before or those after the change, and a half-written bead is never taken for a valid one. (Loss of power and an interrupted first indexing or rebuilding of a whole index, which is to be repeated, are not covered.)",
 ['crash_points'],'every crash point or failure between any two steps that change the disk',
 'Tests never interrupt a write.',
 ['bead/tech/persistence.py','bead_cli/environment.py','bead/workspace.py','bead/box.py','bead/box_index.py'],
 [('persisting','bead/tech/persistence.py:file_dump'),('list of boxes','bead_cli/environment.py:Environment.save'),('records','bead/workspace.py:Workspace.meta'),('saving','bead/box.py:Box.store'),('index','bead/box_index.py:BoxIndex.index_archive_file')])
p('C25','Concurrent tools sharing a box see consistent results',
 "Several users saving to, indexing and searching the same box at the same time never see a partially written bead as valid and never corrupt each other's index entries.",
 ['schedules'],'all interleavings of commands in several processes',
 'Tests run commands one after another.',
 ['bead/box.py','bead/box_index.py'],
 [('store','bead/box.py:Box.store')])
p('C26','Reducing a web to its heads keeps exactly the newest versions and their inputs',
 "Reducing a web to its heads keeps for every name the newest present version (a missing one only if all versions are missing), the beads these directly reference, and exactly the input links leading to the kept newest versions.",
 ['inputs'],'all webs, any number of versions, missing beads',
 'No test covers the reduction.',
 ['bead_cli/web/sketch.py','bead_cli/web/cluster.py','bead_cli/web/commands.py'],
 [('heads','bead_cli/web/sketch.py:heads_of'),('head choice','bead_cli/web/cluster.py:Cluster.add'),('pruning','bead_cli/web/sketch.py:drop_deleted_inputs')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
