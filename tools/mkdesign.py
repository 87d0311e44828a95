#!/usr/bin/env python3-vt
'''Writes DESIGN.md: python3-vt tools/mkdesign.py

The texts are here; units, assumptions, planted bugs and refactorings are taken from the modules that use them.'''
import glob, importlib, json, os, runpy, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)

HEAD = '''# Design

(Written by `tools/mkdesign.py`: the prose is in that file, the lists are taken from the modules that are run.)

`properties.jsonl` lists 26 properties of bead. 25 of them are decided by *contracts on the functions of /repo*
(`contracts/Cxx.py`), whose obligations `pyded/` generates from the current source on every run and z3/cvc5 discharge.
One (C25, concurrent processes) is not applicable, see its section.

## How a check works

`python3-vt check.py Cxx --tier quick|thorough`

1. **Deductive part (decides).** `contracts/Cxx.py` has a list of units. A unit makes an arbitrary initial state and
   arbitrary arguments that satisfy the precondition, runs *the functions of /repo* on them symbolically, and states
   postconditions, invariants of loops and frame conditions. `pyded` parses the current files of /repo (no copy, no
   extraction, nothing is dropped: the `ast` of the file that runs is what is interpreted), explores every path of the
   functions and emits an obligation for every postcondition, callee precondition, loop invariant (on entry, preserved)
   and the absence of unexpected exceptions. A callee that has a contract of its own is replaced by that contract
   (`v.stub`), other code of bead that is called is executed symbolically in place. Loops over sequences of unknown
   length are summarised (folds into fresh lists, sets, maps with defining axioms) or cut by a stated invariant; there
   is no unrolling bound (only loops over containers of known small size are executed step by step).
   All obligations proved: the property holds under the listed assumptions.
2. **Run time part (finds failing inputs).** `drivers/Cxx.py` evaluates the property on the real code of /repo, on
   random and systematically chosen inputs, in scratch folders, under time limits. It never decides that a property
   holds. It turns a failed obligation into a replayable input, and it also runs when the proof succeeds, as a check of
   the assumptions (models of zipfile, sqlite3, json, argparse, pathlib, regular expressions) and of the engine.
3. **Verdict.** Everything proved and nothing found: exit 0. A failing input: `VIOLATION property=.. replay=..`.
   An obligation that is refuted or undecided, without a failing input: `VIOLATION .. no-failing-input-found`; the
   replay file names the obligation, the path and the output of the solver. `python3-vt check.py Cxx --replay FILE`
   reruns a failing input.

The evidence file tells for each unit the functions it went through, obligations with the back end that discharged
them, solver time, stubs, external functions and assumptions.

### Why contracts reach what tests do not

The properties quantify over all byte strings, all file trees, all archives (including crafted ones), all sets of
boxes, all sequences of operations, all crash points. The obligations are about symbolic values: one proof of
`fs.rmtree` is about every tree; one preserved index invariant is about every sequence of index operations.

### The engine (`pyded/`)

| module | what it does |
| --- | --- |
| `interp.py` | symbolic interpreter of Python: classes, closures, generators, properties, decorators (`attr.s`, `cached_property`, `contextmanager`), exceptions, `with`, comprehensions, f-strings, star arguments; heap of objects; symbolic lists, sets, dictionaries, records |
| `loops.py` | loops over unknown many elements: summaries, invariants, early exits, folds, read-ahead loops, `iter(f, end)`; places in an invariant are found by *role* (what is in a variable), not by its name |
| `closures.py` | values of closures and partial functions as terms |
| `core.py` | path exploration, obligations, path conditions |
| `prover.py` | portfolio: z3 by e-matching, z3 with model based instantiation, other seeds, cvc5; with fewer facts first |
| `values.py`, `terms.py` | sorts: lists (length, position, membership), sets, dictionaries, records, abstract sorts; strings either as the solver's sequences (`theory`) or as an uninterpreted sort (`abstract`) |
| `regex.py` | patterns of `re` to regular expressions of the solver |
| `pybuiltins.py`, `stdlib.py` | models of built-ins and of the used part of the standard library |

`selftest/cpython.py` compares the interpreter with CPython on concrete programs; `selftest/symbolic.py` has pairs of
right and wrong contracts: the right ones have to be proved, the wrong ones must not be. Contracts were also checked
for vacuity: for each, edits of /repo that break it have to make it fail (planted bugs below, and many ad hoc ones).

### Judging what the code does, not how it is written

Contracts name functions of /repo at interfaces only (class methods and functions that other modules or users call).
Loop invariants find variables by role and apply to any function of the module, so helpers can be extracted or inlined
(`tools/refactors.py` runs the checks on behaviour preserving edits, see the end). When a rewrite is outside of
the engine's reach the outcome is `no-failing-input-found`, never a made up input.

### Trusted base

- `pyded` itself (interpretation of Python, path exploration, loop summaries), z3 and cvc5, CPython's `ast`.
- Models of dependencies, listed as assumptions per property: hashlib, zipfile (`contracts/ziparch.py`), sqlite3
  (`contracts/sqlmodel.py`: statements of the current source are parsed, rows are tables of arbitrary size), json,
  pathlib and os.path (`contracts/fsmodel.py`), the disk with crashes (`contracts/disk.py`), datetime and zones,
  regular expressions, argparse (a small one that runs the `declare` methods), attrs, `sorted`.
- Integers are mathematical (as Python's are); recursion depth and memory are unlimited; recursive functions are
  verified with their own contract for the recursive call, termination is not an obligation.
- `assert` statements run (no `python -O`).
- Sequential execution, unless a property says otherwise (C24: the process can die between any two steps).
'''

TEXT = {
'C01': '''`securehash.file` is proved with a loop invariant "what was hashed so far is the length, a colon and the bytes read so far",
for a stream that gives arbitrary short reads; `securehash.bytes` directly. Both use a digest that is an uninterpreted
function of the concatenation of the updates, so equality of results is equality of the hashed sequence. A lemma in
string theory shows that the framing is injective (`framing is injective`). `content_id` is that hash of the manifest entry.''',
'C02': '''The archive is an arbitrary one (`contracts/ziparch.py`): any name list (with duplicates), any bytes for an
entry, any read error. `validate` is executed symbolically, its checks included; postcondition: it returns iff the
conditions of the property (metadata fields, time not in the future, manifest and entries agree, hashes agree) hold.''',
'C03': '''The folder tree is an arbitrary finite one. `create` is proved against "entries made = output and code files, with
their bytes and hashes; manifest has exactly these", with contracts of the recursive `add_directory` used on subfolders;
entry names are proved injective.''',
'C04': '''`extract_dir` and callers are executed over an arbitrary archive and target: every file written is the one of an
entry of the section, holds its bytes, and is inside of the target (over all names: `..`, absolute, odd ones); what can
not be placed inside is refused before anything is written.''',
'C05': '''Ghost set of archives that passed `validate` during the command. Every call that puts something from an archive
in a workspace has the precondition "is in the set"; add, update (one, all), load (one, all), edit are executed
with all combinations of options; archives, boxes and search results are arbitrary.''',
'C06': '''Workspace operations over an arbitrary metadata dictionary and file tree: records and files of other inputs are
unchanged (frame condition), the named one is as asked, failures leave records as they were.''',
'C07': '''`get_beads` and the compiled conditions, executed for arbitrary conditions and an arbitrary set of archive files
(unreadable ones included): exactly the archives that satisfy every condition.''',
'C08': '''`search(...).newest()` etc. over arbitrary many boxes with arbitrary results: ranks by counting the smaller ones, the
unique filter, `first`; order by instants rather than texts.''',
'C09': '''The SQL statements of the current source are parsed and given a semantics over arbitrary tables
(`contracts/sqlmodel.py`). The where clause is proved to be equivalent to the predicate a plain box uses; conversion of
times is proved exact (integers, microseconds); the last unit has both implementations answer the same query.''',
'C10': '''Invariant "rows = rows of the valid archives" is preserved by index, unindex, rebuild and sync; also when an
archive or a statement fails (then nothing changes). `repetition` shows that sync is idempotent.''',
'C11': '''The regular expression, `strptime`-like parts and arithmetic of zones are in the theory of strings and integers: the strict
reader accepts exactly what `timestamp` writes; reading back gives the instant; user formats are the documented ones.''',
'C12': '''Box.store gives a file name from which the name patterns of the current source (translated regular expressions) read
the bead's name back, for all names; a resolver is an arbitrary function, `resolve` accepts only an archive that has
the right name and content.''',
'C13': '''Environment operations over an arbitrary JSON document, with json as an uninterpreted inverse pair.''',
'C14': '''The commands are executed with each combination of options (through a small model of argparse fed by the `declare`
methods), over an arbitrary set of known beads and times; postcondition: the bead that was used is the one the
documentation says (newest up to a limit, next, previous, exact).''',
'C15': '''Invariant of the LRU cache for an arbitrary state; `open` and `close_all` preserve it and close exactly what they drop.''',
'C16': '''`closure` is proved to be the least closed set (invariant with an arbitrary closed superset as ghost); the filters are
proved over an arbitrary web to keep exactly the links and beads of connected clusters, with their labels.''',
'C17': '''Building the graph for arbitrary beads: nodes, edges and phantoms characterised; node index and toposort (every
input before its user; each node once; a cycle raises).''',
'C18': '''Freshness over an arbitrary web: `color_beads` with `toposort`, `heads_of` by contract; loop invariant over the evaluation order.''',
'C19': '''json is modelled by its documented recursion (default, object_hook), values are arbitrary beads.''',
'C20': '''What `_ZipCreator.add_meta` writes and what `ZipArchive`/`Workspace` read, over arbitrary inputs, with json as an inverse pair.''',
'C21': '''`rmtree` over an arbitrary tree with symbolic links (`os.walk` by its documentation): only entries of the tree get removed or
change permissions; make_readonly/writable change one bit set of one path.''',
'C22': '''The chain of ancestors is an arbitrary sequence up to a root; invariant "none of those before is valid".''',
'C23': '''Every step of the save can raise any exception (`contracts/disk.py`); postconditions for the exceptional exits.''',
'C24': '''Crash conditions: an obligation "what is on the disk now can be read and is the old or the new state" is generated after
each step of the disk model, in the style of crash Hoare logic; SQLite transactions by their documentation.
The driver kills the real code between any two lines (`sys.settrace`) and at partial writes.''',
'C26': '''`Cluster.add` preserves "head is the newest real version, or the newest phantom"; `heads_of` is characterised over an arbitrary web.''',
}

NA = '''### C25 (not applicable)

Concurrent processes on one box and index. Contracts of sequential functions say nothing of interference. A rely/guarantee
proof would need, as its only interesting premises, contracts of SQLite's locking and of the file system's behaviour under
concurrent access; these would be assumed, not verified, and bead's own code has no locking to verify. Deciding it needs
exploration of schedules, which is another family. (Partial results: C10 and C24 prove that each change of the index
is one transaction, and that a rename replaces a file at once.)
'''

def main():
    props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
    out = [HEAD, '\n## Properties\n']
    for p in props:
        i = p['id']
        if i not in TEXT:
            out.append(NA)
            continue
        m = importlib.import_module('contracts.' + i)
        out.append(f"### {i}: {p['title']}\n")
        out.append(TEXT[i].replace('\n', ' ') + '\n')
        out.append('- Units under contract: ' + '; '.join(f'`{u.name}`' for u in m.UNITS) + '.')
        sub = lambda name, label: [f'- {label}:'] + [f'  - {a}' for a in getattr(m, name, [])] if getattr(m, name, []) else []
        out += sub('ASSUMPTIONS', 'Assumed') + sub('TRUSTED', 'Trusted') + sub('BOUNDED', 'Bounded') + sub('NOT_COVERED', 'Not covered')
        out.append('')
    out.append(open(f'{V}/tools/design_tail.md').read())
    out.append('\n### Planted bugs\n\nFrom `seeded/`; results of `tools/catch.py` (each runs the quick check of its property on a copy with the bug).\n')
    out.append('| bug | property | needs | caught by |\n| --- | --- | --- | --- |')
    try:
        catch = json.load(open(f'{V}/tools/catch.json'))
    except OSError:
        catch = {}
    for d in sorted(glob.glob(f'{V}/seeded/*/')):
        n = d.split('/')[-2]
        m = json.load(open(d + 'meta.json'))
        c = catch.get(n)
        how = '?' if c is None else 'not caught' if not c['rc'] else 'failing input' if c['driver'] else 'failed obligation'
        clean = lambda t: ' '.join(t.split()).replace('|', '/')
        out.append(f"| {n} | {m['property']} | {clean(m['needs'])} | {how} |")
    out.append('\n### Behaviour preserving edits\n\nFrom `tools/refactorspecs/`, run with `tools/refactors.py`: '
               'no check gave a failing input for any of them. The checks stayed quiet, except where the proof did not go through (`no-failing-input-found`):\n')
    specs = [s for f in sorted(glob.glob(f'{V}/tools/refactorspecs/r*.py')) for s in runpy.run_path(f)['R']]
    out.append(f"{len(specs)} edits, {sum(len(s['props']) for s in specs)} checks of them; proofs that fail:\n")
    out.append(open(f'{V}/tools/refactor_misses.md').read())
    open(f'{V}/DESIGN.md', 'w').write('\n'.join(out))


main()
