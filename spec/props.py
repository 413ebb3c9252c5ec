"""The properties, with how each is decided (source of properties.jsonl and MANIFEST.json; see tools/gen.py)."""
PROPS = []
def P(**k):
    PROPS.append(k)

P(id='C01', title='Syntax tree accessors never panic on any parsed file',
  statement='Whatever text is parsed, complete or half-typed, every public query of the resulting syntax tree (children, parents, unpacking, '
            'iteration, search) returns normally: it never panics, hits an unreachable branch, unwraps a missing child or treats a node as one of another kind. '
            'A query with a documented precondition is only owed this when the precondition holds.',
  over=['inputs'], qtext='every syntax tree the Python grammar with error recovery can produce, and every node of it a query can be asked of',
  why_tests_cant='The tests parse a few snippets; the accessors are partial functions over an infinite family of tree shapes, and rare shapes (type parameters, guards, star targets, unfinished statements) are not sampled.',
  files=['crates/parsa_python_cst/src/lib.rs', 'crates/parsa_python_cst/src/match_stmt.rs', 'crates/parsa_python_cst/src/ranges.rs', 'crates/parsa_python_cst/src/code_actions.rs', 'crates/parsa_python_cst/src/completion.rs', 'crates/parsa_python_cst/src/signatures.rs', 'crates/parsa_python/src/lib.rs'],
  mech=[('create_nonterminal_structs! wrappers and their accessors', 'crates/parsa_python_cst/src/lib.rs'), ('create_grammar!', 'crates/parsa_python/src/lib.rs')],
  technique='abstract interpretation of MIR over the tree language of the grammar',
  note='Interprets every public function of the syntax tree crate on symbolic trees constrained by the grammar; undecided obligations (opaque loops, text comparisons, budget) are counted in the evidence, not claimed.')

P(id='C02', title='Syntax tree accessors return the part of the statement they name',
  statement='For every file that parses without error, a query of the syntax tree hands back exactly the parts of the source construct that its name and return type promise: '
            'the right child (condition versus branches, name versus annotation, body versus else), the right variant, and for iterators every element once and in source order. '
            'This holds for every form of the construct that the grammar allows, including optional parts that are absent.',
  over=['inputs'], qtext='every shape of every construct the grammar allows, for each query of the syntax tree',
  why_tests_cant='Each accessor has several grammatical forms (with and without optional parts, decorators, stars, guards); the tests of the buildable crates query almost none of them.',
  files=['crates/parsa_python_cst/src/lib.rs', 'crates/parsa_python_cst/src/match_stmt.rs', 'crates/parsa_python_cst/src/ranges.rs', 'crates/parsa_python/src/lib.rs'],
  mech=[('unpack(), iter(), child accessors', 'crates/parsa_python_cst/src/lib.rs')],
  technique='abstract interpretation of MIR over grammar-constrained trees, compared with a reference table of roles',
  note='Each accessor is interpreted on the partial trees of the reference (produced from the reviewed tree); a different outcome on the same tree is the violation. Forms whose interpretation meets text comparisons or budgets are not in the reference and not claimed.')

P(id='C03', title='The declared grammar is exactly that of Python 3.14',
  statement='The grammar declaration from which the parser is generated accepts, for each syntactic construct, exactly the sequences of parts that Python 3.14 allows (optional parts, separators, trailing commas, repetitions, lookaheads), '
            'tries alternatives that can begin alike in the order that resolves them as Python does, and keeps the soft keywords and the shape in which nodes with a single child are collapsed.',
  over=['inputs'], qtext='every token sequence, for each rule of the grammar',
  why_tests_cant='The accepted language is infinite; the snapshot tests parse single examples of the constructs.',
  files=['crates/parsa_python/src/lib.rs', 'crates/parsa/src/lib.rs'],
  mech=[('create_grammar! rules', 'crates/parsa_python/src/lib.rs')],
  technique='automata equivalence of every grammar rule with a reference grammar',
  note='Every rule of the grammar in the source is compiled to a minimal automaton over tokens, rule names, lookaheads and cuts and compared with the reference automaton; helper rules that are new are inlined first.')

P(id='C04', title='A change that concerns the whole database is never reported as less',
  statement='A file added to the virtual file system as one that invalidates the database keeps that mark through taking, cloning, merging or extending its set of dependents, through reloading an edited buffer and through panic recovery. '
            'Storing or closing a buffer, deleting a directory of buffers and a file system event that invalidate anything carrying the mark, directly or through dependents, report InvalidatedDb whenever they report a result; '
            'merging results never forgets it, and InvalidatedDb is never reported when nothing that was invalidated carries the mark.',
  over=['histories'], qtext='every history of stores, closes, file system events and recoveries, and every path through the invalidation code',
  why_tests_cant='Whether the mark is lost depends on which dependents were registered, merged and invalidated in which order; the tests of the crate run a handful of histories, none of which carries the mark through a merge.',
  files=['crates/vfs/src/vfs.rs', 'crates/vfs/src/tree.rs'],
  mech=[('Invalidations, InvalidationDetail', 'crates/vfs/src/tree.rs'), ('Vfs::invalidate_files and callers, InvalidationResult', 'crates/vfs/src/vfs.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='Every path of the functions that produce or merge an InvalidationResult, and of the operations of the set of dependents, is enumerated symbolically (loops unrolled twice, then widened); calls between checked functions are summarised by their own obligations.')

P(id='C05', title='A change reaches every file that depends on it',
  statement='When a file of the virtual file system is edited, closed with other contents, unloaded, created where it was missing, or changed, added or removed on disk (alone or with a directory above it), every file noted as depending on it, '
            'directly or through other dependents, is invalidated: it drops its references to the changed file and, if it is an open buffer, is announced. Files that looked for a name that was missing are noted as dependents and invalidated once a file or directory of that name appears. '
            'A set of dependents is only emptied by handing its members on, contents are only kept as unchanged when the text is known to be equal, and cyclic dependencies end.',
  over=['histories'], qtext='every history of registered dependents, edits, closes and file system events; every path through the invalidation code',
  why_tests_cant='A stale result needs a particular set of dependents (several, cyclic, on a missing name, below a replaced directory) at the moment of a particular change; the tests of the crate sample a few.',
  files=['crates/vfs/src/vfs.rs', 'crates/vfs/src/tree.rs', 'crates/vfs/src/workspaces.rs'],
  mech=[('Vfs::invalidate_files, invalidate_file_by_index, invalidate_path', 'crates/vfs/src/vfs.rs'), ('Invalidations, walk_entries, ensure_file, add_missing_entry_callback', 'crates/vfs/src/tree.rs'), ('ensure_dirs_and_file', 'crates/vfs/src/workspaces.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='Every path of the functions that invalidate, unload, replace or create files is enumerated symbolically (loops unrolled twice, then widened) and must discharge its hand-over obligations; the recursion is closed by each function relying only on obligations checked for its callee.')

P(id='C06', title='An open buffer is what everyone sees until it is closed',
  statement='While a path is stored as an in-memory file, its contents are the text last stored: file system events on that path have no effect, a loaded file is never read again from disk, an event on a directory above it neither unloads it nor loses its entry and index (it is announced instead), and storing equal text changes nothing. '
            'Storing registers exactly that path with the index that is returned and makes the file from the given text and entry. Closing unregisters exactly that path and lets the file on disk take over (unchanged when the text is equal, replaced when it differs, unloaded when it is gone); closing an unknown path is an error without effect. '
            'Deleting a directory of buffers closes exactly the open paths of its scheme below it, and the list of open files is exactly those registered.',
  over=['histories'], qtext='every history of stores, closes, loads and file system events; every path through these operations',
  why_tests_cant='The interplay of an open buffer with events on it, on directories above it and with saving and closing has many orders; the tests sample some, with one buffer each.',
  files=['crates/vfs/src/vfs.rs'],
  mech=[('Vfs::store_in_memory_file, close_in_memory_file, invalidate_path, delete_in_memory_files_directory, ensure_file_for_file_entry_with_conditional', 'crates/vfs/src/vfs.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='Every path of the operations on open buffers is enumerated symbolically (loops unrolled twice, then widened; directory walks with one and with two files) and compared with the obligations of the statement.')

P(id='C07', title='A path is resolved in the innermost workspace containing it, by components',
  statement='A path lies in a workspace when the schemes are equal and the components of the root are its leading components, compared one by one (ASCII case is ignored only where the lookup asks for it). '
            'Looking up an entry, placing a buffer and deleting a directory all use the innermost such workspace and then look up one component at a time, going through directories that are themselves roots of nested workspaces; a file outside all workspaces lives in the fallback workspace. '
            'Directories created on the way get the name and parent of their component; unloading removes exactly the entry of that file, deleting removes exactly the named directory, and an event is attributed to the directory that holds the last component. '
            'The absolute or relative path of an entry is that of its parent joined with its name. A root is added once and later workspaces are appended and linked to what contains them. Normalizing drops `.` components and lets `..` remove the component before it.',
  over=['inputs', 'histories'], qtext='every path, set of workspaces and tree of entries; every path through the functions that resolve, create and remove entries',
  why_tests_cant='Mistakes need an unusual pairing of workspaces and paths (a sibling whose name begins with the name of a root, nested roots, a directory that was not read yet, a case difference in one component); the tests use one or two workspaces with plain names.',
  files=['crates/vfs/src/workspaces.rs', 'crates/vfs/src/tree.rs', 'crates/vfs/src/path.rs', 'crates/vfs/src/normalized_path.rs', 'crates/vfs/src/utils.rs', 'crates/vfs/src/lib.rs'],
  mech=[('Workspaces, Workspace', 'crates/vfs/src/workspaces.rs'), ('Directory, FileEntry, Parent', 'crates/vfs/src/tree.rs'), ('VfsHandler path helpers', 'crates/vfs/src/lib.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='Every path of the functions that resolve, create, remove and name entries is enumerated symbolically (loops unrolled twice, then widened); for each path the outcome demanded by the statement under the facts the path assumes is compared with the one found.')

P(id='C08', title='What is taken from disk is watched before it is read and is what lies there',
  statement='A file is read only if it has the scheme file, and is watched before that; a directory is watched before it is listed; a watched path is handed to the watcher whenever there is one. '
            'Every entry of a listed directory is entered under its own name as the kind of what it leads to (file or directory), except names that are not UTF-8, hidden names, site-packages, node_modules and __pycache__; .gitignore is read as such. An entry that fails is skipped without dropping the others. '
            'A link is resolved relative to its own directory and followed to its end, each link on the way being watched; links that lead to a directory above themselves or without end are refused, others are not. The root of another workspace is linked to that workspace. '
            'An event is dropped as unnecessary only for a known directory that still is a directory, after watching it again; an invalidated buffer is announced when there is someone to tell.',
  over=['inputs', 'fault_sequences'], qtext='every content of the disk and every failure of a file system call; every path through the local file system handler',
  why_tests_cant='It has to hold for every layout of links, names, failing entries and nested roots, and for a change at any point between watching and reading; the tests use small plain directories.',
  files=['crates/vfs/src/local_fs.rs'],
  mech=[('LocalFS', 'crates/vfs/src/local_fs.rs'), ('ResolvedFileType::into_dir_entry', 'crates/vfs/src/local_fs.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='Every path of the functions of LocalFS is enumerated symbolically with file system calls as uninterpreted results (listing loops unrolled twice, then widened) and compared with the outcome the statement demands.')

P(id='C09', title='Locks are taken in one order, so threads never block each other for good',
  statement='No function of the virtual file system waits for a lock that its own thread already holds, shared or exclusive, and no two functions take two kinds of locks in opposite orders, however their threads interleave. '
            'A guard on the entries of a directory may only be alive during a call that locks the entries of something below that directory (the tree is walked downwards) or of something not shared yet; '
            'a callback is only called under a guard whose lock it does not take; all other locks (indices of files, sets of dependents, the list of files, the list of workspaces, the watcher) keep one order.',
  over=['schedules'], qtext='every interleaving of threads; every path through every function, with the locks taken transitively by what it calls',
  why_tests_cant='A deadlock needs two threads at particular points, or a path that takes a lock twice on rare entries (a missing entry that is replaced, a file over a directory); the tests run single threads on plain trees.',
  files=['crates/vfs/src/tree.rs', 'crates/vfs/src/vfs.rs', 'crates/vfs/src/workspaces.rs', 'crates/vfs/src/local_fs.rs', 'crates/utils/src/lib.rs'],
  mech=[('Entries, FileEntry, Invalidations', 'crates/vfs/src/tree.rs'), ('Workspaces', 'crates/vfs/src/workspaces.rs'), ('LocalFS::watch', 'crates/vfs/src/local_fs.rs')],
  technique='lock-order dataflow analysis of MIR (guard liveness)',
  note='Guard liveness is a may-analysis over MIR (moves, drops, optional guards); locks taken are propagated over the call graph to a fixpoint, callbacks included. Within the entries of directories, the lock taken must be derived from the guard held.')

P(id='C10', title='Shared state is checked and changed under one lock',
  statement='The list of file states only grows through shared references: it is never read or changed except while its lock is held, elements stay where they are and are never removed or replaced, and adding one hands back that element with its own index. '
            'Two threads that load a file agree on one index and one state: the index of an entry is set only under the guard that found it unset. A workspace added by one thread is not lost to another: the list of workspaces is read and replaced under one guard. '
            'A missing name is looked up and entered under one guard. Nothing is stored behind a lock that was made from what lay there under an earlier, released guard. A guard that is narrowed to a part of what it protects keeps the lock as long as the part can be used.',
  over=['schedules'], qtext='every interleaving of threads that load files, add workspaces and note missing names; every access to the shared containers',
  why_tests_cant='The races need another thread between two statements; the tests are single threaded, and the compiler accepts the accesses because they are unsafe or each take the lock properly.',
  files=['crates/utils/src/lib.rs', 'crates/vfs/src/tree.rs', 'crates/vfs/src/vfs.rs', 'crates/vfs/src/workspaces.rs'],
  mech=[('InsertOnlyVec, MappedReadGuard, MappedWriteGuard', 'crates/utils/src/lib.rs'), ('FileEntry::with_set_file_index, Entries::add_missing_entry_callback', 'crates/vfs/src/tree.rs'), ('Workspaces::push_without_full_access', 'crates/vfs/src/workspaces.rs')],
  technique='guard-liveness and path-sensitive dataflow analysis of MIR',
  note='Every call on the list behind the lock, every write of an index and every replacement of the list of workspaces is checked for the guard alive at that point and for where the guard came from.')

P(id='C11', title='A license is accepted only as it was signed and only in its period',
  statement='A license is accepted only if the signature in it is verified strictly, by one of the built-in public keys, over a message made of all its other fields, and the current time lies in its period, both ends included; a license for which that holds is accepted, whichever key it is. '
            'Anything else is refused: with false or an error, never accepted. Verifying a file reads that file, refuses what cannot be read or parsed and hands back the level of exactly the license that was verified. '
            'Creating a license fills every field with what was asked for, lets it begin now and end after the days asked for, signs that message with the key from the environment and never hands out an unsigned license; a key in text is 32 hexadecimal bytes between colons. Two licenses with different fields do not have the same message.',
  over=['inputs'], qtext='every license file, key and time; every path through verification and creation',
  why_tests_cant='Forged or shifted fields, a second key, a time exactly at the end of the period are inputs nobody samples; a field left out of the message passes every test that signs and verifies.',
  files=['crates/licensing/src/lib.rs'],
  mech=[('License::verify_with_keys, to_bytes_message, sign; verify_license_in_path; create_license', 'crates/licensing/src/lib.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='Every path of the functions is enumerated symbolically (the loop over keys unrolled twice, then widened) with the cryptography uninterpreted, and compared with the statement. That fields run together in the message is a known finding.')

P(id='C12', title='Recovering from a crash loses no loaded file and no open buffer',
  statement='When the server recovers from a panic, every file that was loaded under a path is handed over exactly once, with that path, its own artifacts, whether it is an open buffer and whether a change of it concerns the whole database; open buffers are announced. '
            'Loading them into the new file system gives each the entry of its path, makes it from its own artifacts under the index of that entry, marks it as concerning the whole database exactly if it was, and registers it as an open buffer under its path exactly if it was one. '
            'Nothing is recovered that was not loaded, and no sub file, which has no path of its own.',
  over=['crash_points', 'histories'], qtext='every state of the file system in which a panic may happen, every set of loaded files and buffers',
  why_tests_cant='A panic in the middle of a session with buffers, unloaded files and sub files is not something the tests of these crates do at all; a flag lost in the hand-over shows up only edits later.',
  files=['crates/vfs/src/vfs.rs'],
  mech=[('Vfs::into_panic_recovery, Vfs::load_panic_recovery, Vfs::with_added_file', 'crates/vfs/src/vfs.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='Loops over the files are unrolled twice and then closed; every combination of sub file, loaded, buffer and mark of two consecutive files is compared with the statement.')

P(id='C13', title='The tokens are those of Python',
  statement='For every text and position in it, what the tokenizer takes as the next number, string, bytes literal, beginning of an f-string, operator or end of line is exactly what the lexical grammar of Python takes: prefixes in every case and order, quotes, escapes, line continuations, underscores, exponents, the longest operator. '
            'A token has the kind of what matched, begins there and ends with the match; a number wins over an operator, strings win over names; a triple quote that is never closed is an error token by itself; an f-string is remembered with the quote that ends it. '
            'A name is made of letters, digits and underscores (decided for ASCII). Only names and operators are looked up as syntax. Only words that cannot stand in brackets end open brackets. Outside the repository\'s scope: rt prefixes of Python 3.14, back quotes.',
  over=['inputs'], qtext='every text: the patterns are compared as automata over all characters, the rest on every path of next',
  why_tests_cant='The tests sample some literals of each kind; a prefix, an underscore or a quote that is treated wrongly shows up only with that literal.',
  files=['crates/parsa_python/src/tokenizer.rs'],
  mech=[('NUMBER, STRING, BYTES, OPERATOR, NEWLINE, F_STRING_START, UNICODE_CHARACTER_NAME, ALWAYS_BREAK_NAMES, is_identifier, find_name_length, next', 'crates/parsa_python/src/tokenizer.rs')],
  technique='language equivalence of extracted patterns (automata) and path-sensitive dataflow analysis of MIR',
  note='The patterns are assembled by following the initialisers of the statics through MIR, and compared with a leftmost-first automaton against the longest match of a reference written from the Python documentation; kinds that depend on the text that matched are decided by intersecting automata with the conditions of each path.')

P(id='C14', title='The tokenizer keeps its place, the blocks, the brackets and the f-strings',
  statement='Tokens come from front to back and do not overlap: a token begins where whitespace, comments, empty lines and lines continued with a backslash (before \\n, \\r or \\r\\n) end, and the position moves to its end; it goes back only to before the whitespace skipped when a block ends, which is then read again. '
            'The indentation of a line that is not empty is compared with that of the block only at its beginning and only if no bracket and no f-string is open: a deeper one opens a block, a smaller one closes one block at a time or, between two blocks, corrects the indentation with an error token. At the end of the code every open block is closed, then one end marker comes, and nothing after it. '
            'A line ends with a newline token exactly if nothing is open. Brackets are counted, those in an f-string for it alone, and never below zero; a statement word or a semicolon closes all of them and, on a line of its own, ends the block. '
            'The text of an f-string ends at a bracket that is not doubled (inside of a format spec at any bracket), at the quote or three quotes that end the innermost f-string they can end, or, in single quotes, at the end of a line that is not continued; a backslash and the name of a character hide what follows them; a colon begins a format spec exactly if one bracket more is open than format specs, and the last closing bracket ends it.',
  over=['inputs', 'histories'], qtext='every text: every path of the functions of the tokenizer, for every character the path allows',
  why_tests_cant='The state after one token decides about the next one: nested f-strings, tabs, \\r, an unclosed bracket before a dedent combine in more ways than tests can list.',
  files=['crates/parsa_python/src/tokenizer.rs'],
  mech=[('next, skip_whitespace, dedent_if_necessary, encountered_break_token, handle_fstring_stack, end_f_string, maybe_fstring_string, FStringNode', 'crates/parsa_python/src/tokenizer.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='Functions are analysed one by one (calls between them opaque); loops over characters are unrolled for two to four characters, and for each path every combination of the characters it allows is compared with what the statement demands. Positions after a named character are not followed further.')

P(id='C15', title='A string or bytes literal has the value Python gives it',
  statement='The value of a string literal and of a bytes literal, in any prefix and quotes, is the value Python computes: escapes (also at the end, next to each other and next to characters of several bytes), hexadecimal, unicode and octal numbers of the right number of digits, continued lines, \\r\\n and \\r read as \\n, raw literals without escapes. '
            'Adjacent string literals have the concatenation of their values; if one of them is an f-string the value is unknown, and only then. The text between the quotes and its place in the literal are reported exactly, and a value that refers to the source has the place where its text begins. '
            'A literal with an escape that Python rejects does not panic. Not covered: names of characters (\\N{...}), which stay as written, and surrogates, which cannot be stored.',
  over=['inputs'], qtext='every literal of a set of shapes with up to three bytes left open, of any representative of the classes of bytes that matter; every path of the functions that read them',
  why_tests_cant='What a byte means depends on the bytes before and after it and on prefix and quotes; tests list a few literals.',
  files=['crates/parsa_python_cst/src/strings.rs', 'crates/parsa_python_cst/src/bytes.rs', 'crates/parsa_python_cst/src/lib.rs'],
  mech=[('PythonString::from_literal, PythonString::new, parse_hex, parse_python_octal, unpack_string_or_bytes_content', 'crates/parsa_python_cst/src/strings.rs'), ('parse_python_bytes_literal', 'crates/parsa_python_cst/src/bytes.rs'), ('StringLiteral::content, content_start_and_end_in_literal', 'crates/parsa_python_cst/src/lib.rs')],
  technique='path-sensitive dataflow analysis of MIR',
  note='The text of the literal is given by its shape, some bytes unknown; every path is enumerated and what it builds is compared with ast.literal_eval for each choice of the unknown bytes among 60 representatives that its conditions allow. Bytes not given as numbers are taken to be ASCII.')

NOBUILD = 'The crate cannot be type-checked in this sandbox (config depends on a git fork of rust-ini that is not in the cargo cache, and everything from config upwards depends on it), so there is no typed program to analyse; a syntactic scan could not decide it. '

P(id='N01', title='Diagnostics are those of the type system and of mypy',
  statement='For every program, the diagnostics reported (and the types inferred for names and expressions) are those the Python typing specification demands, in mypy mode with the messages mypy gives.',
  over=['inputs'], qtext='every Python program and configuration',
  why_tests_cant='Programs are unbounded; the conformance and mypy test suites sample them.',
  files=['crates/zuban_python/src/lib.rs'], mech=[('inference and checking', 'crates/zuban_python/src')],
  na=NOBUILD + 'Beyond that, the oracle is a whole type system: correctness of inferred types is a runtime relation between program texts and results that no static argument in reach bounds.')
P(id='N02', title='Incremental analysis gives what a fresh start would give',
  statement='After any history of edits, saves, closes and file system events, the diagnostics and answers of the language server are those a freshly started server gives for the same files.',
  over=['histories'], qtext='every history of edits and events',
  why_tests_cant='The result depends on the order in which files were loaded, invalidated and analysed.',
  files=['crates/zuban_python/src/database.rs', 'crates/zubanls/src/notification_handlers.rs'], mech=[('Database, PythonFile caches', 'crates/zuban_python/src/database.rs')],
  na=NOBUILD + 'The part that lies in the virtual file system (who is invalidated, what is reported, what an open buffer is) is claimed as C04, C05, C06 and C12.')
P(id='N03', title='The server answers every request once and survives panics',
  statement='Every request gets exactly one response, cancelled requests included; a panic in a request is answered with an error and the next request sees all open buffers.',
  over=['schedules', 'crash_points'], qtext='every sequence of messages, every point of a panic',
  why_tests_cant='Panics and cancellations can come at any point between any two messages.',
  files=['crates/zubanls/src/server.rs', 'crates/zubanls/src/panic_hooks.rs'], mech=[('event loop', 'crates/zubanls/src/server.rs')],
  na=NOBUILD + 'Recovery of files and buffers inside the virtual file system is claimed as C12.')
P(id='N04', title='Inference ends on every program, cyclic definitions included',
  statement='Checking any finite program, however its classes, aliases, imports and return types refer to each other, ends without overflowing the stack.',
  over=['inputs'], qtext='every program', why_tests_cant='Cycles can be built through any combination of constructs.',
  files=['crates/zuban_python/src/inference_state.rs', 'crates/utils/src/lib.rs'], mech=[('AlreadySeen, recursion guards', 'crates/utils/src/lib.rs')],
  na=NOBUILD + 'Termination needs a measure over runtime graphs of types; no such measure is visible in the source.')
P(id='N05', title='Configuration files are read as mypy and pyright read them',
  statement='Every option of mypy.ini, setup.cfg, pyproject.toml and the command line has the effect documented by mypy (in mypy mode) or pyright, with the same precedence, and an unknown or malformed one is reported and ignored.',
  over=['inputs'], qtext='every configuration file and command line', why_tests_cant='Options combine with sections, overrides and flags in more ways than are sampled.',
  files=['crates/config/src/lib.rs', 'crates/config/src/searcher.rs', 'crates/cli_args/src/lib.rs'], mech=[('ProjectOptions', 'crates/config/src/lib.rs')],
  na=NOBUILD + 'The oracle (the behaviour of mypy and pyright per option) is not in the repository either.')
P(id='N06', title='The parser is total and the tree spells the source',
  statement='Parsing any text ends, in time linear in its length for code without errors, and the leaves of the tree with the whitespace before them are the text; whatever does not fit the grammar becomes an error node around the smallest part.',
  over=['inputs'], qtext='every text', why_tests_cant='The automata are generated; which transitions, recoveries and backtrackings occur depends on the text.',
  files=['crates/parsa/src/grammar.rs', 'crates/parsa/src/automaton.rs', 'crates/parsa/src/backtracking.rs'], mech=[('Grammar::parse', 'crates/parsa/src/grammar.rs')],
  na='The loop of the parser walks tables (plans, stacks, backtracking points) that are computed at start-up from the grammar; its termination and the place of an error node depend on their contents together with the token sequence, runtime quantities that no static argument in reach bounds. What is static about it is claimed: the grammar (C03), the tokens and that they follow each other without overlap (C13, C14), and the queries on any tree, broken ones included (C01).')
P(id='N07', title='Checking is 20 to 200 times faster than mypy at half the memory',
  statement='Checking a project takes a small fraction of the time and memory mypy takes, and an edit is re-checked in time that depends on what it affects.',
  over=['inputs'], qtext='every project', why_tests_cant='Time and memory depend on the project.',
  files=['crates/zuban_python/src/lib.rs'], mech=[('laziness of inference', 'crates/zuban_python/src/database.rs')],
  na='A quantitative run-time property: static analysis has no cost model of the program that could decide it.')
