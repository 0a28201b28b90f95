#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, qtext, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(qtext.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': observe, 'hook_needed': None}})

XML = 'xigt/codecs/xigtxml.py'; JS = 'xigt/codecs/xigtjson.py'
MODEL = 'xigt/model.py'; MIX = 'xigt/mixins.py'; META = 'xigt/metadata.py'

p('C01', 'An acknowledged XigtXML write reads back as the same corpus',
  '''When writing a corpus as XigtXML reports success - to a path, to a text, binary or unbuffered handle,
  or to a string, in any encoding that XML can declare and any indentation, and whether the corpus was built in memory,
  fully loaded, or lazily loaded and edited meanwhile - what was written is one complete document that reads back as
  the same corpus: the same IGTs, tiers and items in the same order with the same ids, types, attributes, references,
  text, namespaces and metadata; a part of a corpus encoded alone is encoded as within it. When any part of the output could not be stored, the write raises an error instead of
  reporting success. Excluded is only what XML cannot carry: control characters and lone surrogates, carriage returns, the difference between empty and
  absent text, blank metadata text, element namespaces other than of metadata children, attribute names that are no XML names, and names the chosen encoding lacks.''',
  ['inputs', 'configurations', 'fault_sequences', 'histories'],
  '''all corpora XML can carry, all destinations, encodings and indentations, all interleavings of lazy reading, editing
  and writing, and all patterns of short and failing low-level writes''',
  '''The doctests write a handful of small corpora to strings and never to a handle that accepts part of the data or
  fails; no test uses namespaces declared below the root, nested metadata, corpus types, encodings or indentations.''',
  [XML, MODEL, META],
  [('the element tree', 'what will be serialised', XML)],
  [('dump/dumps', XML), ('element builders', XML), ('pretty-printing', XML)],
  ['bytes at the destination', 'outcome of the write', 'corpus read back from them'])

p('C02', 'An acknowledged XigtJSON write, or a format conversion, keeps the corpus',
  '''When writing a corpus as XigtJSON reports success - to a path, a handle or a string, with any indentation and in any loading
  mode - reading it back gives the same corpus: the same IGTs, tiers and items in order with the same ids, types, attributes
  (namespaced ones included), references, text (empty text included), namespace declarations and metadata. Any chain of conversions
  between XigtXML and XigtJSON keeps everything both formats can carry. When any part of the output could not be stored,
  the write raises an error instead of reporting success.''',
  ['inputs', 'configurations', 'fault_sequences', 'histories'],
  '''all corpora, all destinations and indentations, all chains of up to five conversions, and all patterns of short and
  failing low-level writes''',
  '''The JSON doctest checks one corpus and one nested metadata element; no conversion from one format to the other and
  no failing destination is tested.''',
  [JS, XML, MODEL, META],
  [('namespace context', 'prefixes in scope while encoding or decoding', JS)],
  [('encode/decode', JS), ('namespace prefixing of attribute keys', JS)],
  ['bytes at the destination', 'outcome of the write', 'corpus read back from them'])

p('C03', 'Reading a corpus does not depend on how or in what pieces its bytes arrive',
  '''Reading the same corpus document gives the same corpus whatever the loading mode (full, incremental, transient),
  the kind of source (path, text or binary handle, string), the sizes of the pieces the source delivers, the encoding the document declares,
  and markup without meaning (comments, processing instructions, CDATA, character references, whitespace between elements,
  attribute order, where namespaces are declared). In the lazy modes of the XML format an IGT is handed over after a bounded amount of input beyond
  its end has been read, so a huge document or an endless pipe can be processed as it arrives.''',
  ['inputs', 'schedules', 'configurations'],
  '''all well-formed corpus documents, all partitions of their bytes into reads, all loading modes and source kinds''',
  '''The tests read short strings in one piece in full mode; partial reads, pipes, encodings, comments inside elements
  and lazy modes are never exercised.''',
  [XML, JS, MODEL],
  [('the event stream', 'parse events not yet consumed', XML)],
  [('streaming decoder', XML), ('lazy iteration', MODEL)],
  ['corpus contents', 'bytes consumed from the source when each IGT is delivered'])

p('C04', 'Damaged or failing input never passes for a complete corpus',
  '''If a corpus source is truncated, corrupted so that it is no longer well-formed, is no Xigt document, or fails while being read,
  then loading it or iterating over it raises an error - never a normal end - in every loading mode, and keeps doing so
  when the caller retries, copies, selects from or writes out the lazily loaded corpus. Every IGT delivered before
  the error is exactly the corresponding IGT of the intact document, in order and without repetition. The error is an
  ordinary error, not the end-of-iteration signal, and reading an intact source afterwards works normally.''',
  ['inputs', 'crash_points', 'fault_sequences'],
  '''all documents, all truncation points and byte corruptions that break well-formedness, all read-failure points, all
  loading modes and all retry histories''',
  '''No test reads a damaged or failing source.''',
  [XML, JS, MODEL],
  [('the lazy source', 'what remains to be read, or the failure met', MODEL)],
  [('streaming decoder', XML), ('lazy iteration', MODEL)],
  ['exception or end of iteration', 'IGTs delivered before it'])

p('C05', 'Lazily loaded corpora deliver every IGT once per pass and keep what they promise',
  '''However passes over an incrementally loaded corpus are interleaved, abandoned or mixed with queries and writes, every pass
  delivers all IGTs from the first one in document order, each IGT is read once and is the same object in every pass, what has been delivered can be
  looked up by position and id, and once exhausted the corpus equals its fully loaded counterpart. A transiently loaded corpus delivers
  each IGT exactly once in all across interleaved passes, in document order, gives each one a link to the corpus and its
  inherited namespaces and metadata, and keeps none of them alive. Nothing is read from the source before it is needed.''',
  ['schedules', 'histories', 'configurations'],
  '''all interleavings of concurrent, abandoned and repeated passes with lookups, queries and writes, in both lazy modes''',
  '''The tests only construct fully loaded corpora.''',
  [MODEL, XML],
  [('the lazy source', 'remaining IGTs', MODEL), ('loaded IGTs', 'delivered so far', MODEL)],
  [('lazy iteration', MODEL)],
  ['IGTs delivered by each pass', 'length and lookups', 'liveness of delivered IGTs'])

p('C06', 'Edits keep contents, id lookup and parent links consistent, even when they fail',
  '''After any sequence of list edits on a corpus, IGT, tier or metadata collection (appending, inserting, extending, replacing,
  deleting, removing, popping, clearing, sorting, reversing, assigning the whole contents; also of members whose id was changed before), looking a member up by its id gives exactly the member with that id,
  ids are unique, every member is linked to its container, and the order is that of an ordinary list. An edit that
  is refused (duplicate id, wrong kind of object, absent member, bad position) raises an error and changes nothing - neither the collection
  nor the refused object's links; an edit fed by an iterator that fails part-way leaves exactly the members taken before the failure,
  consistently indexed, and assigning whole contents takes effect completely or not at all.''',
  ['histories', 'fault_sequences', 'inputs'],
  '''all edit sequences, including edits from lazy selections of the collection itself, iterators that raise after any
  number of members, and refused edits at any point''',
  '''The tests perform single successful edits, and one duplicate append; no test looks at state after a refused or
  half-done edit.''',
  [MIX, MODEL, META],
  [('id index', 'id to member', MIX), ('parent link', 'container of a member', MIX)],
  [('container edits', MIX), ('whole-content assignment', MODEL)],
  ['order', 'lookup by id', 'parent link', 'exception raised'])

p('C07', 'Refreshed indices answer item and reference lookups from the current content',
  '''After the indices of an IGT are refreshed, looking up an item or any object by id, and asking which objects a given tier or item
  refers to or is referred to by, answers exactly according to the IGT's current tiers, items and reference attributes -
  nothing stale from before earlier edits, nothing missing - no matter what edits, renames, lookups, failed edits or interrupted
  refreshes came before. Values computed through references always reflect the current text, even without a refresh.''',
  ['histories', 'fault_sequences', 'inputs'],
  '''all histories of edits, renamings, re-typings, lookups, refreshes and refreshes interrupted at any point''',
  '''The tests build one IGT and query it; nothing is ever edited, refreshed or interrupted.''',
  [MODEL, 'xigt/ref.py', MIX],
  [('item index', 'id to item', MODEL), ('reference caches', 'ids referred to and referring', MODEL)],
  [('refresh_indices', MODEL), ('direct reference search', 'xigt/ref.py')],
  ['item and object lookup', 'referents and referrers, cached and direct', 'item values'])

p('C08', 'Threads working on separate corpora, or only reading one, get sequential results',
  '''When several threads at once read, edit, query, validate, export or write in either format separate corpora, or only query
  and write one shared fully loaded corpus, each thread obtains exactly the result it would obtain running alone,
  under every interleaving. No state of one thread's work (namespaces, pending output, errors, options) shows up in
  another's.''',
  ['schedules', 'inputs'],
  '''all interleavings of two to four threads at line granularity inside the library''',
  '''The tests are single-threaded.''',
  [JS, XML, MODEL, 'xigt/xigtpath.py', 'xigt/query.py', 'xigt/ref.py', 'xigt/exporters/latex.py'],
  [('module-level variables', 'anything shared between calls', 'xigt/')],
  [('absence of shared mutable state', 'xigt/')],
  ['return values and output of each thread'])

p('C09', 'Read-only operations leave the corpus unchanged, even when interrupted',
  '''Writing, comparing, selecting, querying, resolving references, walking ancestors and descendants, validating and exporting never change
  a fully loaded corpus: not its contents, order, attributes, namespaces, links or lookups, and not the arguments and options the
  caller passed in. This also holds when the operation is interrupted at an arbitrary point (an interrupt or
  exhausted memory), fails, or is abandoned half-way, and running it again afterwards gives the normal result.''',
  ['crash_points', 'inputs', 'fault_sequences'],
  '''all corpora, all read-only operations, all points of interruption inside the library, all sequences of such operations''',
  '''The tests run operations on fresh corpora to completion and look only at the result.''',
  [MODEL, XML, JS, 'xigt/xigtpath.py', 'xigt/query.py', 'xigt/ref.py', 'xigt/exporters/latex.py', 'xigt/scripts/xigt_validate.py'],
  [('the corpus', 'contents, order, attributes, indices', MODEL)],
  [('absence of in-place normalisation', 'xigt/')],
  ['complete contents before and after', 'result of the repeated operation'])

p('C10', 'Lazily evaluated queries and traversals are independent, exact and finite',
  '''A query or traversal evaluated step by step - path queries, selections, ancestor and descendant walks - yields the same results in the
  same order as when evaluated at once, however its steps are interleaved with those of other queries and traversals over the same objects
  and whichever of them are abandoned or fail. A path selects exactly the objects and values it describes (children, descendants, parents,
  attributes with or without a namespace prefix, text, values, referents and referrers, groups of alternatives, and predicates on them),
  step by step in document order, and finding one is finding the first of all. Ancestor and descendant walks follow exactly the references
  present (each step reports the tier, attribute, referred or referring tier and exactly the connected items), and end after finitely many
  steps even when references are cyclic, without stopping early because tier ids look alike.''',
  ['schedules', 'inputs', 'histories'],
  '''all interleavings of several open traversals, all reference graphs including cycles and self-references, all tier id
  spellings''',
  '''The tests evaluate whole queries on one acyclic IGT with one-letter tier ids, which hides confusion between ids and
  their characters.''',
  ['xigt/query.py', 'xigt/xigtpath.py', MIX],
  [('traversal agenda', 'visited tiers, pending tiers', 'xigt/query.py'),
   ('remaining steps', 'unevaluated part of a path', 'xigt/xigtpath.py')],
  [('cycle detection', 'xigt/query.py'), ('step evaluation', 'xigt/xigtpath.py')],
  ['sequence of results', 'number of steps to the end'])

p('C11', 'Sorting a corpus file never loses data and replaces the file all or nothing',
  '''`xigt sort` outputs exactly the IGTs, tiers and items of its input, unchanged apart from order and each in its own container, ordered by
  the given keys (numbers inside keys compared as numbers) with equal keys in input order, and terminates whatever the keys, including missing ones, and tier references, including dangling, repeated or cyclic ones.
  With in-place sorting the file afterwards holds either the complete old or the complete sorted corpus, whatever
  write, disk-full, crash or power failure strikes at any moment, and success is reported only when it holds the sorted
  one. When input cannot be read completely, or output cannot be written completely, the exit status is
  nonzero.''',
  ['inputs', 'crash_points', 'fault_sequences', 'configurations'],
  '''all corpora, key combinations and tier reference graphs; all points of failure of reads, writes and file operations,
  and all crash and power-loss points''',
  '''The command-line scripts have no tests.''',
  ['xigt/scripts/xigt_sort.py', MODEL, XML, 'xigt/main.py'],
  [('the input file', 'replaced by in-place sorting', 'xigt/scripts/xigt_sort.py')],
  [('sort keys', 'xigt/scripts/xigt_sort.py'), ('tier dependency sort', MODEL), ('in-place replacement', 'xigt/scripts/xigt_sort.py')],
  ['standard output', 'file contents after success, failure, crash', 'exit status'])

p('C12', 'Partitioning puts every IGT in exactly one output file and touches nothing else',
  '''When `xigt partition` succeeds, every IGT of every input file is in exactly one output file, unchanged (contents and the meaning of its namespace
  prefixes) and exactly once; IGTs are together in one file exactly when they have the same key (no key counting as the
  default key), and inside a file keep the input order. For all keys - including ones with separators, dots,
  colons or equal after normalisation - the inputs, and everything outside the newly created output directory, are never created, modified
  or removed. If any input is damaged or any output cannot be written completely, the exit status is nonzero.''',
  ['inputs', 'fault_sequences', 'configurations'],
  '''all sets of input files and keys, all points of failure of reads, writes and file operations''',
  '''The command-line scripts have no tests.''',
  ['xigt/scripts/xigt_partition.py', 'xigt/xigtpath.py', XML, MODEL],
  [('key index', 'key to file to IGT positions', 'xigt/scripts/xigt_partition.py')],
  [('indexing pass', 'xigt/scripts/xigt_partition.py'), ('writing pass', 'xigt/scripts/xigt_partition.py'),
   ('output naming', 'xigt/scripts/xigt_partition.py')],
  ['files in the output directory', 'everything outside it', 'exit status'])

p('C13', 'Validation succeeds only if every file was fully read and meets the requirements',
  '''`xigt validate` exits with success only if every given file was readable, well-formed to its last byte, and free of violations of
  the mandatory rules (unique ids, references to existing tiers and items, reference attributes declared on the
  tier); any violating, damaged, truncated, unreadable or non-Xigt file makes the exit status nonzero and is named or reported in the output, wherever in the
  file the problem is and whatever the verbosity. At higher verbosity the advisory rules (ids and types are given, selected spans lie
  inside their items and do not overlap) count as well, and the report has a heading for exactly the objects with findings and those around them. A bad file never prevents the remaining files from being examined, and the findings reported for a file
  do not depend on which other files are examined with it or how its bytes arrive (uniqueness of corpus ids across files excepted).''',
  ['inputs', 'fault_sequences', 'configurations'],
  '''all batches of valid, violating, damaged and unreadable files in every order, all read-failure and damage points, all
  verbosity settings''',
  '''The command-line scripts have no tests.''',
  ['xigt/scripts/xigt_validate.py', XML, MODEL],
  [('verdicts', 'one per file', 'xigt/scripts/xigt_validate.py')],
  [('per-file loop', 'xigt/scripts/xigt_validate.py'), ('mandatory conditions', 'xigt/scripts/xigt_validate.py')],
  ['exit status', 'printed findings'])

p('C14', 'A refused or failing write spares the existing file, the corpus and the handle',
  '''A write refused because the object is no corpus, the corpus holds something the format cannot express, or its lazy source is damaged or
  fails, raises an error and leaves a previously existing destination file byte for byte as it was (also when the destination is the very file the
  corpus is lazily read from) and does not create a new one. A successful write to the file a corpus is lazily read from loses no IGT. Writing to a
  handle puts the document after everything the caller wrote before and before everything written afterwards, never closes the
  handle, and neither success nor failure changes the corpus, so that a later write of it to an intact
  destination succeeds.''',
  ['fault_sequences', 'histories', 'inputs', 'crash_points'],
  '''all refusal reasons at any depth of the corpus, all source failure points, all handle kinds and all interleavings of the
  caller's own writes with the library's''',
  '''No test writes to a file or a handle.''',
  [XML, JS, MODEL],
  [('the destination', 'file or handle being written', XML)],
  [('serialise-then-write order', XML), ('handle selection', XML)],
  ['destination bytes before and after', 'order of bytes on the handle', 'corpus contents'])

p('C15', 'Importing gives one IGT per good record, in order, and reports lost input',
  '''Importing a Toolbox or ODIN file writes one IGT for every importable record, in input order, carrying the record's identifier,
  attributes, language and lines of text unchanged (apart from the documented replacement of characters XML cannot hold) and, for Toolbox, every
  token aligned with the one it stands under, words and morphemes selecting their own text in the line above, independent of the sizes in which the
  input arrives and of what other records or files are imported with it. A record that cannot be imported is reported and
  affects no other record; importing a directory gives one output for each matching input. If input cannot be read or
  output cannot be written completely, the import fails with an error instead of reporting success.''',
  ['inputs', 'fault_sequences', 'schedules'],
  '''all sequences of good and bad records, all partitions into reads, all read- and write-failure points''',
  '''The importers have no tests (their parsing libraries are not even installed).''',
  ['xigt/importers/toolbox.py', 'xigt/importers/odin.py', 'xigt/scripts/xigt_import.py'],
  [('import options', 'shared by the records and files of one run', 'xigt/importers/')],
  [('record loop', 'xigt/importers/toolbox.py'), ('block loop', 'xigt/importers/odin.py')],
  ['IGTs of the output file', 'log messages', 'exit status'])

p('C16', 'Exporting writes every IGT exactly once, in order, or fails',
  '''Exporting a corpus to LaTeX or [incr tsdb()] gives exactly one example block (or notice that it cannot be exported) or row for every IGT, in corpus
  order. A block holds the tokens of each exported tier, all and in order, written so that LaTeX prints the original characters, and tokens aligned
  to each other are in the same column. The output is the same whatever the loading mode, delivery of the
  input bytes, or the neighbouring IGTs. If the input is damaged or fails part-way, or any part of the output cannot be
  stored, the export fails with an error or nonzero exit status instead of reporting success.''',
  ['inputs', 'fault_sequences', 'schedules'],
  '''all corpora of aligned tiers, all deliveries of the input, all read- and write-failure points''',
  '''The exporters have no tests.''',
  ['xigt/exporters/latex.py', 'xigt/exporters/itsdb.py', 'xigt/scripts/xigt_export.py', XML],
  [('alignment grid', 'columns of aligned tokens', 'xigt/exporters/latex.py')],
  [('export loop', 'xigt/exporters/latex.py'), ('row generation', 'xigt/exporters/itsdb.py')],
  ['output file', 'exit status'])

p('C17', 'Results do not depend on the ambient default text encoding',
  '''Reading a path, writing a path or a file handle, sorting, partitioning, validating, querying, importing and exporting give the same files, the same findings and
  the same verdicts whatever default text encoding the process runs under (as far as that encoding can express what is printed to the terminal): an input's encoding is what the document
  declares (UTF-8 by default), and output files are in the requested encoding (UTF-8 by default).''',
  ['configurations', 'inputs'],
  '''all default encodings (UTF-8, ASCII, Latin-1, UTF-16, cp1252) times all operations times all document encodings''',
  '''The tests run under one locale and mostly on strings.''',
  [XML, JS, 'xigt/scripts/xigt_validate.py', 'xigt/scripts/xigt_export.py', 'xigt/scripts/xigt_import.py', 'xigt/exporters/latex.py', 'xigt/importers/odin.py'],
  [('default text encoding', 'ambient, of handles opened without one', 'process')],
  [('opening files in binary or with an explicit encoding', 'xigt/')],
  ['output bytes', 'verdicts'])

p('C18', 'Query reports are complete and exact for every file, or the run fails',
  '''For every input file `xigt query` reports, under that file's heading, exactly the matches, counts,
  distinct counts and tallies of that file's own corpus, unaffected by the other files and actions of the run, by how the bytes
  arrive, or by braces and special characters in queries and matches. If an input is damaged or unreadable, or the report cannot be written
  completely, the exit status is nonzero, and what was reported before for intact files is right.''',
  ['inputs', 'fault_sequences', 'configurations'],
  '''all batches of files and actions, all deliveries of their bytes, all damage and write-failure points''',
  '''The command-line scripts have no tests.''',
  ['xigt/scripts/xigt_query.py', 'xigt/xigtpath.py', XML],
  [('agenda', 'actions shared by all files', 'xigt/scripts/xigt_query.py')],
  [('per-file loop', 'xigt/scripts/xigt_query.py'), ('tallying', 'xigt/scripts/xigt_query.py')],
  ['standard output', 'exit status'])

p('C19', 'Results depend on the input only, not on hash seeds or earlier work',
  '''The same work - loading, editing, querying, writing in either format, sorting, partitioning, validating, importing, exporting - gives the
  same files byte for byte, the same output, results and errors in every process and every time it is done: whatever the seed of string hashing, the
  order in which the system lists a directory and the time memory is reclaimed, and whatever corpora, files and commands the same process
  worked on before, including the same ones with other contents and work that failed or was interrupted at an arbitrary point. (Memory addresses shown by
  representations of objects are not results.)''',
  ['histories', 'configurations', 'crash_points', 'inputs'],
  '''all pieces of work, all earlier work in the process including interrupted and failing work, all hash seeds and listing orders''',
  '''The tests do everything once, and under a random hash seed look only at results that happen not to depend on it.''',
  ['xigt/codecs/xigtjson.py', XML, MODEL, 'xigt/mixins.py', 'xigt/xigtpath.py', 'xigt/query.py', 'xigt/ref.py', 'xigt/scripts/xigt_validate.py',
   'xigt/scripts/xigt_query.py', 'xigt/importers/odin.py', 'xigt/importers/toolbox.py', 'xigt/exporters/latex.py'],
  [('module-level variables, default arguments and caches', 'anything kept between calls', 'xigt/')],
  [('order of sets and dictionaries', 'xigt/'), ('absence of state between calls', 'xigt/')],
  ['files', 'standard output', 'return values', 'exit status'])

p('C20', 'Attribute, namespace and metadata lookups follow the present containers',
  '''Looking up an attribute of an object gives its own value or, when inheriting, that of the nearest of its present containers that has
  the attribute, else the default; a prefix or namespace given with the key is resolved by the declarations in force for the object where the
  lookup starts, which are its own or else those of its nearest container that has any; metadata is found likewise, and selecting members by
  namespace gives exactly those in it. This holds after every history of edits (attributes, declarations, members and metadata moved between containers
  or replaced, refused additions), of earlier or interrupted lookups, and for IGTs of corpora in every loading mode.''',
  ['histories', 'inputs', 'configurations'],
  '''all corpora, all histories of edits, lookups and loading steps, all loading modes''',
  '''The tests look up a few attributes of fresh objects; nothing is moved, edited or lazily loaded, and no inherited attribute has a namespace.''',
  [MIX, 'xigt/metadata.py', MODEL],
  [('parent link', 'the present container', MIX), ('nsmap', 'declarations', MIX)],
  [('get_attribute', MIX), ('get_meta', 'xigt/metadata.py'), ('select', MIX)], ['return values'])

p('C21', 'Objects are equal exactly when their contents are, however they came about',
  '''Two objects of the model (corpora, IGTs, tiers, items, metadata, metas and their children) compare equal (==) exactly when they are of the
  same kind and have the same id, type, attributes, namespace, name, text and metadata and equal members in the same order, no matter whether they
  were built, read from XigtXML or XigtJSON or edited and edited back, to what extent a lazily loaded corpus is loaded, what contains them and
  which prefixes are declared. Inequality (!=) is always the opposite, comparison is symmetric, changes nothing even when interrupted, and comparing with
  anything else gives False rather than an error; membership tests, counts and positions in collections go by it. Corpora whose source fails never
  compare equal.''',
  ['histories', 'inputs', 'configurations', 'fault_sequences'],
  '''all pairs of objects, all histories of edits and loading, all loading modes, all failing sources and interruptions''',
  '''The tests compare a few small, completely loaded objects; they compare nothing that was read, edited or lazily loaded, and no metadata that
  differs only in depth.''',
  [MIX, 'xigt/metadata.py', MODEL],
  [('contents', 'fields and members of the objects', MODEL), ('generator', 'IGTs not loaded yet', MODEL)],
  [('__eq__/__ne__', MIX), ('lazy iteration', MODEL)], ['results of comparisons', 'contents afterwards'])

# pure functions: listed, not claimed
p('C30', 'Alignment-expression algebra: expand, compress, split and id extraction agree',
  '''Expanding and compressing an alignment expression keep its meaning (the sequence of ids, ranges and delimiters), are inverse up to
  grouping and idempotent, and the ids, spans and selections extracted from an expression are those it mentions in order.''',
  ['inputs'], 'all alignment expressions', 'The tests sample about twenty expressions.',
  ['xigt/ref.py'], [], [('regular expressions', 'xigt/ref.py')], ['return values'])
p('C31', 'Resolving an alignment expression gives the text it denotes',
  '''Resolving an expression against a tier gives the concatenation of the selected spans of the referred items' values, with "+" joining
  directly and "," joining with a space, and fails when a referred item does not exist.''',
  ['inputs'], 'all tiers and expressions', 'The tests sample a few expressions.',
  ['xigt/ref.py', MODEL], [], [('resolve', 'xigt/ref.py')], ['return values'])
p('C32', 'Path queries select exactly the objects their grammar denotes',
  '''A path query selects exactly the objects denoted by its steps, axes, predicates, functions and alternatives, in document order.''',
  ['inputs'], 'all corpora and queries', 'The tests sample some forty queries on two corpora.',
  ['xigt/xigtpath.py'], [], [('step evaluation', 'xigt/xigtpath.py')], ['return values'])
p('C33', 'Advisory validation findings match the alignment rules',
  '''The advisory findings of validation (missing ids and types, spans out of range, overlapping spans) are exactly those the rules imply.''',
  ['inputs'], 'all corpora', 'The scripts have no tests.',
  ['xigt/scripts/xigt_validate.py'], [], [('conditions', 'xigt/scripts/xigt_validate.py')], ['printed findings'])
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for x in P:
        fh.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P), 'properties')
