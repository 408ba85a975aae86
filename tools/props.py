import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
ST='steit/src/state.rs';RT='steit/src/rt/runtime.rs';LI='steit/src/types/list.rs';MA='steit/src/types/map/map.rs'
FI='steit-derive/src/derive/field.rs';SU='steit-derive/src/derive/struct.rs';EN='steit-derive/src/derive/enum.rs'
RD='steit/src/de/reader.rs';DE='steit/src/de/de.rs';SE='steit/src/ser.rs';WF='steit/src/wire_fmt.rs';LE='steit/src/log/entry.rs'
VI='steit/src/impls/varint.rs'
p('C01','Replaying the change log reproduces the state',
 'Applying the complete change log of a state, from its first record on and in order, to a fresh root of the same type and starting contents yields a state equal to the source and with the same encoding. This holds whether the log is replayed in one go, or record batch by record batch as it is drained, for every sequence of logged mutations anywhere in the tree.',
 ['histories','programs'],'Every schema built from structs, enums, lists, maps, optional values, boxes and primitives; every finite sequence of setter, push, pop, swap-remove, insert, remove and nested mutation calls.',
 'The tests replay hand-written byte strings of one or two records on flat types; none of them feeds a produced log back, and divergence needs particular sequences of operations on nested containers.',
 [ST,LI,MA,EN,SU,FI,'steit/src/types/maybe.rs'],[('mutators log before they change',FI),('replay dispatches by path',ST)],['State::replay','Serialize::to_bytes','BufferLogger::bytes'],
 [('runtime path','where a node is in its tree',RT)])
p('C02','A snapshot at any point plus the later log equals the source',
 'For every history and every cut in it, decoding the encoding taken at the cut into a fresh root, and then replaying only the records logged after the cut, yields a state equal to the source at the end of the history, with the same encoding. Taking the snapshot neither changes the source nor logs anything.',
 ['histories','crash_points'],'All cut points of all bounded histories of all root schemas.',
 'No test combines an encoding and a log; the cut point and the history are both universally quantified.',
 [ST,SE,DE,LI,MA,EN],[('decoding sets the runtime of every node','with_runtime in '+LI+', '+MA)],['Deserialize::merge','State::replay','Serialize::to_bytes'])
p('C03','Rebuilt states log further changes exactly like the original',
 'A root rebuilt by decoding a snapshot or by replaying a log, under its own logger, is indistinguishable from the original from then on: any further mutation made to both, at any depth, returns the same result and produces byte-identical log records, which can be replayed in turn.',
 ['histories'],'All bounded histories used to rebuild, times all further bounded sequences of mutations.',
 'Tests check logs only of states built directly, never of nodes created by decoding or replaying, whose position must have been wired by each container.',
 [LI,MA,EN,SU,ST],[('children get their runtime on decode and replay','merge and handle in '+LI+', '+MA+', '+EN)],['BufferLogger::bytes'])
p('C04','Every mutation logs exactly the records describing it',
 'A logged mutation of an attached node appends exactly these records, addressed by the current position of the node, before returning: an update with the encoding of the new value for a field set or a map insertion, one more update of the whole enum first when the setter switches its variant, a push with the item, a pop, a pop then an update of the filled slot for a swap-remove of an item other than the last, and a removal with the key. Building a value inside a mutator taking a closure, reading, encoding, decoding, replaying, setting an unlogged field, and operations with no effect (popping an empty list, swap-removing out of bounds, removing an absent key) append nothing.',
 ['histories','programs'],'Every mutator at every position of every reachable state within bounds.',
 'Tests assert the log bytes of about ten individual calls on depth-1 states.',
 [FI,LI,MA,RT,LE],[('setters',FI),('log_* helpers',RT)],['BufferLogger::bytes','BufferLogger::pluck'])
p('C05','Encoding then decoding gives the value back',
 'Decoding the encoding of a value of any supported type gives an equal value, both standalone and as a length-prefixed nested value, consuming exactly the encoded bytes. Encoding the decoded value gives the same bytes again, except for hash maps, whose order is unspecified.',
 ['inputs','programs'],'All values, up to size bounds, of all supported types: integers, booleans, strings, raw bytes, vectors, options, tuples, arrays, hash maps, boxes, lists, maps, derived structs and enums, and their nestings.',
 'Tests round-trip tens of individual values of single types.',
 ['steit/src/impls','steit/src/types',SU,EN,SE,DE],[('serializer and merger of every type','steit/src/impls')],['Serialize::to_bytes','Deserialize::deserialize'])
p('C06','Encoded sizes are exact and never stale',
 'The size computed for a value, and each nested length prefix written, always equals the number of bytes which then get written, whatever was computed, encoded, mutated, cloned or replayed earlier in any order. Encoding is repeatable: it changes nothing observable, and depends only on the current contents, so a value equals a freshly built one byte for byte.',
 ['histories'],'All interleavings of mutations with size computations and encodings of the value or of any part of it.',
 'Tests encode freshly built values, so a size cached by an earlier encoding cannot be stale in them.',
 [SE,'steit/src/rt/size_cache.rs',SU,EN,LI,MA],[('size cache refreshed before writing','cache_size in '+SE)],['Serialize::compute_size','Serialize::to_bytes','Serialize::serialize_nested'],
 [('size cache','size of the last computation','steit/src/rt/size_cache.rs')])
p('C07','Encodings and logs follow the documented wire format',
 'Encodings are exactly those of the wire format: base-128 varints, zigzag for signed integers, field tags made of number and wire type, length-prefixed sized values, fields in declaration order, default integers and empty sized values omitted as struct fields but never as items, variant tag first, and containers as the plain concatenation of their items. Log records are encoded in the same format, each one length-prefixed.',
 ['inputs','programs'],'All values, up to size bounds, of all supported types, and the records of all bounded histories.',
 'Tests compare some dozens of byte strings; deployed clients in another language decode all of them.',
 [SE,WF,LE,'steit/src/impls','steit/src/types',SU,EN],[('nested serialization',SE)],['Serialize::to_bytes','BufferLogger::bytes'])
p('C08','Decoding arbitrary bytes is total, bounded and faithful to the format',
 'Decoding any byte string into any type returns either a value or an error: it never panics, overflows, loops forever, or allocates memory beyond a small multiple of the input length, even if declared sizes are huge or varints overlong. Input which is valid in the wire format decodes to the value it denotes, and input which is not (truncated values, illegal wire types, unknown variants, out-of-range map keys, invalid text) is an error; the value of a varint exceeding the range of its type is unspecified.',
 ['inputs'],'All byte strings up to a length bound over an alphabet covering each byte class of the type, plus all single and double edits of valid encodings.',
 'Malformed input is hardly tested at all; the quantifier is over all inputs an untrusted or outdated peer could send.',
 [RD,DE,VI,WF,'steit/src/impls','steit/src/types',SU,EN],[('Reader and Eof',RD)],['Deserialize::deserialize','Deserialize::merge'])
p('C09','A torn log never applies a partial record',
 'When a log is cut at any byte, replaying it applies exactly the records which are complete, in order: it succeeds if the cut is on a record boundary, and otherwise reports an error, leaving the state as after the last complete record. A nested value shorter than its declared size is likewise always an error, never a silently shortened value.',
 ['crash_points','histories'],'Every byte cut of the log of every bounded history; every byte cut of every length-prefixed encoding.',
 'No test truncates any input.',
 [ST,RD,DE],[('nested readers enforce the declared size',RD),('a record is decoded before being applied',ST)],['State::replay','Deserialize::deserialize_nested'])
p('C10','Schemas can evolve by adding and removing fields',
 'Data encoded with one version of a schema decodes with another one: fields unknown to the reader are skipped wherever they appear and however long, fields missing from the data keep their default, fields known to both keep their value, and a field whose wire type has changed is skipped. This holds at every depth, inside lists, maps, options and enum variants.',
 ['inputs','programs'],'All ordered pairs of schema versions of a family, all values within bounds, and all unknown fields injected at all field boundaries.',
 'One test skips one-byte unknown fields; skipping depends on the wire type, the length and the nesting of what is skipped.',
 [DE,RD,SU,EN,WF],[('unknown fields are skipped','merger in '+SU),('mismatched wire types are skipped',DE)],['Deserialize::deserialize'])
p('C11','Decoding into an existing value merges as specified',
 'Merging an encoding into an existing value sets scalars, merges structs field by field and maps key by key, appends to lists, vectors and raw bytes, replaces strings, tuples and array prefixes, switches an enum to the encoded variant, or merges into it if it is the same, and logs nothing. Merging two encodings of a struct, list, map or vector in turn equals merging their concatenation.',
 ['inputs','histories'],'All pairs and triples of values within bounds, for all supported types.',
 'Tests merge single hand-written byte strings into single values.',
 [DE,LI,MA,SU,EN,'steit/src/impls'],[('merge','Deserialize::merge of every type')],['Deserialize::merge'])
p('C12','Results do not depend on how I/O is chunked or interrupted',
 'Decoding and replaying give the same result for any reader delivering the same bytes, whatever the chunk sizes and interruptions; a read error at any point is returned, with complete earlier records of a replay applied and nothing of later ones. Encoding gives the same bytes to any writer, however short its writes; a write error at any point is returned, and a later encoding of the same value is again correct and complete.',
 ['fault_sequences','inputs'],'All chunkings of short inputs, with interruptions at any call, and an error at every call.',
 'Every test reads from a slice and writes to a vector.',
 [RD,SE,ST,'steit/src/impls'],[('retry of interrupted reads',RD)],['Deserialize::merge','State::replay','Serialize::steit_serialize'])
p('C13','Pausing a logger suppresses exactly what happens while paused',
 'While at least one pause of a logger is outstanding, through whichever node it was requested, nothing is logged by any node sharing the logger, and mutations otherwise behave the same; once as many unpauses have been made, logging resumes, and unpausing a logger which is not paused has no effect. Both calls return the number of outstanding pauses. Closures building values for mutators neither pause nor unpause the logger for anyone, even if they panic.',
 ['histories'],'All sequences up to a length bound of pauses, unpauses, mutations at several nodes, closures, panicking closures and drains.',
 'No test pauses a logger.',
 ['steit/src/rt/logger.rs',RT,LI,MA,FI],[('pause counter','steit/src/rt/logger.rs')],['Runtime::pause_logger','Runtime::unpause_logger','BufferLogger::bytes'],
 [('paused','number of outstanding pauses','steit/src/rt/logger.rs')])
p('C14','Concurrent changes to disjoint parts lose or garble no record',
 'When several threads change disjoint parts of a state sharing one logger, while another may drain it, under every interleaving each record is logged exactly once and whole, in program order for each thread, records which one operation logs as a batch stay adjacent and are drained together, and replaying the log reproduces the final state. No interleaving deadlocks.',
 ['schedules'],'All interleavings, up to a preemption bound, of two or three threads performing one to three operations each.',
 'Tests are single-threaded.',
 [RT,'steit/src/rt/logger.rs','steit/src/log/logger.rs',LI,MA,FI],[('one lock acquisition per operation',RT)],['BufferLogger::pluck_bytes','State::replay'],
 [('logger mutex','serializes records',RT)],'steit/src/rt/sync.rs with --cfg steit_mc')
p('C15','A shared value can be encoded by several threads at once',
 'When several threads encode, measure or clone the same value through shared references at the same time, under every interleaving each of them gets exactly the bytes and sizes which it would get alone, and later encodings are unaffected.',
 ['schedules'],'All interleavings, up to a preemption bound, of two or three threads encoding or measuring a shared value or parts of it.',
 'Tests are single-threaded; the size cache written during encoding is shared mutable state.',
 ['steit/src/rt/size_cache.rs',SE,SU,EN,LI,MA],[('atomic size cache','steit/src/rt/size_cache.rs')],['Serialize::to_bytes'],
 [('size cache','written by readers','steit/src/rt/size_cache.rs')],'steit/src/rt/sync.rs with --cfg steit_mc')
p('C16','Invalid log records are rejected and change nothing',
 'Replaying a record which does not fit the state (unknown field, index out of bounds, absent key, a variant other than the current one, path too long or too short, a kind the node does not support, a key out of range, an undecodable value) returns an error and leaves the state exactly as before that record; a fitting record has exactly its documented effect, and neither ever panics or logs. Replaying on anything but a root is refused.',
 ['inputs','histories'],'All records over an alphabet of kinds, paths, keys and values, applied to all states reachable within bounds.',
 'Four tests cover one rejection each; acceptance is a predicate over all pairs of states and records.',
 [ST,LI,MA,EN,SU,FI,'steit/src/impls/macros.rs'],[('handle of every type',ST)],['State::replay'])
p('C17','Nodes log under where they are now, and nowhere once removed',
 'However a value has come into a tree (moved in, built in place, cloned, decoded, moved from another tree or another position), its later changes are logged only to the logger of that tree, under its current position, including after siblings have been swapped or replaced. Once a value has been removed from its list or map by a pop, swap-removal, removal or overwriting insertion, changes to it are logged in no tree.',
 ['histories'],'All bounded histories of moves, removals, re-insertions and nested changes over two trees with separate loggers.',
 'Tests check the log of values built in place only; none moves a value or changes a removed one.',
 [LI,MA,FI,EN,SU,'steit/src/types/maybe.rs','steit/src/impls/box.rs'],[('set_runtime on insertion and removal',LI)],['BufferLogger::bytes','State::runtime'],
 [('runtime','logger and path of a node',RT)])
p('C18','Lists and maps behave like a vector and a keyed map',
 'Under every sequence of operations, a list returns, contains, indexes and iterates over what a vector with the same operations would, and a map what a keyed map would (each key at most once, returning what was replaced or removed, iteration giving every pair once with its original key). Setters, optional values and enum accessors likewise read back what has been set, and leave everything else unchanged.',
 ['histories'],'All bounded operation sequences over colliding keys and indexes, including out-of-bounds ones, from empty and large containers.',
 'Tests run one fixed sequence of at most four operations for each method.',
 [LI,'steit/src/types/map',FI,'steit/src/types/maybe.rs'],[('inner Vec and IndexMap',MA)],['List and Map methods'])
p('C19','Equality and hashing follow contents only',
 'Two values of a derived type, list or map are equal exactly when their compared contents are, regardless of their logger, position, cached sizes and history, and, for maps, order of insertion; equality is an equivalence. Fields opted out of equality affect neither equality nor hash, fields opted out of hashing affect equality only, and equal values have equal hashes.',
 ['inputs','histories'],'All pairs and triples of values within bounds, each reached through different histories.',
 'Tests use equality to assert, but never check it; hashing is not tested.',
 [FI,SU,EN,'steit/src/rt/size_cache.rs',RT,LI,MA],[('derived PartialEq and Hash',FI)],['PartialEq','Hash'])
p('C20','The derive accepts exactly the well-formed schemas',
 'Deriving succeeds for a well-formed schema, and is a compile error for any other: a missing, duplicate or reserved tag, a tag beyond the maximum of the wire format, an enum with no variants or no variant tagged 0, a union, const generics, and unknown, repeated or ill-typed options. Nothing else about a schema (order, gaps between tags, extreme tags, tuple or unit shape, generics, combination of options, legal names of fields and variants, raw identifiers, being in a function, a macro or another edition) makes it fail, unless names of methods generated for it clash with each other or with the user\'s own.',
 ['programs','configurations'],'All small schemas over an alphabet of shapes, tags and options.',
 'There is no test of a rejected schema, and accepted ones are a handful.',
 ['steit-derive/src',],[('schema validation','steit-derive/src/derive/field.rs, struct.rs, enum.rs, tag.rs, attr.rs')],['rustc diagnostics'])
p('C21','Generated client code agrees with the wire schema',
 'For every message reachable from the roots given, the generated client code declares each field and variant with the tag, wire type and type that the server encodes and logs it with, generates every reachable non-builtin message exactly once and no other, and is deterministic. Naming overrides affect only names, and the option to skip generation affects only which files get written.',
 ['programs','configurations'],'All schemas of a bounded grammar, as roots alone and together, under all generator settings.',
 'The generator test writes files, and never looks at them.',
 ['steit/src/gen','steit/src/meta',SU,EN,FI],[('generation from metadata','steit/src/gen/generators/csharp.rs')],['generated files'])
p('C22','Runtime metadata describes schemas exactly',
 'The metadata of a type lists precisely its fields and variants, in declaration order, with their names, tags, type parameters and type expressions, whether it is built in, and its links cover exactly the types of its fields; following links from any type terminates and reaches every message used by it.',
 ['programs'],'All schemas of a bounded grammar, including generic and recursive ones.',
 'Nothing tests metadata except by running the generator on one set of types.',
 ['steit/src/meta',SU,EN,FI,'steit/src/impls','steit/src/types'],[('derived HasMeta',SU)],['HasMeta'])
p('C23','Log sinks receive every record once, in order, and can fail safely',
 'Each record logged reaches the sink once, whole and in order: a buffering sink gives back precisely what was logged since the last time it was emptied, a writing sink writes each record once, and a sink can be inspected or replaced at any time with no loss or repetition. When a sink fails or panics on a record, the mutation being logged is not made, the failure is not silent, and an unaffected sink or state keeps working.',
 ['fault_sequences','histories'],'All sequences up to a length bound of mutations, drains, replacements and failures at every record.',
 'The buffering sink is only used to inspect a few logs; no test has a sink fail.',
 ['steit/src/log','steit/src/rt/logger.rs',RT,FI,LI,MA],[('records are logged before the change is made',FI)],['Logger::log','BufferLogger','WriterLogger'])
p('C24','Varints and field tags are exact for every 32-bit value',
 'For every integer of up to 32 bits, signed or not, encoding takes precisely the predicted, minimal number of bytes, and decoding it gives the integer back. For every 32-bit tag, it is either split into a field number and wire type which compose back to it, or rejected exactly if its wire type is not one of the two in use; composing rejects exactly the field numbers above the maximum.',
 ['inputs'],'All 2^32 values of each kind; for 64-bit integers, all values with at most three bits different from 0, -1 or a power of two.',
 'Tests check about ten values per type.',
 [VI,WF,'steit/src/impls/bool.rs'],[('varint and size functions',VI)],['Serialize','Deserialize','wire_fmt::tag','wire_fmt::parse_tag'])
p('C25','A C# client mirrors the server exactly',
 'For any schema, the C# code generated for it compiles with the C# runtime, and decodes every value encoded by the server, or by a server with another version of the schema, to what it stands for. A client which starts from a snapshot and replays the log of any history of mutations has the contents of the server after every record, each nested state knowing its path, and ignores changes of what its version does not know. For each record replayed, it raises exactly the one event due, of the container which changes, with its tag, old and new values.',
 ['histories','programs','inputs'],'All histories up to a length bound over states of many schemas, all bounded values of all types, pairs of versions, and names clashing with keywords of C#.',
 'The C# runtime and generated code are never run by the test suite; a program in the repository which replays one log has to be run by hand.',
 ['steit-csharp/src','steit/src/gen/generators/csharp.rs','steit/src/gen'],[('replaying records','steit-csharp/src/State/StateReplayer.cs'),('decoding fields','steit-csharp/src/State/State.cs'),('generated replacement of fields','steit/src/gen/generators/csharp.rs')],['C# clients: Deserialize, StateReplayer.Replay, events'])
open('properties.jsonl','w').write(''.join(json.dumps(d)+'\n' for d in P))
for d in P:
    assert len(d['title'])<=80,(d['id'],len(d['title']))
print(len(P))
