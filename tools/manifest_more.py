check('C13', 'explicit-state enumeration of all sequences of pauses, unpauses, mutations and closures, on the real code against a reference model, and of schedules of threads pausing', 'Sequences up to 4 (5 thorough) over alphabets of nodes, mutations and closures of two trees sharing a logger; schedules of two threads with up to 4 preemptions (unbounded in the thorough tier). ' + TRUST)
check('C23', 'fault enumeration: all histories times all records at which a sink errs or panics and all writes which fail, on the real code against a reference model, and schedules of threads replacing the sink', 'Histories up to 3 mutations; operations on a buffering sink up to 4 (6 thorough); schedules of three threads with up to 2 preemptions (5 thorough). ' + TRUST)
check('C21', 'explicit-state enumeration of schemas, settings and sequences of generations on the real generator, against expectations made along with the schemas', 'All schemas within bounds (type expressions of up to three constructors, permutations of tags, graphs of up to 3 messages), under all settings for those reaching few messages. Generated C# is parsed and judged by what its properties, constructors and switches say, not compiled. The wire types and tags expected are validated by decoding, encoding and replaying each field on the real code.')
check('C22', 'exhaustive exploration of the graph of metadata links from every root of an enumerated space of schemas, on the real code', 'All schemas within bounds, each link compared with the type it stands for in the schema. Boxes are transparent.')
check('C20', 'exhaustive enumeration of schemas within bounds, each expanded by the real derive and compiled, against verdicts worked out from what each schema is made of', 'Up to 3 fields or variants with tags out of 8 (all combinations in the thorough tier), every option in every place and form, once, twice and along with any other; generics, subsets of derives, types, names, macros. Trusts rustc to report an error for what does not compile, and the verdicts (derive/schemas.py).')
check('C25', 'explicit-state enumeration of mutation histories on the real server code, with the real C# client code (runtime, and what the real generator writes) executed by an interpreter of C# in lockstep with a reference model', 'Histories up to 3 mutations from new, built and large states of about 55 schemas; all bounded values of about 280 types; all pairs of versions; types and variants named like keywords. The interpreter (mc/src/cs), written for this as no .NET is installed, covers the part of C# in use and more; a construct which it does not know is reported as not judged, in the evidence. Events of variants changing are only checked as far as logs of a server bring them about (there are none; enums are replaced as a whole).')
