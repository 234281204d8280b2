"""Per-property check configuration: harness sources, what a case is, what is assumed."""
PROPS = {}


def P(pid, src, rule, assumptions=(), technique="", note="", **kw):
    PROPS[pid] = dict(src=src, rule=rule, assumptions=list(assumptions), technique=technique, note=note, **kw)


ENG = ("Cases are choice sequences: fresh random ones plus mutations of earlier ones that reached new code "
       "(inline coverage counters). ")

P("C23", ["c23_sets.cpp"],
  ENG + "A case is an operation sequence over one structure with a std::set/map/multiset model compared after every "
  "operation. Non-trivial: at least 3 mutating operations and a non-empty model at some point.",
  ["indices stay in the ranges the structure documents (fast* operations only inside the allocated range)"],
  technique="stateful property-based testing against set/map models",
  note="Bounded sizes (bit indices to ~5000, heaps to 40, caches to 12). Trusts std::set/std::map as the model.")

P("C01", ["common.cpp", "c01_writer.cpp"],
  ENG + "A case is a writer configuration plus 3 to 60 operations (add, update, delete by term/terms/query, commit, prepareCommit, "
  "rollback, close and reopen, merge, optimise, expunge, NRT reader, import, failing document) with every reader's full logical "
  "content compared with a sequential model. Non-trivial: at least 2 adds, at least 1 delete that hits a live document and at "
  "least 1 commit/merge/reopen.",
  ["one writer thread (concurrent merge threads included; user-level concurrency is C28)",
   "whether a field keeps positions and norms is fixed per field name"],
  technique="stateful model-based property-based testing against a sequential document-list model",
  note="Histories up to ~60 operations and ~150 small documents on RAMDirectory; model trusts Similarity::encodeNorm (pinned by C22).")

P("C03", ["common.cpp", "c03_crash.cpp"],
  ENG + "A case is a writer history on a directory that tracks which bytes were synced, with the medium's state captured before "
  "generated I/O events (densely during commits); up to 8 captures are turned into crash images (each unsynced file lost, "
  "truncated, zeroed, scrambled or complete; deletes possibly undone), opened, compared with the last completed or in-progress "
  "commit, recovered by a new writer and compared again. Non-trivial: at least 2 crash images, 2 commits and 2 added documents.",
  ["a completed sync makes a file's content durable; unsynced content may be lost or garbled per file",
   "one process, one writer thread"],
  technique="model-based property-based testing with generated crash points and crash images (fault injection)",
  level="fault_enumeration",
  note="Crash points are sampled, not exhaustively enumerated; histories up to ~30 operations; the medium is simulated.")

P("C04", ["common.cpp", "c04_faults.cpp"],
  ENG + "A case is a writer/reader history (up to 40 operations) on an in-memory directory with generated fault plans (kind of I/O "
  "event, file kind, position, single/burst/persistent, or disk-full by bytes). After every operation, failing or not, a fresh "
  "reader must show exactly the last completed commit (or, if a commit failed, that or the commit in progress); completed "
  "commits must be fully synced; held readers must not change; then the writer is rolled back or used on. When a failed writer "
  "is used on, later commits must lie between 'committed documents no delete addressed' and 'everything handed in', in order "
  "and with exact content. In the end the fault clears, the writer closes, a new writer works, no unreferenced file is left. "
  "Non-trivial: at least one call failed, 2 commits, 2 documents.",
  ["faults surface as IOException before the I/O event takes effect", "one writer thread, serial merges"],
  technique="model-based property-based testing with generated directory faults (fault injection)",
  level="fault_enumeration",
  note="Fault placements are sampled by generation, not exhaustively enumerated. Documents acknowledged but not committed when a call fails may be lost by contract of a failed flush; only committed ones are required.")

P("C05", ["common.cpp", "c05_commits.cpp"],
  ENG + "A case is a history of adds, updates, deletes, commits with user data, two-phase commits (with operations in between), rollbacks, "
  "closes, writers opened on older commits, re-creations, reader commits and snapshots under a generated deletion policy (keep last, "
  "keep all, keep N, random subset, trim newer, delete all at start). The policy itself checks the commit list it is handed; after every "
  "operation the commits listed, their contents, user data and files equal the model and after every close no other file is left. "
  "Non-trivial: at least 3 commits, 2 documents, and a commit pruned, gone back to or held by a snapshot.",
  ["one writer thread, serial merges"],
  technique="stateful model-based property-based testing (model: map from commit name to documents and user data)",
  note="Histories up to ~40 operations on RAMDirectory.")

P("C10", ["common.cpp", "qmodel.cpp", "c10_match.cpp"],
  ENG + "A case is a generated index (documents with stacked and gapped positions, several segments, deletions) and up to 6 query "
  "trees over all query classes; the set of collected documents (in-order and out-of-order collection, top-N totals, rewritten, "
  "combined and cloned forms) equals a reference evaluation over the documents' tokens. Non-trivial: at least 3 documents and a "
  "query that matches some but not all live documents.",
  ["sloppy phrases that repeat a term are only bounded from both sides (their exact matching is not specified in 3.0)"],
  technique="property-based testing against a reference query evaluator",
  note="Indexes up to 30 documents (one sub-check up to 6500), query depth up to 3.")

P("C14", ["common.cpp", "qmodel.cpp", "c14_score.cpp"],
  ENG + "A case is a generated index and up to 5 query trees (or payload, function and custom-score queries, or a generated similarity); "
  "every hit's score equals the reference evaluation of the documented formula, every explanation equals the score and every node "
  "of it is what its description says of its details. Non-trivial: a query with at least two hits.",
  ["default similarity except where the similarity is generated; queries whose score is unspecified ("
   "sloppy phrases repeating a term) are checked against their explanation only"],
  technique="property-based testing against a reference scorer; metamorphic relation score = explanation",
  note="Indexes up to 30 documents; relative tolerance 1e-9 (1e-6 for explanations).")

P("C11", ["common.cpp", "qmodel.cpp", "c11_multiterm.cpp"],
  ENG + "A case is a dictionary of related words (edits and prefixes of each other, also outside ASCII), an index over it and up to 6 "
  "prefix, wildcard, fuzzy or range queries under every rewrite method; matched documents, the terms rewritten to, their boosts, the "
  "too-many-clauses error, the term enumerators and the filters are compared with direct definitions (glob, edit distance, string "
  "order). Non-trivial: some but not all terms of the field match.",
  ["terms compare by code point"],
  technique="property-based testing against direct definitions of the term sets",
  note="Dictionaries of up to ~28 words of length up to ~9.")

P("C16", ["common.cpp", "qmodel.cpp", "fmodel.cpp", "c16_filters.cpp"],
  ENG + "A case is an index, filters of every kind (query, prefix, range, field cache, span, bit-set implementations, caching with every "
  "deletes mode, nested) and queries; hits and scores with the filter equal the unfiltered ones restricted by the filter's definition, "
  "also when the same filter objects are used on readers reopened after deletions and additions. Non-trivial: the filter removes some "
  "but not all hits (and, in the reopen sub-check, the index changed under the filter).",
  ["field-cache filters run on single-valued fields, as documented"],
  technique="property-based testing against reference predicates; metamorphic relation filtered = unfiltered intersected with the filter",
  note="Indexes up to 40 documents.")

P("C17", ["common.cpp", "qmodel.cpp", "fmodel.cpp", "c17_advance.cpp"],
  ENG + "A case is an index and iterators over it: scorers of generated queries (also function, custom and payload queries) on every "
  "segment, document sets of every filter and set implementation, term/position enumerations over posting lists of up to 3500 documents "
  "(several skip levels, payloads, deletions, segment/multi/parallel/filter readers, bulk reads) and span enumerations. The stepping "
  "enumeration is compared with the reference definition, then random mixtures of stepping and skipping are compared with stepping "
  "(document, score read or not, frequency, positions, payloads). Non-trivial: a skip passed over at least one entry and landed on another "
  "(for postings, over more than one skip interval).",
  ["targets are after the current document (before it the contract is unspecified)", "in-order scorers"],
  technique="property-based testing, differential: random skip/step mixtures against stepping and a reference enumeration",
  note="Indexes up to 30 documents with random queries; postings up to 3500 documents.")

P("C13", ["common.cpp", "qmodel.cpp", "c13_spans.cpp"],
  ENG + "A case is an index with generated positions (gaps, several tokens at one position) and up to 8 span queries nested up to 3 deep, "
  "near queries over terms, or sloppy phrases. The enumeration equals the reference enumeration wherever the definition fixes it, every "
  "enumerated span satisfies the declarative definition (some choice of sub-spans), near over distinct terms and sloppy phrases match "
  "exactly the documents in which positions can be chosen within the slop, and the query matches exactly the documents with spans. "
  "Non-trivial: some but not all documents match.",
  ["sloppy phrases repeating a term are covered by C10"],
  technique="property-based testing against a reference enumeration and a brute-force declarative definition",
  note="Documents of up to 16 tokens per field, up to 4 clauses per near.")

P("C15", ["common.cpp", "qmodel.cpp", "c15_sort.cpp"],
  ENG + "A case is an index with string, integer, long, double and byte fields (missing values, extremes, repeated values), queries and up "
  "to 4 sort keys of every type and direction (also with own parsers and comparators). The best N and every page, from every collector "
  "variant (in/out of order, scores, maximum, field values), the searcher and (parallel) multi-searchers equal the prefix of a "
  "complete ranking sorted by the harness; totals, maximum scores and field values too; cached values equal the indexed ones for several "
  "parsers of one field. Non-trivial: ties or several keys, and fewer hits asked for than there are.",
  ["a missing number sorts as 0, a missing string before all others", "strings compare by code point", "bytes are unsigned in this port"],
  technique="property-based testing against a complete ranking (stable sort of all hits)",
  note="Indexes up to 30 documents.")
P("C09", ["common.cpp", "qmodel.cpp", "fmodel.cpp", "c09_layout.cpp"],
  ENG + "A case is a document collection (with deletions or not), a generated layout of it (segments, merges, imports, compound files, memory, "
  "file and memory-mapped directories, NRT/cloned readers, nested multi/filter/parallel readers, nested sequential and parallel "
  "multi-searchers, empty parts) and up to 4 queries. Hits, scores, rankings, sorted results, explanations, document frequencies, "
  "enumerations, norms and field names equal those of the same documents in one plain in-memory segment. Non-trivial: more than one "
  "part, more than 3 documents, and a query hitting some but not all.",
  ["ties in score are ordered by document number; scores equal up to 1e-9 relative"],
  technique="property-based testing, differential: generated layouts against a single segment",
  note="Up to 24 documents, three levels of nesting.")
P("C22", ["common.cpp", "c22_encodings.cpp"],
  ENG + "A case is a pair of values (64/32-bit integers around powers of two and each other, doubles incl. neighbours, infinities and zeros, "
  "dates of the years 1400-9999 at every resolution, norms, byte strings up to 20000, Unicode strings up to 3000 incl. every plane) or a "
  "malformed encoding (valid ones with characters or bytes inserted, removed or replaced). The encoded form equals an independent reference "
  "encoder (base conversion, civil calendar, UTF-8/16, base 64, small floats), decodes to the original, compares like the originals; malformed "
  "input is rejected or yields something bounded, under AddressSanitizer. Non-trivial: the values differ / need several bytes / are malformed.",
  ["dates outside the years 1400-9999 (not supported by the date library), lone surrogates and values above 10FFFF (not Unicode text) are not generated"],
  technique="property-based testing: round trips, order preservation and independent reference encoders; mutation fuzzing of encoded forms",
  note="Sampled; small domains (256 norm bytes) exhaustively in each case.")
P("C12", ["common.cpp", "qmodel.cpp", "c12_numeric.cpp"],
  ENG + "A case is an index of long, int or double values (up to 25 documents; extremes, neighbours of other values, block boundaries at any bit, "
  "several or no values per document, reused field objects) with any precision step, and ranges over it (open, closed, half-open, empty, "
  "unbounded); queries under every rewrite method, numeric filters and field-cache filters must match exactly the documents whose value "
  "compares inside the bounds; sorting, cached and stored values must be the numbers; or one range whose trie pieces must be aligned, "
  "disjoint and cover exactly the range; or a numeric token stream. Non-trivial: some but not all documents match / several pieces.",
  ["doubles order by sign and magnitude (-0 below 0), as documented; NaN is not generated"],
  technique="property-based testing against numeric comparison; exact-cover invariant of the trie split",
  note="All precision steps from 1 to beyond the value size.")
P("C06", ["common.cpp", "c06_inversion.cpp"],
  ENG + "A case is a document collection (token streams with position increments of 0 to 300, position and offset gaps, payloads, terms too long to "
  "index, truncation at a maximum field length, omitted frequencies and norms, boosts, own similarities) indexed with a generated writer "
  "configuration, directory and term-index interval/divisor, with deletions, merges and optimizing; or up to 1500 documents / 15000 tokens with a "
  "Zipf vocabulary. Terms, order, postings, positions, payloads and norms equal a reference inversion; term seeking, document frequencies, bulk reads and "
  "skip/step mixtures with positions equal stepping. Non-trivial: several documents / boosted or overlapping norms.",
  ["seeking the empty term is a recorded finding of C09 and left out"],
  technique="property-based testing against a reference inversion of the generated token streams",
  note="Up to 30 documents of generated fields; up to 1500 documents or 6 documents of 15000 tokens.")
P("C07", ["common.cpp", "c07_stored.cpp"],
  ENG + "A case is a collection of documents with up to 10 fields (any Unicode text up to 3000 characters, bytes up to 70000, slices of arrays, empty values, "
  "repeated names, compressed values, numeric fields, fields not stored, reused field objects) indexed with a generated configuration, deletions, merges, imports "
  "with different field numbers, in memory, file and memory-mapped directories. Every live document is read through every kind of selector (load, lazy, size, "
  "break, skip; set, map, first-only, own), lazy fields in any order and repeatedly, and must give exactly the stored fields, in order. "
  "Non-trivial: several documents with repeated or unstored fields.",
  ["the 2.x formats are not generated (no writer for them exists)"],
  technique="property-based testing against the generated documents (round trip)",
  note="Up to 20 documents.")
P("C08", ["common.cpp", "c08_vectors.cpp"],
  ENG + "A case is a collection of documents whose fields ask for term vectors with or without positions and offsets (several values per field with different "
  "settings, gaps, overlapping and over-long tokens, truncation), indexed with a generated configuration, deletions, merges and imports. The vectors read by "
  "document, by field and through every mapper (sorted, per field, by position, own ones ignoring positions or offsets), and the look-up functions, "
  "equal a reference inversion. Non-trivial: at least two vectors of different kinds.",
  ["fields with an empty name are not generated"],
  technique="property-based testing against a reference inversion of the generated token streams",
  note="Up to 25 documents.")
P("C30", ["common.cpp", "qmodel.cpp", "fmodel.cpp", "c30_objects.cpp"],
  ENG + "An object (query, span query, payload, function and custom-score query, filter, sort; nested up to 3 deep) is built from a recorded "
  "list of choices, so the same object can be built again and a near relative can be built from a list with one or two choices changed. "
  "Same list: equal both ways, same hash, same printed form, which shows every term and bound. Changed list whose meaning differs: unequal both "
  "ways. Copies: equal, same results, and after either side is changed the other still equals a fresh build and finds the same. Use: after "
  "every search (one index, two, several at once), rewrite, term extraction, explanation, weighing, combining, nesting or copying, the object "
  "still equals a fresh build, prints and hashes the same and finds the same documents with the same scores. Non-trivial: a related object "
  "was compared (equality), the results are not empty (copying, use).",
  ["filters that define no equality of their own (document-list, prefix and cached-terms filters) are compared by identity",
   "sort objects and filters have no copies"],
  technique="property-based testing, metamorphic: objects rebuilt from the same and from mutated choice lists; fresh twin as oracle after every use",
  note="Trees up to depth 3, indexes of up to 10 documents.")

P("C21", ["common.cpp", "c21_store.cpp"],
  ENG + "A case writes one to three files at a time into a memory, simple, memory-mapped or file-switch directory (bytes, blocks with sizes "
  "around every buffer size, all number encodings at their boundaries, strings of any characters, maps, old-style characters, copies from other "
  "files, seeks back, flushes), closes, lists, deletes, replaces and copies them, and reads them through up to four cursors that clone, seek "
  "(also past the end), resize their buffers and read with and without buffering; compound files, checksummed files and memory streams likewise. "
  "The oracle is a byte array per file plus the values written at each place, with an independent encoder. Writing under a file-size limit or "
  "into a removed directory must fail or leave exactly the bytes written. Non-trivial: a block of more than 40 bytes was compared, or the limit was hit.",
  ["output seeks stay within what was written", "writeChars is given characters below U+10000 (it has no encoding for others)",
   "a clone is not used after its original is closed", "the position after a failed read is unspecified until the next seek"],
  technique="property-based testing, model-based: random file operation histories against a byte-array model",
  note="Files up to about 200 KB; at most 3 outputs and 4 cursors at a time; disk-full by RLIMIT_FSIZE.")

P("C02", ["common.cpp", "c02_snapshots.cpp"],
  ENG + "A case drives a writer through its whole life (add, update, delete, commit, prepare, merge, optimize, rollback, close and reopen, "
  "imports) with a sequential model, in memory, on disk or memory-mapped, keeping one or all commits, and meanwhile opens readers on the "
  "directory, readers from the writer, reopens, clones (both modes), readers on older commits, holds cursors on postings, and closes them in any "
  "order with shared references. At any later moment every open reader must show exactly the model state of its opening (documents, terms, "
  "postings, positions, payloads, norms, vectors, cached field values, numbering, deletions), be current exactly when no newer commit exists, "
  "reopen to itself exactly then, and reopening, cloning and closing must leave the others as they were. Readers composed of others (multi, "
  "parallel, filter) likewise. Non-trivial: at least two verifications of a reader after a newer commit, and a reopen.",
  ["a near-real-time reader whose writer is closed may refuse to reopen", "readers are not modified here (see C29)"],
  technique="stateful property-based testing: random writer and reader histories against a sequential model",
  note="Single-threaded; at most 8 open readers, 60 operations, up to 3 parts.")

P("C29", ["common.cpp", "c29_modify.cpp"],
  ENG + "A case builds an index with a generated writer history and then lets up to six readers (modifiable, read-only, on older commits, "
  "clones that take over pending changes, reopened ones) delete by number and by term, undelete, set norms (bytes and floats, also for fields or "
  "segments without norms), commit, flush, close, and fail in the middle of a commit through injected I/O errors, with writer sessions (merging, "
  "deleting, importing) in between. The oracle keeps, per reader, every document's deletion flag and every norm byte: a change shows in its reader "
  "at once and in a new reader exactly after the commit, counts are exact, refusals (read-only, overtaken by a newer commit, locked) happen exactly "
  "when they must, and after merging everything the live documents have the norms that were set. The same through multi and parallel readers. "
  "Non-trivial: at least two modifications and a commit.",
  ["document numbers are in range", "closing a reader commits its changes (documented)", "a reader explicitly opened on an older commit may modify it while no newer commit appears; I/O errors are not injected while it commits (an unreadable newer commit counts as an aborted one)"],
  technique="stateful property-based testing with fault injection against a per-reader state model",
  note="Up to 6 readers, about 60 operations; single-threaded; in-memory directory with injected faults.")

P("C26", ["common.cpp", "c26_locks.cpp"],
  ENG + "A case sets up one to three index directories (RAM or file system, other spellings and links of the same path, names outside ASCII, "
  "locks kept in the index or in a directory they share) with native, simple, single-instance or no locks, then runs obtain, timed obtain, "
  "release, clear, drop and status calls on up to eight lock objects, with other processes taking native locks; or opens (also creating), commits, "
  "closes, rolls back and abandons writers and modifying readers and unlocks. The oracle is a table of holders: who gets a lock, who is refused, what "
  "isLocked says, that a refusal leaves every file as it was and that the holder goes on undisturbed. Threads compete for one lock (never two holders), "
  "and timed waits end when the lock is freed or the time is over. Non-trivial: at least two acquisitions and one refusal.",
  ["releasing single-instance and simple locks is unconditional by contract (it is what unlocking uses), so non-holders release them only where the lock is known not to be in use",
   "where locks are kept in a directory of their own, an index is always named by the same path"],
  technique="stateful property-based testing against a table of lock holders, with other processes and threads",
  note="Timing is only bounded from above, generously. The thread sub-check depends on the schedule the machine gives.")

P("C25", ["common.cpp", "qmodel.cpp", "c25_memory.cpp"],
  ENG + "A case is a document (up to 4 fields in any order, as texts with an analyzer or as token streams with generated position "
  "increments, offsets and boosts, tokenless fields and refused additions in between) put both into a memory index and into an "
  "ordinary one-document index, with or without a similarity of its own. Sub 'queries' compares match, score, explanation, search() "
  "and sorted search for generated queries of every kind; 'enumeration' compares term enumerations from anywhere, document "
  "frequencies, postings objects driven by generated seek/next/skipTo/read sequences, positions, norms, vectors and mapped vectors; "
  "'lifetime' uses enumerations after the index was let go. Non-trivial: a query that matches (queries); at least 2 tokens and 2 "
  "comparisons (enumeration).",
  ["tokens are not empty (a memory index skips them by contract)", "no payloads (a memory index does not support them)",
   "a field whose stream yields no token counts as not added"],
  technique="differential property-based testing: memory index against an ordinary index of the same document",
  note="The ordinary index is itself decided by C06, C08, C10, C14. Documents of up to 4 fields and ~60 tokens.")

P("C27", ["common.cpp", "c27_damage.cpp"],
  ENG + "Subs record/everyByte/hintFile: a writer history under a policy that keeps 1, 2, 3 or all commits; then the newest commit record "
  "(or segments.gen) is damaged - bits flipped, bytes overwritten, zeroed, exchanged, cut at any length; everyByte goes through every "
  "byte and every length - and after each damage the index is opened by reader, writer, commit listing, version, user data and check: each "
  "raises a Lucene error or presents exactly what one of the commits held (segments.gen: the newest). cleanIndex: every number the "
  "check reports equals the one computed from the documents. damagedSegments: files of generated segments are removed or cut; the "
  "check must report every segment that lacks a file and every one whose visible content changed, call the others good, and the repair "
  "keep exactly the good ones. Non-trivial: at least 3 damages over at least 2 documents; at least 2 segments and 3 documents; "
  "at least one damaged segment and one document kept.",
  ["damage to segment files means removed or cut files (the file formats have no checksums; altered bytes of stored text cannot be told)",
   "one damage at a time to the commit record"],
  technique="fault-injecting property-based testing (generated and exhaustive damage) against a model of the commits",
  level="fault_enumeration",
  note="everyByte is exhaustive over single-byte and truncation damage per generated record; the rest is sampled.")

P("C18", ["common.cpp", "c18_parser.cpp"],
  ENG + "A reference parser (longest-match lexer with the four lexical states, recursive descent, field queries from the analysed words) "
  "says for every string what query it means or that it is rejected. Sub 'grammar' compares the full structure (operators, marks, "
  "fields, boosts, phrase positions and slop, ranges with dates, wildcard, prefix, fuzzy, rewrite method) for strings grown from the "
  "grammar, mutated, or thrown together from syntax fragments, Unicode and NULs, several per parser object and under all settings; "
  "'large' places tokens across the reading buffer's refills, and clauses and nesting by the thousand; 'literal' searches escaped text "
  "as term, phrase, field, prefix, fuzzy and range end; 'printed' parses, prints and parses back; 'multiField' covers "
  "MultiFieldQueryParser with boosts and its static forms. Non-trivial: at least one accepted string using two or more kinds of "
  "construct (grammar), accepted or deep input (large), text with a character of the syntax (literal), several clauses with some other "
  "construct (printed), expansion over fields (multiField).",
  ["printed forms are judged for terms without syntax characters, dropped or stacked words and date ranges, under the OR operator: "
   "printing does not escape and does not know the parser's settings", "wildcard and prefix terms lose their escapes (as in Lucene 3.0)",
   "nesting deeper than about a thousand may be rejected, but not crash"],
  technique="differential property-based testing against a reference lexer and recursive-descent parser; print/parse round trip",
  note="Strings up to a few hundred characters, 'large' to about 500 000. Dates through DateTools (decided by C23).")

P("C20", ["common.cpp", "anal.cpp", "c20_reuse.cpp"],
  ENG + "35 ready-made analyzers (core, every language of contrib, Snowball) and generated chains of 14 tokenizers and 46 filters over "
  "generated texts (words of many languages with their endings, mail addresses, hosts, numbers, CJK, symbols, long words, ends of the "
  "tokenizers' buffers). The oracle is a new analyzer used once for that text. Sub 'history' drives one instance through texts read to "
  "the end, abandoned, failing in the reader, handed over in pieces; 'words' requires the tokens of a word not to depend on the words "
  "before it; 'threads' shares one analyzer between 2-4 threads over several rounds; 'replay' reads cached streams and tee sinks (with "
  "filters, two sources) partly and repeatedly; 'perField' interleaves fields of a wrapper; 'attributes' runs capture, restore, clone, "
  "copy and clear against a model. Non-trivial: at least two tokens and an odd or second use before (history), more than 2 tokens "
  "(words), more than 4 tokens (threads), two tokens (replay), two fields of which one has its own analyzer (perField), a restored state and two sources (attributes).",
  ["a consumer calls reset() before reading, as the indexer and the query parser do"],
  technique="stateful property-based testing: reused, cached, shared streams against a new analyzer for each text; model of the attributes",
  note="Texts of up to 8 words, sometimes up to 8 200 characters; the thread schedules are those the machine gives.")

P("C19", ["common.cpp", "anal.cpp", "c19_tokens.cpp"],
  ENG + "texts of many languages, grammar fragments and buffer-length runs, read whole or in pieces. The references are written from the "
  "documentation: the standard tokenizer's grammar as an automaton built from its rules (longest match, first rule), the run and bigram "
  "rules of the other tokenizers, Porter's algorithm as tables, folding and lower-casing from the Unicode database (tools/mkunicode.py), "
  "stop, length, n-gram, elision, normalisation and reversal filters as functions of token lists. Subs: 'chains' (14 tokenizers under up "
  "to three of 20 filters), 'grammar' (dense standard-tokenizer strings), 'analyzerRules', 'ngrams', 'porter', 'charFilters' (a mapping "
  "filter against longest-match replacement with the origin of each character), 'offsets' (order and bounds for 35 analyzers), 'unicode' "
  "(all characters below U+20000 whose properties are stable). Non-trivial: at least two tokens; a changed word (porter); a changed text (charFilters).",
  ["character classes are compared only where Unicode 3.2 and the current version agree",
   "the French, German, Dutch, Brazilian, Russian and Snowball stemmers have no reference here; C20 decides that they do not crash or depend on history"],
  technique="differential property-based testing against reference tokenizers, filters and stemmer; exhaustive check of character tables",
  note="Texts of up to 40 words, sometimes up to 20 000 characters.")

NOT_APPLICABLE = {}
