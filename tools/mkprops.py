#!/usr/bin/env python3
"""Source of properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe or [], "hook_needed": None}})


I = "src/core/index/"
S = "src/core/search/"
A = "src/core/analysis/"
T = "src/core/store/"
U = "src/core/util/"
CO = "src/contrib/"

prop("C01", "The index holds exactly what the sequence of writer calls says it holds",
     "After any sequence of adding, updating, deleting (by term, by query, all), flushing, merging, optimising, expunging, importing other indexes, committing and re-opening the writer, a newly opened reader sees exactly the documents that a sequential execution of the committed calls leaves alive, each exactly once, in insertion order, with the content it was given. Deletes apply only to documents added before them, and updates replace atomically. No writer setting (buffer limits, merge factor, merge policy, merge scheduler, compound files, pooled readers) changes that outcome.",
     ["histories", "configurations"],
     "every finite sequence of writer operations, under every writer configuration, over every document content",
     "The tests run a few dozen fixed scripts with fixed settings; a deleted document coming back or a document being lost depends on the interleaving of buffered deletes, flush boundaries, merges and commits, of which there are unboundedly many.",
     [I + "IndexWriter.cpp", I + "DocumentsWriter.cpp", I + "BufferedDeletes.cpp", I + "SegmentMerger.cpp", I + "SegmentInfos.cpp", I + "LogMergePolicy.cpp", I + "SegmentReader.cpp", U + "BitVector.cpp"],
     [("buffered deletes with per-term document limits", I + "DocumentsWriter.cpp: applyDeletes, addDeleteTerm, remapDeletes"),
      ("merge and commit of merged deletions", I + "IndexWriter.cpp: commitMerge, commitMergedDeletes, merge"),
      ("merge selection", I + "LogMergePolicy.cpp")],
     ["IndexReader::open after each commit", "IndexWriter::getReader", "IndexWriter::numDocs/maxDoc"])
prop("C02", "An open reader is an immutable snapshot; reopening shows exactly the present",
     "Everything a reader returns (documents, deletions, terms, postings, norms, vectors) stays the same for as long as it is open, whatever writers or other readers do to the index, even after the files it uses have been deleted from the directory listing. Reopening or cloning a reader yields the state of the latest commit (or, for a near-real-time reader, every change made through its writer so far), returns the same reader exactly when nothing changed, and never alters the reader it came from.",
     ["histories", "configurations"],
     "every interleaving of writer operations, reader opens, reopens, clones, closes and searches",
     "Reopen tests compare a handful of fixed histories; sharing of segment state between generations goes wrong only for particular combinations of deletes, norm changes, merges and reference-count transitions.",
     [I + "DirectoryReader.cpp", I + "SegmentReader.cpp", I + "ReadOnlyDirectoryReader.cpp", I + "ReadOnlySegmentReader.cpp", I + "IndexWriter.cpp", I + "IndexFileDeleter.cpp", I + "IndexReader.cpp", I + "MultiReader.cpp", I + "ParallelReader.cpp"],
     [("segment reopen and copy-on-write of deletions and norms", I + "SegmentReader.cpp: reopenSegment, deletedDocsRef, Norm::copyOnWrite"),
      ("reader reopening", I + "DirectoryReader.cpp: doReopen"),
      ("near-real-time readers", I + "IndexWriter.cpp: getReader, ReaderPool")],
     ["full logical dump of a reader, repeated over its life", "isCurrent", "reopen identity"])
prop("C03", "A crash at any point leaves the last commit intact and the index usable",
     "If the process or machine stops at any point of any operation, with every file that was not yet synced lost, truncated or scrambled, the index can be opened afterwards and holds exactly the state of the last completed commit (or of the commit in progress, if it had become visible), never a mixture. A writer can then be opened on it, continues correctly, and removes leftovers of the interrupted work.",
     ["crash_points", "histories"],
     "every directory operation at which a crash can occur, in every history of writer operations, with every survival pattern of unsynced data",
     "The crash tests stop at three or four fixed points and keep all files as they are; the order of syncing, writing the commit point and deleting old files only matters for specific crash positions and losses.",
     [I + "SegmentInfos.cpp", I + "IndexWriter.cpp", I + "IndexFileDeleter.cpp", T + "ChecksumIndexOutput.cpp", T + "ChecksumIndexInput.cpp", I + "DirectoryReader.cpp"],
     [("two-phase commit with checksum and sync before publish", I + "SegmentInfos.cpp: prepareCommit, finishCommit; IndexWriter.cpp: startCommit, finishCommit"),
      ("latest readable commit lookup with fallback", I + "SegmentInfos.cpp: FindSegmentsFile"),
      ("removal of unreferenced files", I + "IndexFileDeleter.cpp")],
     ["IndexReader::open / IndexWriter open on the surviving files", "CheckIndex"])
prop("C04", "I/O failures never lose committed documents or corrupt the index",
     "When any read, write, sync, create, delete or open operation of the underlying directory fails (once, repeatedly, or because space ran out), the failing call reports an error or completes correctly, and the index on disk remains openable and holds either the last successful commit or that state plus a complete later commit. After the fault clears, the writer or a new writer works normally, and already open readers are unaffected.",
     ["fault_sequences", "histories"],
     "every placement of one or more directory faults in every history of writer and reader operations",
     "The disk-full and exception tests inject faults at a few named points; error paths (partial flush, aborted merge, half-written commit, failed delete) have as many entry points as there are I/O calls.",
     [I + "IndexWriter.cpp", I + "DocumentsWriter.cpp", I + "IndexFileDeleter.cpp", I + "SegmentReader.cpp", I + "DirectoryReader.cpp", I + "SegmentInfos.cpp", I + "CompoundFileWriter.cpp"],
     [("abort and rollback paths", I + "DocumentsWriter.cpp: abort; IndexWriter.cpp: doFlush, mergeMiddle, startTransaction, rollbackTransaction"),
      ("reader commit rollback", I + "DirectoryReader.cpp: doCommit, rollbackCommit")],
     ["state after reopening", "errors reported to the caller"])
prop("C05", "Commit, two-phase commit, rollback and deletion policies mean what they say",
     "Rollback discards exactly the changes since the last commit; a prepared commit becomes visible exactly when it is completed and never when it is rolled back; a commit kept by the deletion policy (or a held snapshot) stays fully readable with its own contents and user data, and one can open a writer on it to go back to it. Once a commit is deleted by the policy its files go away unless something still refers to them, and no unreferenced index file survives the closing of a writer.",
     ["histories", "configurations"],
     "every sequence of commit, prepareCommit, rollback, close, snapshot and release under every deletion policy",
     "Fixed scripts test each policy once with fixed counts; reference counting of files shared by several commits, readers and snapshots depends on the history.",
     [I + "IndexWriter.cpp", I + "IndexFileDeleter.cpp", I + "SnapshotDeletionPolicy.cpp", I + "KeepOnlyLastCommitDeletionPolicy.cpp", I + "SegmentInfos.cpp", I + "IndexCommit.cpp", I + "DirectoryReader.cpp"],
     [("file reference counts per commit", I + "IndexFileDeleter.cpp: incRef, decRef, checkpoint, deleteCommits"),
      ("transactional writer state", I + "IndexWriter.cpp: prepareCommit, rollbackInternal, finishCommit")],
     ["IndexReader::listCommits", "opening each listed commit", "directory listing"])
prop("C06", "The inverted index is an exact inversion of the tokens that were indexed",
     "For any documents, the set of terms, their order, their document lists, frequencies, positions, payloads and document frequencies, and the per-document length norms read back from an index equal those computed directly from the token streams, with position gaps between field values, skipped over-long terms, truncation at the maximum field length and omitted frequencies or norms as documented. Term seeking and posting skipping land where stepping through would. This holds whatever the segmentation, term-index interval, merging and deletions.",
     ["inputs", "configurations", "histories"],
     "every collection of documents (any Unicode terms, any number of fields, values, tokens, gaps and payloads) and every way of writing it",
     "Tests index a few short texts; skip-list levels, prefix-compressed terms across index intervals, byte-slice boundaries in the in-memory postings, and payload length changes only show for particular sizes and sequences.",
     [I + "TermsHashPerField.cpp", I + "FreqProxTermsWriter.cpp", I + "FreqProxTermsWriterPerField.cpp", I + "TermInfosWriter.cpp", I + "TermInfosReader.cpp", I + "SegmentTermEnum.cpp", I + "SegmentTermDocs.cpp", I + "SegmentTermPositions.cpp", I + "DefaultSkipListReader.cpp", I + "MultiLevelSkipListReader.cpp", I + "MultiLevelSkipListWriter.cpp", I + "SegmentMerger.cpp", I + "DocInverterPerField.cpp", I + "NormsWriter.cpp", I + "ByteSliceReader.cpp", I + "ByteSliceWriter.cpp"],
     [("in-memory inversion", I + "TermsHashPerField.cpp, FreqProxTermsWriterPerField.cpp"),
      ("on-disk term dictionary and skip data", I + "TermInfosWriter.cpp, MultiLevelSkipListWriter.cpp"),
      ("merging of postings", I + "SegmentMerger.cpp")],
     ["IndexReader::terms, termDocs, termPositions, docFreq, norms"])
prop("C07", "Stored fields come back exactly as they were stored",
     "Every stored field value of every live document is returned with the same name, order, type and content (any Unicode text, any bytes, empty values, repeated fields), for every way of selecting or lazily loading fields, before and after merging, and from every storage format. Fields not marked as stored never come back, and compressing and decompressing a value restores it.",
     ["inputs", "configurations", "histories"],
     "every document content, field selector and segment history",
     "The tests store short fixed strings; bulk-copy merging, lazily loaded values, multi-byte text and buffer-boundary lengths are sampled at single points.",
     [I + "FieldsWriter.cpp", I + "FieldsReader.cpp", I + "StoredFieldsWriter.cpp", I + "SegmentMerger.cpp", "src/core/document/Field.cpp", "src/core/document/Document.cpp", "src/core/document/CompressionTools.cpp", "src/core/document/MapFieldSelector.cpp", "src/core/document/SetBasedFieldSelector.cpp"],
     [("stored-field encoding and raw merging", I + "FieldsWriter.cpp, FieldsReader.cpp, SegmentMerger.cpp: mergeFields, copyFieldsWithDeletions")],
     ["IndexReader::document with every kind of selector"])
prop("C08", "Term vectors equal the tokens of their document",
     "For a field indexed with term vectors, the stored vector of each document lists exactly the distinct terms of that field in order, with the exact frequencies, and the exact positions and character offsets when these were requested, including for several values per field; documents or fields without vectors have none. Merging, deleting and every way of reading the vector (whole document, single field, mapper) give the same answer.",
     ["inputs", "configurations", "histories"],
     "every document collection, vector option and segment history",
     "Tests use one or two small documents per option; prefix-shared terms, several field instances, many documents, raw-copy merges and mixed options per segment multiply beyond samples.",
     [I + "TermVectorsTermsWriter.cpp", I + "TermVectorsTermsWriterPerField.cpp", I + "TermVectorsWriter.cpp", I + "TermVectorsReader.cpp", I + "SegmentMerger.cpp", I + "SortedTermVectorMapper.cpp", I + "FieldSortedTermVectorMapper.cpp", I + "PositionBasedTermVectorMapper.cpp", I + "SegmentTermPositionVector.cpp", I + "SegmentTermVector.cpp"],
     [("vector writing and merging", I + "TermVectorsTermsWriterPerField.cpp: finish; SegmentMerger.cpp: mergeVectors")],
     ["IndexReader::getTermFreqVector(s)"])
prop("C09", "Search results do not depend on how the index is laid out",
     "The same documents give the same hits, order and scores for the same query, whether they are in one segment or many, compound or plain files, in memory or on disk, optimised or not, imported from other indexes, or searched through a multi-reader, a parallel reader, a sequential or concurrent multi-searcher or a filtering reader.",
     ["configurations", "inputs"],
     "every partition of every document collection into segments, directories, readers and searchers, and every query and sort",
     "Each wrapper is tested with a couple of two-way splits and fixed queries; document-number offsets, merged term enumeration, global document frequencies and tie-breaking across sub-indexes depend on the split.",
     [I + "MultiReader.cpp", I + "ParallelReader.cpp", I + "DirectoryReader.cpp", S + "MultiSearcher.cpp", S + "ParallelMultiSearcher.cpp", S + "IndexSearcher.cpp", U + "ReaderUtil.cpp", I + "FilterIndexReader.cpp", S + "FieldDocSortedHitQueue.cpp", S + "HitQueue.cpp", I + "CompoundFileReader.cpp", I + "CompoundFileWriter.cpp"],
     [("merged readers and document bases", I + "DirectoryReader.cpp: MultiTermEnum, MultiTermDocs; MultiReader.cpp"),
      ("distributed search with global statistics", S + "MultiSearcher.cpp: createWeight, CachedDfSource; ParallelMultiSearcher.cpp")],
     ["search results, scores, enumerations"])
prop("C10", "A query matches exactly the documents it describes",
     "For every nesting of term, boolean (required, optional, prohibited, minimum-should-match), disjunction-max, constant-score, match-all, filtered, phrase and multi-phrase clauses, the set of matching documents equals the set obtained by evaluating the query's definition on each live document by itself, whichever collector, top-N size or scoring order is used. Combining or rewriting a query never changes what it matches.",
     ["inputs", "programs"],
     "every query tree over every document collection",
     "Boolean tests compare a few hand-made queries with expected lists; scorer composition (conjunction, disjunction, exclusion, coordination, minimum match, out-of-order collection) has unboundedly many shapes.",
     [S + "BooleanQuery.cpp", S + "BooleanScorer.cpp", S + "BooleanScorer2.cpp", S + "ConjunctionScorer.cpp", S + "DisjunctionSumScorer.cpp", S + "ReqExclScorer.cpp", S + "ReqOptSumScorer.cpp", S + "DisjunctionMaxScorer.cpp", S + "PhraseQuery.cpp", S + "ExactPhraseScorer.cpp", S + "MultiPhraseQuery.cpp", S + "ConstantScoreQuery.cpp", S + "FilteredQuery.cpp", S + "TermScorer.cpp", S + "IndexSearcher.cpp"],
     [("scorer composition", S + "BooleanScorer2.cpp, BooleanScorer.cpp, ConjunctionScorer.cpp"),
      ("rewriting", S + "BooleanQuery.cpp: rewrite; DisjunctionMaxQuery.cpp: rewrite")],
     ["Searcher::search with collectors, filters and top-N"])
prop("C11", "Prefix, wildcard, fuzzy and range queries match exactly their terms",
     "A prefix, wildcard, fuzzy or term-range query matches exactly the documents containing at least one term that satisfies its definition (prefix; pattern with single- and multi-character wildcards; edit-distance similarity above the threshold with the common prefix; code-unit interval with open or closed, inclusive or exclusive ends). Every rewrite strategy gives the same matches, and exceeding the clause limit is reported rather than silently truncated.",
     ["inputs", "configurations"],
     "every pattern, bound and threshold over every term dictionary",
     "The tests try a few dozen fixed patterns over a fixed vocabulary; pattern backtracking, edit-distance pruning and range ends at dictionary edges fail on particular combinations.",
     [S + "PrefixQuery.cpp", S + "PrefixTermEnum.cpp", S + "WildcardQuery.cpp", S + "WildcardTermEnum.cpp", S + "FuzzyQuery.cpp", S + "FuzzyTermEnum.cpp", S + "TermRangeQuery.cpp", S + "TermRangeTermEnum.cpp", S + "MultiTermQuery.cpp", S + "FilteredTermEnum.cpp", S + "MultiTermQueryWrapperFilter.cpp", S + "PrefixFilter.cpp", S + "TermRangeFilter.cpp"],
     [("term filtering enumerations", S + "WildcardTermEnum.cpp: wildcardEquals; FuzzyTermEnum.cpp: similarity"),
      ("rewrite strategies", S + "MultiTermQuery.cpp")],
     ["matching documents per rewrite method"])
prop("C12", "Numeric fields and numeric ranges agree with numeric order",
     "For 32-bit, 64-bit and floating point values and every precision step, a numeric range query or filter matches exactly the documents having a value inside the interval (open, closed, half-open or unbounded), sorting and range-filtering by the numeric field follow numeric order, and the encoded form round-trips and preserves order.",
     ["inputs", "configurations"],
     "every multiset of numeric values including the extremes, every interval and every precision step",
     "The tests use evenly spaced values with steps 2, 4 and 8; the trie splitting has corner cases at each precision boundary, at sign changes and at the extremes.",
     [U + "NumericUtils.cpp", S + "NumericRangeQuery.cpp", S + "NumericRangeFilter.cpp", A + "NumericTokenStream.cpp", "src/core/document/NumericField.cpp"],
     [("range splitting", U + "NumericUtils.cpp: splitRange, addRange"),
      ("prefix-coded terms", U + "NumericUtils.cpp; NumericTokenStream.cpp")],
     ["matching documents", "encoded strings"])
prop("C13", "Positional (span) queries match exactly the described positions",
     "Span term, first, near (ordered and unordered, any slop), or, not and field-masked queries, in any nesting, enumerate exactly the position ranges their definition gives on each live document, in order, and match exactly the documents having at least one; sloppy phrases match exactly when the terms can be moved into place within the slop. Skipping ahead in an enumeration equals stepping.",
     ["inputs", "programs"],
     "every nesting of positional operators over every token sequence",
     "The tests enumerate a few spans over fixed sentences; ordered-near shrinking, unordered windows, overlaps and nested operators depend on specific position patterns.",
     [S + "spans/NearSpansOrdered.cpp", S + "spans/NearSpansUnordered.cpp", S + "spans/SpanNearQuery.cpp", S + "spans/SpanNotQuery.cpp", S + "spans/SpanOrQuery.cpp", S + "spans/SpanFirstQuery.cpp", S + "spans/TermSpans.cpp", S + "spans/SpanScorer.cpp", S + "spans/FieldMaskingSpanQuery.cpp", S + "SloppyPhraseScorer.cpp", S + "PhraseScorer.cpp", S + "PhrasePositions.cpp", S + "PhraseQueue.cpp"],
     [("span enumeration", S + "spans/*"), ("phrase position alignment", S + "SloppyPhraseScorer.cpp, ExactPhraseScorer.cpp")],
     ["SpanQuery::getSpans", "matching documents"])
prop("C14", "Scores follow the documented formula and explanations account for them",
     "The score of every hit equals the value given by the documented scoring formula (term frequency, inverse document frequency, length norms, boosts, coordination, query normalisation, disjunction-max, constant, function and payload scores) computed from the index contents, to rounding. The explanation of a hit has the same value and reports a match exactly for matching documents, and the score does not depend on the collector, on top-N or on other hits.",
     ["inputs", "programs"],
     "every query tree, boost, similarity and document collection",
     "Explanation tests use four fixed documents; normalisation, coordination counts and boost propagation through nested and rewritten queries combine in unboundedly many ways.",
     [S + "TermQuery.cpp", S + "TermScorer.cpp", S + "BooleanQuery.cpp", S + "DisjunctionMaxQuery.cpp", S + "Similarity.cpp", S + "DefaultSimilarity.cpp", S + "PhraseQuery.cpp", S + "spans/SpanWeight.cpp", S + "function/CustomScoreQuery.cpp", S + "function/ValueSourceQuery.cpp", S + "payloads/PayloadTermQuery.cpp", S + "payloads/PayloadNearQuery.cpp", S + "ConstantScoreQuery.cpp", U + "SmallDouble.cpp", S + "Explanation.cpp"],
     [("weights and normalisation", S + "*Query.cpp: sumOfSquaredWeights, normalize, explain"), ("norm encoding", U + "SmallDouble.cpp")],
     ["scores and explanations"])
prop("C15", "Top hits and sorting return the right documents in the right order",
     "Asking for the best N hits returns exactly the first N of the complete ranking: by descending score with ties in document order, or by the requested sort keys (score, document, string, integer, long, floating point, byte, custom; ascending or reversed, several keys), with missing values placed as documented, correct total hit count and maximum score, and field values equal to the indexed ones. Results are the same for every N and paging offset, in-order or out-of-order collection and any segmentation.",
     ["inputs", "configurations"],
     "every multiset of keys and scores, every N and sort specification",
     "Sort tests use one fixed 10-document index; comparator state across segments, queue overflow, ties and sentinels fail for specific orders of arrival.",
     [S + "TopFieldCollector.cpp", S + "TopScoreDocCollector.cpp", S + "TopDocsCollector.cpp", S + "FieldValueHitQueue.cpp", S + "FieldComparator.cpp", S + "SortField.cpp", S + "FieldCacheImpl.cpp", S + "HitQueue.cpp", "include/lucene++/PriorityQueue.h"],
     [("collectors", S + "TopFieldCollector.cpp, TopScoreDocCollector.cpp"), ("comparators across segments", S + "FieldComparator.cpp: setNextReader, convert")],
     ["TopDocs / TopFieldDocs"])
prop("C16", "Filters restrict exactly, and caching them never changes an answer",
     "Searching with a filter returns exactly the hits of the unfiltered search that the filter accepts, with unchanged scores and order. Every filter (range, prefix, numeric, cached-field range and terms, query-wrapping, span, chained sets) accepts exactly the documents its definition says, and a cached filter or cached field values give, at every moment including after deletions and reopening, the same answer as the uncached computation.",
     ["inputs", "histories"],
     "every filter and query over every sequence of index changes and reopens",
     "Filter tests check two or three documents; staleness of caches and iterator alignment between filter and scorer depend on histories and on bit patterns.",
     [S + "CachingWrapperFilter.cpp", S + "CachingSpanFilter.cpp", S + "FilteredQuery.cpp", S + "QueryWrapperFilter.cpp", S + "FieldCacheRangeFilter.cpp", S + "FieldCacheTermsFilter.cpp", S + "FieldCacheImpl.cpp", S + "SpanQueryFilter.cpp", S + "FilterManager.cpp", S + "IndexSearcher.cpp", S + "FilteredDocIdSet.cpp", S + "NumericRangeFilter.cpp", S + "TermRangeFilter.cpp"],
     [("filtered search loop", S + "IndexSearcher.cpp: searchWithFilter"), ("filter caches", S + "CachingWrapperFilter.cpp: FilterCache")],
     ["filtered search results over reader generations"])
prop("C17", "Every document iterator honours the advance contract",
     "For every scorer, filter set, bit-set, span and posting iterator, stepping enumerates strictly increasing live documents, and any mixture of stepping and skipping to a target visits exactly the first document at or after each target, ending exactly at exhaustion. The score or frequency read at a document is the same however it was reached.",
     ["inputs", "histories"],
     "every iterator over every document set and every mixture of step and skip calls",
     "Skipping is exercised by one generic helper with a few fixed patterns; which branch of a composite iterator runs depends on relative positions of its parts.",
     [S + "BooleanScorer2.cpp", S + "ConjunctionScorer.cpp", S + "DisjunctionSumScorer.cpp", S + "DisjunctionMaxScorer.cpp", S + "ReqExclScorer.cpp", S + "ReqOptSumScorer.cpp", S + "TermScorer.cpp", S + "PhraseScorer.cpp", S + "spans/SpanScorer.cpp", U + "OpenBitSetIterator.cpp", U + "SortedVIntList.cpp", S + "FilteredDocIdSetIterator.cpp", U + "ScorerDocQueue.cpp", I + "SegmentTermDocs.cpp"],
     [("advance implementations", S + "*Scorer.cpp: advance")],
     ["docID, nextDoc, advance, score, freq"])
prop("C18", "The query parser accepts or rejects every string cleanly and means what it says",
     "Any input string either yields a query or a parse error, never a crash, hang or other failure. A parsed query has the structure the documented grammar assigns (operators, precedence, required/prohibited marks, fields, boosts, phrases with slop, ranges, wildcards, fuzziness, escapes); text made of escaped characters is searched literally; and the printed form of a parsed query parses back to an equal query.",
     ["inputs", "configurations"],
     "every string, default operator and parser setting",
     "The parser tests contain a few hundred literal strings; a hand-translated tokenizer state machine has far more transitions than that.",
     ["src/core/queryparser/QueryParser.cpp", "src/core/queryparser/QueryParserTokenManager.cpp", "src/core/queryparser/FastCharStream.cpp", "src/core/queryparser/MultiFieldQueryParser.cpp", S + "BooleanQuery.cpp", S + "PhraseQuery.cpp", S + "TermRangeQuery.cpp"],
     [("generated lexer and recursive descent parser", "src/core/queryparser/QueryParserTokenManager.cpp, QueryParser.cpp")],
     ["QueryParser::parse, Query::toString, QueryParser::escape"])
prop("C19", "Tokenizers cut text exactly as documented, with faithful offsets",
     "For any text, each tokenizer and analyzer (whitespace, letter, lower-case, keyword, standard, stop-word, n-gram, edge n-gram, and the language-specific ones) yields the tokens its rules define; every token's offsets lie inside the original text, never go backwards and delimit the characters the token came from, also through character filters, and position increments are as documented. Case folding and accent folding give the documented replacement.",
     ["inputs"],
     "every Unicode text of any length",
     "Analyzer tests check literal sentences; buffer-boundary lengths, unusual characters and rule interactions in the hand-translated scanner are not sampled.",
     [A + "CharTokenizer.cpp", A + "standard/StandardTokenizer.cpp", A + "standard/StandardTokenizerImpl.cpp", A + "standard/StandardFilter.cpp", A + "KeywordTokenizer.cpp", A + "StopFilter.cpp", A + "LowerCaseFilter.cpp", A + "LengthFilter.cpp", A + "ASCIIFoldingFilter.cpp", A + "ISOLatin1AccentFilter.cpp", A + "MappingCharFilter.cpp", A + "BaseCharFilter.cpp", A + "ngram/NGramTokenizer.cpp", A + "ngram/EdgeNGramTokenizer.cpp", A + "ngram/NGramTokenFilter.cpp", A + "ngram/EdgeNGramTokenFilter.cpp", CO + "analyzers/common/analysis/cjk/CJKTokenizer.cpp", CO + "analyzers/common/analysis/cn/ChineseTokenizer.cpp"],
     [("buffered scanning and offset correction", A + "CharTokenizer.cpp, StandardTokenizerImpl.cpp, BaseCharFilter.cpp")],
     ["token stream attributes"])
prop("C20", "Reusing, caching or sharing an analyzer never changes its tokens",
     "An analyzer gives the same tokens for a text whether its stream is new or reused, whatever was analysed before (including abandoned, empty or failing inputs) and in whichever thread; resetting a cached or tee'd stream replays exactly the same tokens; and per-field wrapping delegates to exactly the chosen analyzer. This covers every analyzer and filter, including the language-specific and stemming ones.",
     ["inputs", "histories"],
     "every analyzer, every sequence of texts and every pattern of partial consumption and reset",
     "Tests analyse a handful of texts in one order; leftover state in reused buffers shows only for particular previous inputs.",
     [A + "Analyzer.cpp", A + "CachingTokenFilter.cpp", A + "TeeSinkTokenFilter.cpp", A + "PerFieldAnalyzerWrapper.cpp", U + "AttributeSource.cpp", A + "StopAnalyzer.cpp", A + "standard/StandardAnalyzer.cpp", CO + "analyzers/common/analysis", CO + "snowball", A + "PorterStemFilter.cpp"],
     [("per-thread reusable streams", A + "*Analyzer.cpp: reusableTokenStream"), ("state capture", U + "AttributeSource.cpp: captureState, restoreState")],
     ["token stream attributes across calls"])
prop("C21", "Directories store and return bytes faithfully",
     "For every directory implementation (memory, simple file, memory-mapped, file-switch, compound, copies between them) and every sequence of writes, seeks, flushes, partial reads and clones, reading returns exactly the bytes, integers, variable-length numbers, strings and maps that were written at those positions; clones move independently; lengths, listings, deletions and existence are exact; and reading past the end is an error, not data.",
     ["inputs", "histories", "configurations"],
     "every sequence of file operations with every value and every buffer size",
     "Store tests write a few patterns around the default buffer size; buffer refills, large skips and clone interaction fail at particular offsets.",
     [T + "RAMDirectory.cpp", T + "RAMInputStream.cpp", T + "RAMOutputStream.cpp", T + "SimpleFSDirectory.cpp", T + "MMapDirectory.cpp", T + "FSDirectory.cpp", T + "BufferedIndexInput.cpp", T + "BufferedIndexOutput.cpp", T + "IndexInput.cpp", T + "IndexOutput.cpp", T + "FileSwitchDirectory.cpp", I + "CompoundFileReader.cpp", I + "CompoundFileWriter.cpp", T + "ChecksumIndexInput.cpp", T + "ChecksumIndexOutput.cpp", T + "Directory.cpp"],
     [("buffering and seeking", T + "BufferedIndexInput.cpp, BufferedIndexOutput.cpp, RAMOutputStream.cpp"), ("encodings", T + "IndexOutput.cpp, IndexInput.cpp")],
     ["IndexInput / IndexOutput / Directory API"])
prop("C22", "Text encodings of numbers, dates and bytes round-trip and keep order",
     "Encoding then decoding a number, date, binary value, norm or Unicode string returns the original (rounded to the documented resolution or precision), decoding rejects or safely handles malformed input, and where the encoding is documented as sortable, comparing two encoded values gives the same answer as comparing the originals.",
     ["inputs"],
     "every value of the type, and every pair of values",
     "The tests check a few constants; boundaries of ranges, negative values and multi-byte sequences are where encodings break.",
     [U + "NumericUtils.cpp", "src/core/document/NumberTools.cpp", "src/core/document/DateTools.cpp", "src/core/document/DateField.cpp", U + "Base64.cpp", U + "SmallDouble.cpp", U + "UTF8Stream.cpp", U + "StringUtils.cpp", "src/core/document/CompressionTools.cpp", U + "CharFolder.cpp", U + "UnicodeUtils.cpp"],
     [("encoders and decoders", "the files above")],
     ["encode/decode functions"])
prop("C23", "Bit sets, integer lists, heaps and caches behave like the sets they model",
     "Under every sequence of operations the deletion bit vector, the open and plain bit sets, the compressed integer list, the bounded priority queue and the least-recently-used cache give the same answers (membership, counts, set algebra, next element, equality, eviction order, serialised form read back) as an ordinary mathematical set, sorted list or map.",
     ["histories", "inputs"],
     "every sequence of operations with every index and size",
     "The tests use random bits at a few sizes; word-boundary ranges, growth, sparse/dense formats and ties are specific inputs.",
     [U + "BitVector.cpp", U + "OpenBitSet.cpp", U + "BitSet.cpp", U + "BitUtil.cpp", U + "OpenBitSetDISI.cpp", U + "OpenBitSetIterator.cpp", U + "SortedVIntList.cpp", "include/lucene++/PriorityQueue.h", "include/lucene++/SimpleLRUCache.h", U + "DocIdBitSet.cpp", U + "ScorerDocQueue.cpp"],
     [("bit arithmetic", U + "OpenBitSet.cpp, BitUtil.cpp, BitVector.cpp")],
     ["their public operations"])
prop("C24", "Highlighting marks exactly the matching text and preserves the rest",
     "For any text and query, removing the markup from a highlighted fragment (and undoing the encoder) gives a contiguous piece of the original text; taken together without a length limit the fragments are the whole text; every marked stretch is the text of tokens that the query matches, every such token in a returned fragment is marked, and the fragments returned are the best scoring ones. The result is the same from re-analysis and from stored term vectors.",
     ["inputs", "programs"],
     "every text, query, analyzer and fragment size",
     "The highlighter tests compare fixed strings; token groups, fragment merging, overlapping tokens and text longer than the analysis limit vary per input.",
     [CO + "highlighter/Highlighter.cpp", CO + "highlighter/TokenGroup.cpp", CO + "highlighter/SimpleFragmenter.cpp", CO + "highlighter/SimpleSpanFragmenter.cpp", CO + "highlighter/QueryScorer.cpp", CO + "highlighter/QueryTermScorer.cpp", CO + "highlighter/QueryTermExtractor.cpp", CO + "highlighter/WeightedSpanTermExtractor.cpp", CO + "highlighter/TokenSources.cpp", CO + "highlighter/SimpleHTMLEncoder.cpp"],
     [("fragment assembly", CO + "highlighter/Highlighter.cpp: getBestTextFragments, mergeContiguousFragments")],
     ["Highlighter output"])
prop("C25", "A single-document memory index answers like a real index",
     "For any field texts or token streams, a memory index holding them gives for every query the same match decision and the same score as an ordinary index that contains just that document, and enumerates the same terms, frequencies, positions and norms.",
     ["inputs", "programs"],
     "every document and every query",
     "The memory index test compares fixed queries over fixed files; its own term and position structures are a second implementation that must agree everywhere.",
     [CO + "memory/MemoryIndex.cpp"],
     [("in-memory reader", CO + "memory/MemoryIndex.cpp: MemoryIndexReader, MemoryIndexTermEnum, MemoryIndexTermPositions")],
     ["MemoryIndex::search, createSearcher"])
prop("C26", "At most one writer holds an index, whichever lock implementation is used",
     "While one writer (or modifying reader) is open on an index, opening another one fails with a lock error after at most the given timeout and changes nothing; once it is closed, crashed-and-unlocked or rolled back, the next one succeeds. Every lock implementation reports held and free states truthfully, locks of different names or directories are independent, and releasing happens only by the holder or by explicit unlocking (which native locks refuse while the holder lives).",
     ["histories", "configurations"],
     "every sequence of obtaining, releasing, opening, closing and unlocking over every lock implementation",
     "Lock tests try one obtain/obtain/release script per implementation.",
     [T + "NativeFSLockFactory.cpp", T + "SimpleFSLockFactory.cpp", T + "SingleInstanceLockFactory.cpp", T + "NoLockFactory.cpp", T + "Lock.cpp", T + "LockFactory.cpp", T + "Directory.cpp", I + "IndexWriter.cpp", I + "DirectoryReader.cpp"],
     [("write lock life cycle", I + "IndexWriter.cpp: ConstructIndexWriter, closeInternal, rollbackInternal; DirectoryReader.cpp: acquireWriteLock")],
     ["makeLock/obtain/release/isLocked", "IndexWriter and IndexReader modification"])
prop("C27", "A damaged commit is never taken for good; the index check tells the truth",
     "If the newest commit record is altered or cut short anywhere, opening the index either falls back to an older intact commit or reports an error; it never presents wrong contents. The index check reports any index produced by the library as clean with exact document, deletion, field, term and token counts, reports missing or damaged segments, and repairing keeps exactly the undamaged segments.",
     ["inputs", "fault_sequences", "histories"],
     "every index, every damaged byte or truncation length of the commit record, every subset of damaged segments",
     "One test corrupts one file in one way.",
     [I + "SegmentInfos.cpp", T + "ChecksumIndexInput.cpp", I + "CheckIndex.cpp", I + "SegmentInfo.cpp", I + "SegmentReader.cpp"],
     [("commit checksum", I + "SegmentInfos.cpp: read"), ("consistency check", I + "CheckIndex.cpp")],
     ["IndexReader::open", "CheckIndex::checkIndex, fixIndex"])
prop("C28", "Concurrent indexing, searching and committing behave like some serial order",
     "With several threads adding, updating, deleting, committing, merging in the background, reopening and searching at once, every acknowledged change is present exactly once at the end, updates of one key never show zero or two versions to any reader, each reader shows a state that some serial order of the calls produces and never goes back in time, and no call deadlocks or crashes.",
     ["schedules", "histories"],
     "every interleaving of a bounded set of threads calling the public API",
     "Stress tests run for seconds under whatever schedule the machine gives and mostly check that nothing throws.",
     [I + "IndexWriter.cpp", I + "DocumentsWriter.cpp", I + "ConcurrentMergeScheduler.cpp", I + "DirectoryReader.cpp", I + "IndexFileDeleter.cpp", U + "Synchronize.cpp", U + "ThreadPool.cpp", S + "ParallelMultiSearcher.cpp"],
     [("per-thread document state and flush barrier", I + "DocumentsWriter.cpp: getThreadState, waitReady, pauseAllThreads"), ("background merging", I + "ConcurrentMergeScheduler.cpp")],
     ["final index contents", "reader dumps taken during the run"])
prop("C29", "Deletions and norm changes made through a reader are exact and transactional",
     "Deleting a document or all documents with a term through a reader, undoing deletions, and setting norms take effect in that reader at once, in others only after it commits and they reopen, and survive closing, merging and reopening exactly; counts of live and deleted documents stay exact. A reader that is not on the latest commit refuses to modify the index, read-only readers refuse always, and closing without commit changes nothing.",
     ["histories"],
     "every sequence of reader modifications, commits, clones, reopens and closes over every index",
     "Reader tests delete one or two documents in fixed scripts.",
     [I + "SegmentReader.cpp", I + "DirectoryReader.cpp", I + "IndexReader.cpp", I + "SegmentInfo.cpp", U + "BitVector.cpp", I + "MultiReader.cpp"],
     [("deletion and norm generations", I + "SegmentReader.cpp: doCommit, doDelete, doUndeleteAll, doSetNorm; SegmentInfo.cpp: advanceDelGen, advanceNormGen")],
     ["isDeleted, numDocs, norms, termDocs, reopen"])
prop("C30", "Query objects compare, hash, copy and print consistently",
     "Two queries built the same way are equal and have the same hash and printed form; changing any part that changes its meaning makes them unequal; a copy equals its original and is independent of it; and using a query (searching, rewriting, extracting terms, combining) never modifies it, so it can be used again with the same result.",
     ["inputs", "programs"],
     "every pair of query, filter, sort and span trees",
     "Equality tests cover one pair per class; a field left out of equality makes caches and duplicate elimination return wrong results.",
     [S + "Query.cpp", S + "BooleanQuery.cpp", S + "TermQuery.cpp", S + "PhraseQuery.cpp", S + "MultiPhraseQuery.cpp", S + "FuzzyQuery.cpp", S + "TermRangeQuery.cpp", S + "NumericRangeQuery.cpp", S + "spans/SpanNearQuery.cpp", S + "DisjunctionMaxQuery.cpp", S + "FilteredQuery.cpp", S + "SortField.cpp"],
     [("equals/hashCode/clone per class", S + "*Query.cpp")],
     ["equals, hashCode, toString, clone"])

os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    for f in p["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open("properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
