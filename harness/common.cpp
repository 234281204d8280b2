#include "common.h"
#include "ConcurrentMergeScheduler.h"
#include "SerialMergeScheduler.h"
#include "LogByteSizeMergePolicy.h"
#include "LogDocMergePolicy.h"
#include "IndexInput.h"
#include "IndexOutput.h"
#include "StringUtils.h"
#include <algorithm>
#include <cmath>

namespace vf {

std::string exceptionText(const LuceneException& e) { return narrow(e.getError()) + " (type " + str((int)e.getType()) + ")"; }

// ------------------------------------------------------------------------------- streams
SpecStream::SpecStream(const std::vector<Tok>& t, int endOffset) : toks(t), finalOffset(endOffset) {
    term = addAttribute<TermAttribute>();
    off = addAttribute<OffsetAttribute>();
    inc = addAttribute<PositionIncrementAttribute>();
    for (auto& k : t) payloads |= k.hasPay;
    if (payloads) pay = addAttribute<PayloadAttribute>();
}

bool SpecStream::incrementToken() {
    if (upto >= toks.size()) return false;
    clearAttributes();
    const Tok& k = toks[upto++];
    if (!k.t.empty() && k.t[0] == L'!') boost::throw_exception(IOException(L"stream told to fail"));
    term->setTermBuffer(String(k.t));
    off->setOffset(k.so, k.eo);
    inc->setPositionIncrement(k.inc);
    if (k.hasPay) pay->setPayload(newLucene<Payload>(toBytes(k.pay)));
    return true;
}

void SpecStream::end() { off->setOffset(finalOffset, finalOffset); }

std::vector<Tok> blankTokens(const std::wstring& s) {
    std::vector<Tok> r;
    size_t i = 0;
    while (i < s.size()) {
        while (i < s.size() && s[i] == L' ') ++i;
        size_t b = i;
        while (i < s.size() && s[i] != L' ') ++i;
        if (i > b) { Tok k; k.t = s.substr(b, i - b); k.so = (int)b; k.eo = (int)i; r.push_back(k); }
    }
    return r;
}

TokenStreamPtr BlankAnalyzer::tokenStream(const String& fieldName, const ReaderPtr& reader) {
    std::wstring s;
    wchar_t buf[512];
    int n;
    while ((n = reader->read(buf, 0, 512)) > 0) s.append(buf, n);
    return newLucene<SpecStream>(blankTokens(s), (int)s.size());
}

AnalyzerPtr blankAnalyzer(int posGap, int offGap) { return newLucene<BlankAnalyzer>(posGap, offGap); }

// ------------------------------------------------------------------------------- documents
ByteArray toBytes(const std::string& s) {
    ByteArray b = ByteArray::newInstance((int)s.size());
    for (size_t i = 0; i < s.size(); ++i) b[(int)i] = (uint8_t)s[i];
    return b;
}
std::string fromBytes(const ByteArray& b, int off, int len) {
    std::string s;
    for (int i = 0; i < len; ++i) s += (char)b[off + i];
    return s;
}
std::string hex(const std::string& s) {
    static const char* H = "0123456789abcdef";
    std::string r;
    for (unsigned char ch : s) { r += H[ch >> 4]; r += H[ch & 15]; }
    return r;
}
std::string hexb(const ByteArray& b) { return b ? hex(fromBytes(b, 0, b.size())) : "null"; }

std::wstring DocSpec::first(const std::wstring& f) const {
    for (auto& x : fields) if (x.name == f) return x.text;
    return L"";
}
std::wstring DocSpec::id() const { return first(L"id"); }

FieldSpec keyword(const std::wstring& name, const std::wstring& v, bool stored) {
    FieldSpec f;
    f.name = name; f.kind = KEYWORD; f.text = v; f.stored = stored; f.omitNorms = true;
    return f;
}
FieldSpec text(const std::wstring& name, const std::wstring& v, bool stored) {
    FieldSpec f;
    f.name = name; f.kind = TEXT; f.text = v; f.stored = stored;
    return f;
}

DocumentPtr build(const DocSpec& d) {
    DocumentPtr doc = newLucene<Document>();
    doc->setBoost(d.boost);
    for (auto& f : d.fields) {
        FieldPtr x;
        Field::Store st = f.stored ? Field::STORE_YES : Field::STORE_NO;
        switch (f.kind) {
            case TEXT: x = newLucene<Field>(f.name, f.text, st, f.omitNorms ? Field::INDEX_ANALYZED_NO_NORMS : Field::INDEX_ANALYZED, f.tv); break;
            case KEYWORD: x = newLucene<Field>(f.name, f.text, st, f.omitNorms ? Field::INDEX_NOT_ANALYZED_NO_NORMS : Field::INDEX_NOT_ANALYZED, f.tv); break;
            case STREAM: x = newLucene<Field>(f.name, newLucene<SpecStream>(f.toks, f.endOffset), f.tv); x->setOmitNorms(f.omitNorms); break;
            case STOREDTEXT: x = newLucene<Field>(f.name, f.text, Field::STORE_YES, Field::INDEX_NO); break;
            case BINARY: x = newLucene<Field>(f.name, toBytes(f.bin), Field::STORE_YES); break;
        }
        if (f.indexed()) { x->setBoost(f.boost); x->setOmitTermFreqAndPositions(f.omitTf); }
        doc->add(x);
    }
    return doc;
}

std::string describe(const DocSpec& d) {
    std::string s = "{";
    for (auto& f : d.fields) {
        static const char* K[] = {"text", "stream", "kw", "stored", "bin"};
        s += " " + narrow(f.name) + ":" + K[f.kind] + (f.stored ? "+s" : "") + (f.tv ? "+tv" + str((int)f.tv) : "") + (f.omitNorms ? "-n" : "") + (f.omitTf ? "-tf" : "");
        if (f.boost != 1.0) s += "^" + str(f.boost);
        if (f.kind == BINARY) s += "=0x" + hex(f.bin);
        else if (f.kind == STREAM) {
            s += "=[";
            for (auto& t : f.toks) s += narrow(t.t) + "/" + str(t.inc) + "(" + str(t.so) + "-" + str(t.eo) + ")" + (t.hasPay ? "p" + hex(t.pay) : "") + " ";
            s += "]";
        } else s += "=\"" + narrow(f.text) + "\"";
    }
    return s + (d.boost != 1.0 ? " ^" + str(d.boost) : "") + " }";
}

std::map<std::wstring, InvField> invert(const DocSpec& d, int posGap, int offGap, int maxFieldLength) {
    std::map<std::wstring, InvField> r;
    struct St { int pos = 0, off = 0; };
    std::map<std::wstring, St> st;
    for (auto& f : d.fields) {
        if (!f.indexed()) continue;
        InvField& v = r[f.name];
        St& s = st[f.name];
        if (!v.indexed) { v.indexed = true; v.boost = d.boost; }
        v.omitNorms |= f.omitNorms;
        v.omitTf |= f.omitTf;
        v.tv |= Field::isStored(f.tv);
        v.tvPos |= Field::withPositions(f.tv);
        v.tvOff |= Field::withOffsets(f.tv);
        if (v.length > 0) s.pos += posGap;
        bool any = false;
        if (f.kind == KEYWORD) {
            if (f.text.size() < 16384) v.terms[f.text].push_back(Occ{s.pos, s.off, s.off + (int)f.text.size(), false, ""});
            s.off += (int)f.text.size();
            ++v.length;
            ++s.pos;
            any = !f.text.empty();
        } else {
            std::vector<Tok> toks = f.kind == TEXT ? blankTokens(f.text) : f.toks;
            int end = f.kind == TEXT ? (int)f.text.size() : f.endOffset;
            for (auto& t : toks) {
                s.pos += t.inc;
                if (s.pos > 0) --s.pos;
                if (t.inc == 0) ++v.overlaps;
                if (t.t.size() < 16384) v.terms[t.t].push_back(Occ{s.pos, s.off + t.so, s.off + t.eo, t.hasPay, t.pay});   // longer terms are not indexed
                ++s.pos;
                any = true;
                if (++v.length >= maxFieldLength) break;
            }
            s.off += end;
        }
        if (any) s.off += f.kind == KEYWORD ? 0 : offGap;
        v.boost *= f.boost;
    }
    return r;
}

// ------------------------------------------------------------------------------- dumps
std::string dumpStored(const DocumentPtr& d) {
    std::string s;
    Collection<FieldablePtr> fs = d->getFields();
    for (int i = 0; i < fs.size(); ++i) {
        FieldablePtr f = fs[i];
        s += narrow(f->name());
        if (f->isBinary()) s += "#" + hex(fromBytes(f->getBinaryValue(), f->getBinaryOffset(), f->getBinaryLength()));
        else s += "=" + narrow(f->stringValue());
        s += ";";
    }
    return s;
}

static std::string occText(int pos, bool hasPay, const std::string& pay) { return str(pos) + (hasPay && !pay.empty() ? "p" + hex(pay) : ""); }

Dump dumpReader(const IndexReaderPtr& r, const DumpCfg& cfg) {
    Dump m;
    int max = r->maxDoc();
    std::vector<int> ord(max, -1);
    int live = 0;
    for (int i = 0; i < max; ++i) if (!r->isDeleted(i)) ord[i] = live++;
    m["numDocs"] = str(r->numDocs());
    if (r->numDocs() != live) m["numDocs"] += " but " + str(live) + " undeleted";
    if (cfg.stored) for (int i = 0; i < max; ++i) if (ord[i] >= 0) m["S|" + str(ord[i])] = dumpStored(r->document(i));
    std::map<std::wstring, std::set<int> > has;   // documents with a term in the field: only their norm is observable
    if (cfg.postings || cfg.norms) {
        TermEnumPtr te = r->terms();
        TermPositionsPtr tp = r->termPositions();
        TermPtr prev;
        while (te->next()) {
            TermPtr t = te->term();
            if (prev && prev->compareTo(t) >= 0) m["ORDER|" + narrow(t->field()) + "|" + narrow(t->text())] = "terms out of order";
            prev = t;
            std::string s;
            bool pos = !cfg.noPositions.count(t->field());
            tp->seek(t);
            while (tp->next()) {
                int d = tp->doc();
                if (d < 0 || d >= max) { s += "doc " + str(d) + " out of range;"; break; }
                if (ord[d] < 0) { s += "deleted doc " + str(d) + " returned;"; continue; }
                has[t->field()].insert(ord[d]);
                s += str(ord[d]) + ":" + (pos ? "" : str(tp->freq()));
                if (pos) {
                    int f = tp->freq();
                    for (int k = 0; k < f; ++k) {
                        int p = tp->nextPosition();
                        std::string pay;
                        int len = tp->getPayloadLength();
                        if (tp->isPayloadAvailable() && len > 0) {
                            ByteArray b = tp->getPayload(ByteArray(), 0);
                            pay = fromBytes(b, 0, len);
                        }
                        s += (k ? "," : "") + occText(p, len > 0, pay);
                    }
                }
                s += ";";
            }
            if (!s.empty() && cfg.postings) m["P|" + narrow(t->field()) + "|" + narrow(t->text())] = s;
        }
        te->close();
        tp->close();
    }
    if (cfg.norms) {
        HashSet<String> fn = r->getFieldNames(IndexReader::FIELD_OPTION_INDEXED);
        uint8_t def = Similarity::encodeNorm(1.0);
        for (HashSet<String>::iterator f = fn.begin(); f != fn.end(); ++f) {
            std::string s;
            if (r->hasNorms(*f)) {
                ByteArray b = r->norms(*f);
                for (int i = 0; i < max; ++i) if (ord[i] >= 0 && b[i] != def && has[*f].count(ord[i])) s += str(ord[i]) + "=" + str((int)b[i]) + ";";
            }
            if (!s.empty()) m["N|" + narrow(*f)] = s;
        }
    }
    if (cfg.vectors) for (int i = 0; i < max; ++i) {
        if (ord[i] < 0) continue;
        Collection<TermFreqVectorPtr> vs = r->getTermFreqVectors(i);
        if (!vs) continue;
        for (int k = 0; k < vs.size(); ++k) {
            TermFreqVectorPtr v = vs[k];
            TermPositionVectorPtr pv = boost::dynamic_pointer_cast<TermPositionVector>(v);
            std::string s;
            Collection<String> terms = v->getTerms();
            Collection<int32_t> freqs = v->getTermFrequencies();
            for (int j = 0; j < v->size(); ++j) {
                s += narrow(terms[j]) + "*" + str(freqs[j]);
                if (pv) {
                    Collection<int32_t> ps = pv->getTermPositions(j);
                    if (ps) { s += "@"; for (int q = 0; q < ps.size(); ++q) s += (q ? "," : "") + str(ps[q]); }
                    Collection<TermVectorOffsetInfoPtr> os = pv->getOffsets(j);
                    if (os) { s += "#"; for (int q = 0; q < os.size(); ++q) s += (q ? "," : "") + str(os[q]->getStartOffset()) + "-" + str(os[q]->getEndOffset()); }
                }
                s += ";";
            }
            m["V|" + str(ord[i]) + "|" + narrow(v->getField())] = s;
        }
    }
    return m;
}

Dump dumpModel(const std::vector<DocSpec>& docs, const DumpCfg& cfg) {
    Dump m;
    m["numDocs"] = str((int)docs.size());
    uint8_t def = Similarity::encodeNorm(1.0);
    std::map<std::wstring, std::string> norms;
    for (size_t i = 0; i < docs.size(); ++i) {
        if (cfg.stored) {
            std::string s;
            for (auto& f : docs[i].fields) {
                if (f.kind == BINARY) s += narrow(f.name) + "#" + hex(f.bin) + ";";
                else if (f.kind == STOREDTEXT || (f.stored && f.kind != STREAM)) s += narrow(f.name) + "=" + narrow(f.text) + ";";
            }
            m["S|" + str(i)] = s;
        }
        auto inv = invert(docs[i], cfg.posGap, cfg.offGap, cfg.maxFieldLength);
        for (auto& fv : inv) {
            const InvField& v = fv.second;
            if (cfg.postings) for (auto& t : v.terms) {
                std::string s = str(i) + ":";
                if (cfg.noPositions.count(fv.first)) s += "1";
                else for (size_t k = 0; k < t.second.size(); ++k) s += (k ? "," : "") + occText(t.second[k].pos, t.second[k].hasPay, t.second[k].pay);
                m["P|" + narrow(fv.first) + "|" + narrow(t.first)] += s + ";";
            }
            if (cfg.norms && !v.omitNorms && !v.terms.empty()) {
                double ln = 1.0 / std::sqrt((double)v.length);
                uint8_t b = Similarity::encodeNorm(v.boost * ln);
                if (b != def) norms[fv.first] += str(i) + "=" + str((int)b) + ";";
            }
            if (cfg.vectors && v.tv && !v.terms.empty()) {
                std::string s;
                for (auto& t : v.terms) {
                    s += narrow(t.first) + "*" + str(t.second.size());
                    if (v.tvPos) { s += "@"; for (size_t q = 0; q < t.second.size(); ++q) s += (q ? "," : "") + str(t.second[q].pos); }
                    if (v.tvOff) { s += "#"; for (size_t q = 0; q < t.second.size(); ++q) s += (q ? "," : "") + str(t.second[q].so) + "-" + str(t.second[q].eo); }
                    s += ";";
                }
                m["V|" + str(i) + "|" + narrow(fv.first)] = s;
            }
        }
    }
    for (auto& n : norms) m["N|" + narrow(n.first)] = n.second;
    return m;
}

std::string diff(const Dump& got, const Dump& want) {
    std::string s;
    int n = 0;
    auto add = [&](const std::string& l) { if (++n <= 6) s += "\n    " + l; };
    for (auto& w : want) {
        auto g = got.find(w.first);
        if (g == got.end()) add(w.first + ": missing, expected <" + w.second + ">");
        else if (g->second != w.second) add(w.first + ": got <" + g->second + ">, expected <" + w.second + ">");
    }
    for (auto& g : got) if (!want.count(g.first)) add(g.first + ": got <" + g.second + ">, expected nothing");
    if (n > 6) s += "\n    ... " + str(n) + " differences";
    return s;
}

std::vector<std::wstring> liveIds(const IndexReaderPtr& r, const std::wstring& field) {
    std::vector<std::wstring> v;
    for (int i = 0; i < r->maxDoc(); ++i) if (!r->isDeleted(i)) v.push_back(r->document(i)->get(field));
    return v;
}
std::string joinIds(const std::vector<std::wstring>& v) {
    std::string s;
    for (auto& x : v) s += narrow(x) + " ";
    return s;
}

// ------------------------------------------------------------------------------- generators
std::wstring genWord(Case& c, const GenCfg& g) {
    if (g.unicode && c.chance(1, 12)) {
        switch (c.draw(4)) {
            case 0: return c.word(L"\u00e9\u4e2d\U0001F600\ufffd\ue000z", 1, 3);
            case 1: return g.words[c.draw(g.words.size())] + c.word(L"ab", 1, 30);
            case 2: return c.word(L"\U00010000\U0010FFFF\uff5e\u07ff\u0800", 1, 3);
            default: return std::wstring(1, L'x') + std::to_wstring(c.draw(40));
        }
    }
    return g.words[c.draw(g.words.size())];
}
std::wstring genText(Case& c, const GenCfg& g, int maxWords) {
    std::wstring s;
    for (int i = 0; i < maxWords && c.more(std::max(2, maxWords / 2)); ++i) { if (i) s += std::wstring(c.chance(1, 12) ? 2 : 1, L' '); s += genWord(c, g); }
    return s;
}

DocSpec genDoc(Case& c, const GenCfg& g, const std::wstring& id) {
    static const double B[] = {1.0, 2.0, 0.5, 0.0, 3.7, 100.0};
    DocSpec d;
    d.fields.push_back(keyword(L"id", id));
    if (g.groups) d.fields.push_back(keyword(L"g", std::wstring(1, (wchar_t)(L'p' + c.draw(3))), c.chance(1, 2)));
    if (g.boosts && c.chance(1, 6)) d.boost = B[c.draw(6)];
    for (int i = 0; i < g.maxFields && c.more(2); ++i) {
        FieldSpec f;
        switch (c.weighted({8, g.streams ? 3 : 0, 2, 2, g.binaries ? 2 : 0})) {
            case 0: f.kind = TEXT; break;
            case 1: f.kind = STREAM; break;
            case 2: f.kind = KEYWORD; break;
            case 3: f.kind = STOREDTEXT; break;
            default: f.kind = BINARY; break;
        }
        if (f.kind == BINARY) {
            f.name = c.chance(1, 3) ? L"t0" : L"bin";
            f.bin = c.bytes(c.chance(1, 10) ? 400 : 12);
            d.fields.push_back(f);
            continue;
        }
        if (f.kind == STOREDTEXT) {
            f.name = c.chance(1, 3) ? L"t0" : L"st";
            f.text = c.chance(1, 3) && g.unicode ? c.unicode(20) : genText(c, g, g.maxWords);
            d.fields.push_back(f);
            continue;
        }
        int which = c.weighted({6, 4, g.omits ? 1 : 0, g.omits ? 1 : 0});
        static const wchar_t* N[] = {L"t0", L"t1", L"on", L"ot"};
        f.name = N[which];
        f.omitNorms = which == 2;
        f.omitTf = which == 3;
        if (g.boosts && c.chance(1, 8)) f.boost = B[c.draw(6)];
        if (g.vectors && c.chance(1, 3)) {
            static const Field::TermVector TV[] = {Field::TERM_VECTOR_YES, Field::TERM_VECTOR_WITH_POSITIONS, Field::TERM_VECTOR_WITH_OFFSETS, Field::TERM_VECTOR_WITH_POSITIONS_OFFSETS};
            f.tv = TV[c.draw(4)];
        }
        f.stored = f.kind != STREAM && c.chance(1, 3);
        if (f.kind == TEXT) f.text = genText(c, g, g.maxWords);
        else if (f.kind == KEYWORD) f.text = c.chance(1, 12) ? L"" : genWord(c, g);
        else {
            int off = 0;
            for (int j = 0; j < g.maxWords && c.more(3); ++j) {
                Tok t;
                t.t = genWord(c, g);
                t.inc = c.weighted({6, 2, 1, 1});
                t.inc = t.inc == 0 ? 1 : t.inc == 1 ? 0 : t.inc == 2 ? 2 : 1 + (int)c.draw(300);
                if (j == 0 && t.inc == 0) t.inc = 1;
                off += c.size(3);
                t.so = off;
                t.eo = off + (int)c.draw(4);
                if (c.chance(1, 20)) { t.so += 1000; t.eo = t.so + 500; }
                if (g.payloads && !f.omitTf && c.chance(1, 3)) { t.hasPay = true; t.pay = c.bytes(c.chance(1, 12) ? 200 : 4); }
                f.toks.push_back(t);
            }
            f.endOffset = off + 2 + (int)c.draw(3);
            for (auto& t : f.toks) f.endOffset = std::max(f.endOffset, t.eo);
        }
        d.fields.push_back(f);
    }
    return d;
}

WriterCfg genWriterCfg(Case& c, bool allowConcurrent) {
    WriterCfg w;
    switch (c.weighted({3, 3, 2})) {
        case 0: w.maxBufferedDocs = 1000; break;
        case 1: w.maxBufferedDocs = c.range(2, 4); break;
        default: w.maxBufferedDocs = c.range(2, 12); break;
    }
    w.mergeFactor = c.weighted({1, 1}) ? c.range(2, 4) : 10;
    w.compound = !c.chance(1, 2);
    w.docStoreCompound = !c.chance(1, 2);
    w.byteSize = !c.chance(1, 2);
    w.calibrate = c.chance(1, 3);
    w.nrt = c.chance(1, 3);
    if (c.chance(1, 5)) w.maxBufferedDeleteTerms = c.range(1, 4);
    if (c.chance(1, 5)) w.maxMergeDocs = c.range(2, 8);
    if (c.chance(1, 4)) w.termIndexInterval = c.range(1, 8);
    if (c.chance(1, 8)) { w.maxBufferedDocs = -1; w.ramMB = 0.0001 + 0.01 * (double)c.draw(20); }
    if (allowConcurrent) w.concurrent = c.chance(1, 6);
    return w;
}

void WriterCfg::apply(const IndexWriterPtr& w) const {
    LogMergePolicyPtr p;
    if (byteSize) p = newLucene<LogByteSizeMergePolicy>(w);
    else p = newLucene<LogDocMergePolicy>(w);
    if (byteSize && calibrate) boost::static_pointer_cast<LogByteSizeMergePolicy>(p)->setMinMergeMB(0.0001);
    if (!byteSize) boost::static_pointer_cast<LogDocMergePolicy>(p)->setMinMergeDocs(2);
    p->setUseCompoundFile(compound);
    p->setUseCompoundDocStore(docStoreCompound);
    p->setCalibrateSizeByDeletes(calibrate);
    p->setMergeFactor(mergeFactor);
    p->setNoCFSRatio(1.0);
    if (maxMergeDocs != INT_MAX) p->setMaxMergeDocs(maxMergeDocs);
    w->setMergePolicy(p);
    if (concurrent) w->setMergeScheduler(newLucene<ConcurrentMergeScheduler>());
    else w->setMergeScheduler(newLucene<SerialMergeScheduler>());
    if (maxBufferedDocs == -1) { w->setRAMBufferSizeMB(ramMB); w->setMaxBufferedDocs(IndexWriter::DISABLE_AUTO_FLUSH); }
    else w->setMaxBufferedDocs(maxBufferedDocs);
    if (maxBufferedDeleteTerms > 0) w->setMaxBufferedDeleteTerms(maxBufferedDeleteTerms);
    w->setTermIndexInterval(termIndexInterval);
    w->setMaxFieldLength(maxFieldLength);
}

std::string WriterCfg::describe() const {
    return "writer(maxBufferedDocs=" + str(maxBufferedDocs) + (maxBufferedDocs == -1 ? " ramMB=" + str(ramMB) : "") + " mergeFactor=" + str(mergeFactor) +
           (compound ? " cfs" : "") + (docStoreCompound ? " cfx" : "") + (byteSize ? " bytesize" : " logdoc") + (calibrate ? " calib" : "") +
           (concurrent ? " CMS" : "") + (nrt ? " nrt" : "") + (maxBufferedDeleteTerms > 0 ? " maxBufDel=" + str(maxBufferedDeleteTerms) : "") +
           (maxMergeDocs != INT_MAX ? " maxMergeDocs=" + str(maxMergeDocs) : "") + " tii=" + str(termIndexInterval) + ")";
}

IndexWriterPtr openWriter(const DirectoryPtr& dir, const AnalyzerPtr& a, const WriterCfg& cfg, bool create) {
    IndexWriterPtr w = newLucene<IndexWriter>(dir, a, create, IndexWriter::MaxFieldLengthUNLIMITED);
    cfg.apply(w);
    return w;
}
IndexWriterPtr openWriter(const DirectoryPtr& dir, const AnalyzerPtr& a, const WriterCfg& cfg, bool create, const IndexDeletionPolicyPtr& p) {
    IndexWriterPtr w = newLucene<IndexWriter>(dir, a, create, p, IndexWriter::MaxFieldLengthUNLIMITED);
    cfg.apply(w);
    return w;
}

RAMDirectoryPtr copyDir(const DirectoryPtr& d) {
    RAMDirectoryPtr r = newLucene<RAMDirectory>();
    HashSet<String> all = d->listAll();
    for (HashSet<String>::iterator f = all.begin(); f != all.end(); ++f) {
        IndexInputPtr in = d->openInput(*f);
        int64_t n = in->length();
        IndexOutputPtr out = r->createOutput(*f);
        ByteArray b = ByteArray::newInstance((int)n + 1);
        in->readBytes(b.get(), 0, (int)n);
        out->writeBytes(b.get(), 0, (int)n);
        out->close();
        in->close();
    }
    return r;
}

RAMDirectoryPtr buildIndex(const std::vector<DocSpec>& docs, const WriterCfg& cfg, const AnalyzerPtr& a, bool optimize) {
    RAMDirectoryPtr d = newLucene<RAMDirectory>();
    IndexWriterPtr w = openWriter(d, a, cfg, true);
    for (auto& x : docs) w->addDocument(build(x));
    if (optimize) w->optimize();
    w->close();
    return d;
}

}  // namespace vf
