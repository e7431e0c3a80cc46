// Stand-in for ForestDB: an append-only, multi-version ordered store with the
// behaviour Jungle's call sites rely on. See README.md for the assumed contract.
#include <libforestdb/forestdb.h>

#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <unordered_map>
#include <vector>

namespace {

uint32_t crc_tab[256];
struct CrcInit {
    CrcInit() {
        for (uint32_t i = 0; i < 256; ++i) {
            uint32_t c = i;
            for (int k = 0; k < 8; ++k) c = (c & 1) ? 0xEDB88320u ^ (c >> 1) : c >> 1;
            crc_tab[i] = c;
        }
    }
} crc_init;
uint32_t crc(uint32_t c, const void* p, size_t n) {
    const uint8_t* b = (const uint8_t*)p;
    c = ~c;
    while (n--) c = crc_tab[(c ^ *b++) & 0xff] ^ (c >> 8);
    return ~c;
}

struct Doc {
    std::string key, meta, body;
    uint64_t seq = 0, off = 0;
    bool deleted = false;
    size_t disk() const { return 32 + key.size() + meta.size() + body.size(); }
};
using DocP = std::shared_ptr<const Doc>;

struct Cmp {
    fdb_custom_cmp_variable fn = nullptr;
    void* param = nullptr;
    int operator()(const void* a, size_t al, const void* b, size_t bl) const {
        if (fn) return fn((void*)a, al, (void*)b, bl, param);
        size_t m = al < bl ? al : bl;
        int c = m ? memcmp(a, b, m) : 0;
        if (c) return c;
        return al < bl ? -1 : (al > bl ? 1 : 0);
    }
};

// Persistent treap; nodes of the current (uncommitted) epoch are edited in place.
struct Node;
using NodeP = std::shared_ptr<Node>;
struct Node {
    DocP d;
    uint64_t prio, epoch;
    NodeP l, r;
};

struct KeyOrd {
    const Cmp* c;
    int operator()(const Doc& a, const Doc& b) const {
        return (*c)(a.key.data(), a.key.size(), b.key.data(), b.key.size());
    }
};
struct SeqOrd {
    int operator()(const Doc& a, const Doc& b) const {
        return a.seq < b.seq ? -1 : (a.seq > b.seq ? 1 : 0);
    }
};

uint64_t rnd() {
    static thread_local uint64_t s = 0x9E3779B97F4A7C15ull;
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s;
}

NodeP own(const NodeP& n, uint64_t ep) {
    if (!n || n->epoch == ep) return n;
    NodeP c = std::make_shared<Node>(*n);
    c->epoch = ep;
    return c;
}
template<class O> void split(NodeP n, const Doc& k, const O& o, uint64_t ep, NodeP& a, NodeP& b) {
    // a: < k, b: >= k
    if (!n) { a = b = nullptr; return; }
    n = own(n, ep);
    if (o(*n->d, k) < 0) { NodeP t; split(n->r, k, o, ep, t, b); n->r = t; a = n; }
    else { NodeP t; split(n->l, k, o, ep, a, t); n->l = t; b = n; }
}
NodeP merge(NodeP a, NodeP b, uint64_t ep) {
    if (!a) return b;
    if (!b) return a;
    if (a->prio > b->prio) { a = own(a, ep); a->r = merge(a->r, b, ep); return a; }
    b = own(b, ep); b->l = merge(a, b->l, ep); return b;
}
template<class O> DocP find(const NodeP& root, const Doc& k, const O& o) {
    Node* n = root.get();
    while (n) {
        int c = o(k, *n->d);
        if (!c) return n->d;
        n = c < 0 ? n->l.get() : n->r.get();
    }
    return nullptr;
}
template<class O> NodeP insert(NodeP n, const NodeP& nn, const O& o, uint64_t ep) {
    if (!n) return nn;
    if (nn->prio > n->prio) { split(n, *nn->d, o, ep, nn->l, nn->r); return nn; }
    n = own(n, ep);
    if (o(*nn->d, *n->d) < 0) n->l = insert(n->l, nn, o, ep);
    else n->r = insert(n->r, nn, o, ep);
    return n;
}
template<class O> NodeP erase(NodeP n, const Doc& k, const O& o, uint64_t ep) {
    if (!n) return n;
    int c = o(k, *n->d);
    if (!c) return merge(n->l, n->r, ep);
    n = own(n, ep);
    if (c < 0) n->l = erase(n->l, k, o, ep);
    else n->r = erase(n->r, k, o, ep);
    return n;
}
// Smallest element > k (or >= k if eq), nullptr if none.
template<class O> DocP above(const NodeP& root, const Doc& k, const O& o, bool eq) {
    Node* n = root.get(); DocP best;
    while (n) {
        int c = o(k, *n->d);
        if (c < 0 || (eq && c == 0)) { best = n->d; n = n->l.get(); } else n = n->r.get();
    }
    return best;
}
template<class O> DocP below(const NodeP& root, const Doc& k, const O& o, bool eq) {
    Node* n = root.get(); DocP best;
    while (n) {
        int c = o(k, *n->d);
        if (c > 0 || (eq && c == 0)) { best = n->d; n = n->r.get(); } else n = n->l.get();
    }
    return best;
}
DocP edge(const NodeP& root, bool max) {
    Node* n = root.get();
    if (!n) return nullptr;
    while (Node* m = (max ? n->r : n->l).get()) n = m;
    return n->d;
}

struct Version {
    NodeP byKey, bySeq;
    uint64_t seqnum = 0, ndocs = 0, live = 0;
};

constexpr uint32_t DOC_MAGIC = 0x31434f44, CMT_MAGIC = 0x31544d43;
struct DocHdr { uint32_t magic, crc, klen, mlen, blen, flags; uint64_t seq; };
struct CmtHdr { uint32_t magic, crc; uint64_t seq, ndocs, live; };

constexpr size_t MAX_KEYLEN = 65408, MAX_CMP_KEYLEN = 3840;

struct File {
    std::mutex mu;
    std::string path;
    int fd = -1;
    dev_t dev = 0; ino_t ino = 0;
    Cmp cmp;
    uint64_t eof = 0;         // End of appended data (including `buf`).
    bool need_trunc = false;  // Garbage after the last commit on disk.
    std::string buf;          // Appended, not written yet; starts at eof - buf.size().
    std::unordered_map<uint64_t, DocP> docs;
    Version cur;
    uint64_t epoch = 1;
    std::vector<Version> commits;   // Oldest first.
    bool useSeq = true;

    ~File() {
        if (fd >= 0) { flushBuf(); ::close(fd); }
    }
    bool flushBuf() {
        if (need_trunc) {
            if (::ftruncate(fd, eof - buf.size())) return false;
            need_trunc = false;
        }
        size_t done = 0;
        uint64_t base = eof - buf.size();
        while (done < buf.size()) {
            ssize_t r = ::pwrite(fd, buf.data() + done, buf.size() - done, base + done);
            if (r < 0) { if (errno == EINTR) continue; return false; }
            done += r;
        }
        buf.clear();
        return true;
    }
    void apply(const DocP& d) {
        KeyOrd ko{&cmp}; SeqOrd so;
        if (DocP old = find(cur.byKey, *d, ko)) {
            cur.byKey = erase(cur.byKey, *d, ko, epoch);
            if (DocP sd = find(cur.bySeq, *old, so)) {
                if (sd == old) cur.bySeq = erase(cur.bySeq, *old, so, epoch);
            }
            cur.ndocs--; cur.live -= old->disk();
        }
        if (!d->deleted) {
            auto mk = [&]() {
                NodeP n = std::make_shared<Node>();
                n->d = d; n->prio = rnd(); n->epoch = epoch;
                return n;
            };
            cur.byKey = insert(cur.byKey, mk(), ko, epoch);
            // A sequence number refers to one document: the last one stored.
            if (find(cur.bySeq, *d, so)) cur.bySeq = erase(cur.bySeq, *d, so, epoch);
            cur.bySeq = insert(cur.bySeq, mk(), so, epoch);
            cur.ndocs++; cur.live += d->disk();
        }
        if (d->seq > cur.seqnum) cur.seqnum = d->seq;
    }
    bool load() {
        struct stat st;
        if (::fstat(fd, &st)) return false;
        std::string all(st.st_size, 0);
        size_t got = 0;
        while (got < all.size()) {
            ssize_t r = ::pread(fd, &all[got], all.size() - got, got);
            if (r <= 0) break;
            got += r;
        }
        all.resize(got);
        // Find the last valid commit, then replay up to there.
        uint64_t pos = 0, last = 0;
        auto step = [&](uint64_t p, bool doApply) -> uint64_t {
            if (p + sizeof(CmtHdr) > all.size() && p + sizeof(DocHdr) > all.size()) return 0;
            uint32_t m; memcpy(&m, &all[p], 4);
            if (m == DOC_MAGIC) {
                if (p + sizeof(DocHdr) > all.size()) return 0;
                DocHdr h; memcpy(&h, &all[p], sizeof h);
                uint64_t len = sizeof h + (uint64_t)h.klen + h.mlen + h.blen;
                if (p + len > all.size()) return 0;
                if (crc(0, &all[p + 8], len - 8) != h.crc) return 0;
                if (doApply) {
                    auto d = std::make_shared<Doc>();
                    const char* q = &all[p + sizeof h];
                    d->key.assign(q, h.klen); q += h.klen;
                    d->meta.assign(q, h.mlen); q += h.mlen;
                    d->body.assign(q, h.blen);
                    d->seq = h.seq; d->off = p; d->deleted = h.flags & 1;
                    docs[p] = d; apply(d);
                }
                return p + len;
            }
            if (m == CMT_MAGIC) {
                if (p + sizeof(CmtHdr) > all.size()) return 0;
                CmtHdr h; memcpy(&h, &all[p], sizeof h);
                if (crc(0, &all[p + 8], sizeof h - 8) != h.crc) return 0;
                if (doApply) { commits.push_back(cur); epoch++; }
                else last = p + sizeof h;
                return p + sizeof h;
            }
            return 0;
        };
        while (uint64_t n = step(pos, false)) pos = n;
        for (pos = 0; pos < last; ) pos = step(pos, true);
        eof = last;
        need_trunc = all.size() > last;
        return true;
    }
    bool append(const std::string& s) {
        buf += s;
        eof += s.size();
        return buf.size() < 65536 || flushBuf();
    }
};
using FileP = std::shared_ptr<File>;

std::mutex g_mu;
std::map<std::string, std::weak_ptr<File>>& registry() {
    static auto* m = new std::map<std::string, std::weak_ptr<File>>();
    return *m;
}

void* dup(const std::string& s) {
    if (s.empty()) return nullptr;
    void* p = malloc(s.size());
    memcpy(p, s.data(), s.size());
    return p;
}
void fill(const Doc& d, fdb_doc* o, bool key, bool body) {
    if (key && !o->key) o->key = dup(d.key);
    else if (key) memcpy(o->key, d.key.data(), d.key.size());
    o->keylen = d.key.size();
    if (!o->meta) o->meta = dup(d.meta);
    else memcpy(o->meta, d.meta.data(), d.meta.size());
    o->metalen = d.meta.size();
    o->bodylen = d.body.size();
    if (body) {
        if (!o->body) o->body = dup(d.body);
        else memcpy(o->body, d.body.data(), d.body.size());
    }
    o->seqnum = d.seq;
    o->offset = d.off;
    o->deleted = d.deleted;
    o->size_ondisk = d.disk();
}

} // namespace

struct _fdb_file_handle { FileP f; fdb_config conf; };
struct _fdb_kvs_handle {
    FileP f;
    bool isSnap = false;
    Version snap;
    bool useSeq = true;
    Version view() const {
        if (isSnap) return snap;
        std::lock_guard<std::mutex> l(f->mu);
        return f->commits.empty() ? Version() : f->commits.back();
    }
};
struct fdb_iterator_st {
    FileP f;
    Version v;
    bool bySeq = false;
    bool hasMin = false, hasMax = false;
    Doc min, max;
    DocP cur;
    int side = -1;    // If !cur: -1 before the first, +1 after the last.

    DocP first() const {
        DocP d;
        if (bySeq) d = above(v.bySeq, min, SeqOrd(), true);
        else d = hasMin ? above(v.byKey, min, KeyOrd{&f->cmp}, true) : edge(v.byKey, false);
        return in(d) ? d : nullptr;
    }
    DocP last() const {
        DocP d;
        if (bySeq) d = hasMax ? below(v.bySeq, max, SeqOrd(), true) : edge(v.bySeq, true);
        else d = hasMax ? below(v.byKey, max, KeyOrd{&f->cmp}, true) : edge(v.byKey, true);
        return in(d) ? d : nullptr;
    }
    bool in(const DocP& d) const {
        if (!d) return false;
        if (bySeq) return d->seq >= min.seq && (!hasMax || d->seq <= max.seq);
        KeyOrd o{&f->cmp};
        return (!hasMin || o(min, *d) <= 0) && (!hasMax || o(*d, max) <= 0);
    }
    DocP after(const Doc& k, bool eq) const {
        DocP d = bySeq ? above(v.bySeq, k, SeqOrd(), eq) : above(v.byKey, k, KeyOrd{&f->cmp}, eq);
        return d;
    }
    DocP before(const Doc& k, bool eq) const {
        DocP d = bySeq ? below(v.bySeq, k, SeqOrd(), eq) : below(v.byKey, k, KeyOrd{&f->cmp}, eq);
        return d;
    }
};

fdb_config fdb_get_default_config() {
    fdb_config c;
    memset(&c, 0, sizeof c);
    c.seqtree_opt = FDB_SEQTREE_USE;
    return c;
}
fdb_kvs_config fdb_get_default_kvs_config() {
    fdb_kvs_config c;
    memset(&c, 0, sizeof c);
    c.create_if_missing = true;
    return c;
}

fdb_status fdb_open_custom_cmp(fdb_file_handle** out, const char* fname, fdb_config* conf,
                               size_t num, char**, fdb_custom_cmp_variable* funcs, void** params) {
    std::lock_guard<std::mutex> l(g_mu);
    FileP f;
    struct stat st;
    auto& reg = registry();
    auto it = reg.find(fname);
    if (it != reg.end()) {
        f = it->second.lock();
        if (f && (::stat(fname, &st) || st.st_dev != f->dev || st.st_ino != f->ino)) f.reset();
    }
    if (!f) {
        f = std::make_shared<File>();
        f->path = fname;
        f->fd = ::open(fname, O_RDWR | O_CREAT, 0644);
        if (f->fd < 0) return FDB_RESULT_OPEN_FAIL;
        ::fstat(f->fd, &st);
        f->dev = st.st_dev;
        f->ino = st.st_ino;
        if (num && funcs && funcs[0]) {
            f->cmp.fn = funcs[0];
            f->cmp.param = params ? params[0] : nullptr;
        }
        if (!f->load()) return FDB_RESULT_READ_FAIL;
        reg[fname] = f;
    }
    auto* h = new _fdb_file_handle;
    h->f = f;
    h->conf = *conf;
    *out = h;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_open(fdb_file_handle** out, const char* fname, fdb_config* conf) {
    return fdb_open_custom_cmp(out, fname, conf, 0, nullptr, nullptr, nullptr);
}
fdb_status fdb_close(fdb_file_handle* h) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    std::lock_guard<std::mutex> l(g_mu);
    delete h;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_kvs_open(fdb_file_handle* h, fdb_kvs_handle** out, const char*, fdb_kvs_config*) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    auto* k = new _fdb_kvs_handle;
    k->f = h->f;
    k->useSeq = h->conf.seqtree_opt == FDB_SEQTREE_USE;
    *out = k;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_kvs_close(fdb_kvs_handle* h) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    std::lock_guard<std::mutex> l(g_mu);
    delete h;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_commit(fdb_file_handle* h, fdb_commit_opt_t) {
    File& f = *h->f;
    std::lock_guard<std::mutex> l(f.mu);
    CmtHdr c{CMT_MAGIC, 0, f.cur.seqnum, f.cur.ndocs, f.cur.live};
    // Documents first, then the commit mark, each made durable in turn.
    if (!f.flushBuf()) return FDB_RESULT_WRITE_FAIL;
    if (::fsync(f.fd)) return FDB_RESULT_FSYNC_FAIL;
    c.crc = crc(0, (char*)&c + 8, sizeof c - 8);
    f.append(std::string((char*)&c, sizeof c));
    if (!f.flushBuf()) return FDB_RESULT_WRITE_FAIL;
    if (::fsync(f.fd)) return FDB_RESULT_FSYNC_FAIL;
    f.commits.push_back(f.cur);
    f.epoch++;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_sync_file(fdb_file_handle* h) {
    File& f = *h->f;
    std::lock_guard<std::mutex> l(f.mu);
    if (!f.flushBuf()) return FDB_RESULT_WRITE_FAIL;
    return ::fsync(f.fd) ? FDB_RESULT_FSYNC_FAIL : FDB_RESULT_SUCCESS;
}
static fdb_status put(fdb_kvs_handle* h, fdb_doc* doc, bool del) {
    if (!h || !doc || !doc->key || !doc->keylen) return FDB_RESULT_INVALID_ARGS;
    if (h->isSnap) return FDB_RESULT_RONLY_VIOLATION;
    File& f = *h->f;
    if (doc->keylen > (f.cmp.fn ? MAX_CMP_KEYLEN : MAX_KEYLEN)) return FDB_RESULT_INVALID_ARGS;
    auto d = std::make_shared<Doc>();
    d->key.assign((char*)doc->key, doc->keylen);
    if (doc->metalen) d->meta.assign((char*)doc->meta, doc->metalen);
    if (!del && doc->bodylen) d->body.assign((char*)doc->body, doc->bodylen);
    d->deleted = del;
    std::lock_guard<std::mutex> l(f.mu);
    d->seq = (doc->flags & FDB_CUSTOM_SEQNUM) ? doc->seqnum : f.cur.seqnum + 1;
    doc->flags &= ~FDB_CUSTOM_SEQNUM;
    d->off = f.eof;
    DocHdr hd{DOC_MAGIC, 0, (uint32_t)d->key.size(), (uint32_t)d->meta.size(),
              (uint32_t)d->body.size(), del ? 1u : 0u, d->seq};
    std::string s((char*)&hd, sizeof hd);
    s += d->key; s += d->meta; s += d->body;
    uint32_t c = crc(0, s.data() + 8, s.size() - 8);
    memcpy(&s[4], &c, 4);
    if (!f.append(s)) return FDB_RESULT_WRITE_FAIL;
    f.docs[d->off] = d;
    f.apply(d);
    doc->offset = d->off;
    doc->seqnum = d->seq;
    doc->size_ondisk = d->disk();
    doc->deleted = del;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_set(fdb_kvs_handle* h, fdb_doc* doc) { return put(h, doc, false); }
fdb_status fdb_del(fdb_kvs_handle* h, fdb_doc* doc) { return put(h, doc, true); }

static DocP lookup(fdb_kvs_handle* h, fdb_doc* doc) {
    Doc k;
    k.key.assign((char*)doc->key, doc->keylen);
    return find(h->view().byKey, k, KeyOrd{&h->f->cmp});
}
fdb_status fdb_get(fdb_kvs_handle* h, fdb_doc* doc) {
    if (!h || !doc->key || !doc->keylen) return FDB_RESULT_INVALID_ARGS;
    DocP d = lookup(h, doc);
    if (!d) return FDB_RESULT_KEY_NOT_FOUND;
    fill(*d, doc, false, true);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_metaonly(fdb_kvs_handle* h, fdb_doc* doc) {
    if (!h || !doc->key || !doc->keylen) return FDB_RESULT_INVALID_ARGS;
    DocP d = lookup(h, doc);
    if (!d) return FDB_RESULT_KEY_NOT_FOUND;
    fill(*d, doc, false, false);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_byoffset_raw(fdb_kvs_handle* h, fdb_doc* doc) {
    DocP d;
    {
        std::lock_guard<std::mutex> l(h->f->mu);
        auto it = h->f->docs.find(doc->offset);
        if (it != h->f->docs.end()) d = it->second;
    }
    if (!d) return FDB_RESULT_KEY_NOT_FOUND;
    fill(*d, doc, true, true);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_nearest(fdb_kvs_handle* h, const void* key, size_t keylen,
                           fdb_doc* doc, fdb_get_nearest_opt_t opt) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    Doc k;
    if (keylen) k.key.assign((const char*)key, keylen);
    Version v = h->view();
    KeyOrd o{&h->f->cmp};
    DocP d;
    switch (opt) {
    case FDB_GET_GREATER: d = above(v.byKey, k, o, false); break;
    case FDB_GET_GREATER_OR_EQUAL: d = above(v.byKey, k, o, true); break;
    case FDB_GET_SMALLER: d = below(v.byKey, k, o, false); break;
    case FDB_GET_SMALLER_OR_EQUAL: d = below(v.byKey, k, o, true); break;
    }
    if (!d) return FDB_RESULT_KEY_NOT_FOUND;
    memset(doc, 0, sizeof *doc);
    fill(*d, doc, true, true);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_seqnum(fdb_kvs_handle* h, fdb_seqnum_t* out) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    if (h->isSnap) { *out = h->snap.seqnum; return FDB_RESULT_SUCCESS; }
    std::lock_guard<std::mutex> l(h->f->mu);
    *out = h->f->cur.seqnum;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_snapshot_open(fdb_kvs_handle* in, fdb_kvs_handle** out, fdb_seqnum_t seq) {
    if (!in) return FDB_RESULT_INVALID_ARGS;
    auto k = std::unique_ptr<_fdb_kvs_handle>(new _fdb_kvs_handle);
    k->f = in->f;
    k->useSeq = in->useSeq;
    k->isSnap = true;
    if (in->isSnap && in->snap.seqnum == seq) {
        k->snap = in->snap;
        *out = k.release();
        return FDB_RESULT_SUCCESS;
    }
    std::lock_guard<std::mutex> l(in->f->mu);
    auto& cs = in->f->commits;
    for (size_t i = cs.size(); i-- > 0; ) {
        if (cs[i].seqnum == seq) {
            k->snap = cs[i];
            *out = k.release();
            return FDB_RESULT_SUCCESS;
        }
    }
    if (cs.empty() && !seq) { *out = k.release(); return FDB_RESULT_SUCCESS; }
    return FDB_RESULT_NO_DB_INSTANCE;
}
fdb_status fdb_get_all_snap_markers(fdb_file_handle* h, fdb_snapshot_info_t** out, uint64_t* n) {
    std::lock_guard<std::mutex> l(h->f->mu);
    auto& cs = h->f->commits;
    *n = cs.size();
    *out = nullptr;
    if (cs.empty()) return FDB_RESULT_SUCCESS;
    auto* m = (fdb_snapshot_info_t*)calloc(cs.size(), sizeof(fdb_snapshot_info_t));
    for (size_t i = 0; i < cs.size(); ++i) {
        m[i].num_kvs_markers = 1;
        m[i].kvs_markers = (fdb_kvs_commit_marker_t*)calloc(1, sizeof(fdb_kvs_commit_marker_t));
        m[i].kvs_markers[0].seqnum = cs[cs.size() - 1 - i].seqnum;
    }
    *out = m;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_free_snap_markers(fdb_snapshot_info_t* m, uint64_t n) {
    for (uint64_t i = 0; i < n; ++i) free(m[i].kvs_markers);
    free(m);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_file_info(fdb_file_handle* h, fdb_file_info* info) {
    memset(info, 0, sizeof *info);
    std::lock_guard<std::mutex> l(h->f->mu);
    File& f = *h->f;
    info->filename = f.path.c_str();
    info->doc_count = f.cur.ndocs;
    info->space_used = f.cur.live + sizeof(CmtHdr);
    info->file_size = (f.eof / 4096 + 1) * 4096;
    info->num_live_nodes = f.cur.live / 16384;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_get_kvs_info(fdb_kvs_handle* h, fdb_kvs_info* info) {
    memset(info, 0, sizeof *info);
    std::lock_guard<std::mutex> l(h->f->mu);
    const Version& v = h->isSnap ? h->snap : h->f->cur;
    info->name = "default";
    info->last_seqnum = v.seqnum;
    info->doc_count = v.ndocs;
    info->space_used = v.live;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_init(fdb_kvs_handle* h, fdb_iterator** out,
                             const void* min_key, size_t min_len,
                             const void* max_key, size_t max_len, fdb_iterator_opt_t) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    auto* it = new fdb_iterator_st;
    it->f = h->f;
    it->v = h->view();
    if (min_key && min_len) { it->hasMin = true; it->min.key.assign((const char*)min_key, min_len); }
    if (max_key && max_len) { it->hasMax = true; it->max.key.assign((const char*)max_key, max_len); }
    it->cur = it->first();
    *out = it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_sequence_init(fdb_kvs_handle* h, fdb_iterator** out,
                                      fdb_seqnum_t min, fdb_seqnum_t max, fdb_iterator_opt_t) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    if (!h->useSeq) return FDB_RESULT_INVALID_CONFIG;
    auto* it = new fdb_iterator_st;
    it->f = h->f;
    it->v = h->view();
    it->bySeq = true;
    it->hasMin = true;
    it->min.seq = min;
    if (max) { it->hasMax = true; it->max.seq = max; }
    it->cur = it->first();
    *out = it;
    return FDB_RESULT_SUCCESS;
}
static fdb_status itGet(fdb_iterator* it, fdb_doc** doc, bool body) {
    if (!it) return FDB_RESULT_INVALID_ARGS;
    if (!it->cur) return FDB_RESULT_ITERATOR_FAIL;
    if (!*doc) *doc = (fdb_doc*)calloc(1, sizeof(fdb_doc));
    fill(*it->cur, *doc, true, body);
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_get(fdb_iterator* it, fdb_doc** doc) { return itGet(it, doc, true); }
fdb_status fdb_iterator_get_metaonly(fdb_iterator* it, fdb_doc** doc) { return itGet(it, doc, false); }
fdb_status fdb_iterator_next(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_ARGS;
    DocP d = it->cur ? it->after(*it->cur, false) : (it->side < 0 ? it->first() : nullptr);
    if (!it->in(d)) { it->cur.reset(); it->side = 1; return FDB_RESULT_ITERATOR_FAIL; }
    it->cur = d;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_prev(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_ARGS;
    DocP d = it->cur ? it->before(*it->cur, false) : (it->side > 0 ? it->last() : nullptr);
    if (!it->in(d)) { it->cur.reset(); it->side = -1; return FDB_RESULT_ITERATOR_FAIL; }
    it->cur = d;
    return FDB_RESULT_SUCCESS;
}
static fdb_status itSeek(fdb_iterator* it, const Doc& k, fdb_iterator_seek_opt_t opt) {
    DocP d;
    if (opt == FDB_ITR_SEEK_HIGHER) {
        d = it->after(k, true);
        // Below the lower bound of the range: the first one of the range.
        if (d && !it->in(d)) {
            DocP b = it->first();
            bool below_min = it->bySeq ? d->seq < it->min.seq
                : (it->hasMin && KeyOrd{&it->f->cmp}(*d, it->min) < 0);
            d = below_min ? b : nullptr;
        }
    } else {
        d = it->before(k, true);
        if (d && !it->in(d)) {
            DocP e = it->last();
            bool above_max = it->bySeq ? (it->hasMax && d->seq > it->max.seq)
                : (it->hasMax && KeyOrd{&it->f->cmp}(*d, it->max) > 0);
            d = above_max ? e : nullptr;
        }
    }
    it->cur = d;
    if (!d) { it->side = opt == FDB_ITR_SEEK_HIGHER ? 1 : -1; return FDB_RESULT_ITERATOR_FAIL; }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_iterator_seek(fdb_iterator* it, const void* key, size_t len,
                             fdb_iterator_seek_opt_t opt) {
    if (!it || it->bySeq || !key || !len) return FDB_RESULT_INVALID_ARGS;
    Doc k; k.key.assign((const char*)key, len);
    return itSeek(it, k, opt);
}
fdb_status fdb_iterator_seek_byseq(fdb_iterator* it, fdb_seqnum_t seq, fdb_iterator_seek_opt_t opt) {
    if (!it || !it->bySeq) return FDB_RESULT_INVALID_ARGS;
    Doc k; k.seq = seq;
    return itSeek(it, k, opt);
}
fdb_status fdb_iterator_seek_to_min(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_ARGS;
    it->cur = it->first(); it->side = -1;
    return it->cur ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_seek_to_max(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_ARGS;
    it->cur = it->last(); it->side = 1;
    return it->cur ? FDB_RESULT_SUCCESS : FDB_RESULT_ITERATOR_FAIL;
}
fdb_status fdb_iterator_close(fdb_iterator* it) {
    if (!it) return FDB_RESULT_INVALID_ARGS;
    std::lock_guard<std::mutex> l(g_mu);
    delete it;
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_traverse_index(fdb_kvs_handle* h, const void* start, size_t len,
                              fdb_index_traversal_callback cb, void* ctx) {
    if (!h) return FDB_RESULT_INVALID_ARGS;
    Version v = h->view();
    KeyOrd o{&h->f->cmp};
    DocP d;
    if (start && len) {
        Doc k; k.key.assign((const char*)start, len);
        d = above(v.byKey, k, o, true);
    } else d = edge(v.byKey, false);
    while (d) {
        std::string key = d->key;
        if (cb(h, (void*)key.data(), key.size(), d->off, ctx) == FDB_IT_STOP) break;
        d = above(v.byKey, *d, o, false);
    }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_doc_free(fdb_doc* doc) {
    if (doc) { free(doc->key); free(doc->meta); free(doc->body); free(doc); }
    return FDB_RESULT_SUCCESS;
}
fdb_status fdb_set_log_callback_ex_global(fdb_log_callback_ex, void*) { return FDB_RESULT_SUCCESS; }
fdb_status fdb_shutdown() { return FDB_RESULT_SUCCESS; }
size_t fdb_get_buffer_cache_used() { return 0; }
void fdb_print_cache_stats() {}
