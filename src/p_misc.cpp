// C18 mismatched files, C21 xxhasher, C22 File concept, C26 random values
#include "db.hpp"
#include <cmath>
#include <algorithm>
#include <random>
#include <set>
#include <unordered_map>
#include <sys/mman.h>
#include <unistd.h>
using namespace h;
using simfs::Op; using simfs::Act; using simfs::Blob;
using nudb::error; using nudb::error_code;

//------------------------------------------------------------------------------
// C18

namespace {

void put(std::string& s, uint64_t off, uint64_t v, unsigned n) { std::string t; ref::put_be(t, v, n); s.replace(off, n, t); }
uint64_t get(std::string const& s, uint64_t off, unsigned n) { return ref::be((uint8_t const*)s.data() + off, n); }

// Every error the documentation gives for what is wrong with these headers
struct Expect
{
    std::set<int> e;
    void add(error x) { e.insert((int)x); }
    bool has(error_code const& ec) const { return ec.category() == nudb::nudb_category() && e.count(ec.value()); }
};
uint64_t pep(unsigned hash, uint64_t salt) { uint8_t b[8]; for(int i = 0; i < 8; ++i) b[i] = (uint8_t)(salt >> (8 * i)); return ref_hash(hash, salt, b, 8); }

// op: 0 open 1 recover 2 verify 3 visit 4 rekey
Expect expected(unsigned op, unsigned hash, std::string const& dat, std::string const& key, std::string const* log)
{
    Expect x;
    ref::DatHeader d; ref::KeyHeader k; ref::LogHeader l;
    if(! ref::parse_dat(dat, d)) { x.add(error::short_read); return x; }
    if(d.type != "nudb.dat") x.add(error::not_data_file);
    if(d.version != 2) x.add(error::different_version);
    if(d.key_size < 1) x.add(error::invalid_key_size);
    if(op >= 3) return x;
    if(op < 2 && key.size() <= ref::KEY_HEADER) return x;        // the mark of an interrupted rekey: recovery removes it
    bool const havelog = log && ref::parse_log(*log, l) && op != 2;
    if(! ref::parse_key(key, k)) { x.add(error::short_read); return x; }
    if(havelog)
    {
        if(l.type != "nudb.log") x.add(error::not_log_file);
        if(l.version != 2) x.add(error::different_version);
        if(l.pepper != pep(hash, l.salt)) x.add(error::hash_mismatch);
        if(l.key_size < 1) x.add(error::invalid_key_size);
        if(l.key_file_size == 0)
        {
            if(l.uid != d.uid) x.add(error::uid_mismatch);
            if(l.appnum != d.appnum) x.add(error::appnum_mismatch);
            if(l.key_size != d.key_size) x.add(error::key_size_mismatch);
            return x;
        }
    }
    if(op == 1 && ! havelog) return x;
    if(k.type != "nudb.key") x.add(error::not_key_file);
    if(k.version != 2) x.add(error::different_version);
    if(k.key_size < 1) x.add(error::invalid_key_size);
    if(k.pepper != pep(hash, k.salt)) x.add(error::hash_mismatch);
    if(k.load_factor < 1) x.add(error::invalid_load_factor);
    if(k.block_size < 104 + 18 && ref::capacity(k.block_size) < 1) x.add(error::invalid_capacity);
    if(key.size() <= k.block_size || ! k.block_size || (key.size() - k.block_size) / k.block_size < 1) x.add(error::invalid_bucket_count);
    if(k.uid != d.uid) x.add(error::uid_mismatch);
    if(k.appnum != d.appnum) x.add(error::appnum_mismatch);
    if(k.key_size != d.key_size) x.add(error::key_size_mismatch);
    if(havelog)
    {
        if(l.uid != k.uid) x.add(error::uid_mismatch);
        if(l.appnum != k.appnum) x.add(error::appnum_mismatch);
        if(l.key_size != k.key_size) x.add(error::key_size_mismatch);
        if(l.salt != k.salt) x.add(error::salt_mismatch);
        if(l.pepper != k.pepper) x.add(error::pepper_mismatch);
        if(l.block_size != k.block_size) x.add(error::block_size_mismatch);
    }
    return x;
}

struct Files { std::string dat, key, log; bool haslog = false, rekeylog = false; };

// A database at rest, or stopped inside a commit or a rekey so that it has a log
Files make_files(Case& c, Geo const& g, unsigned kind)
{
    World w(c, g);
    w.create(); w.open();
    unsigned n = (unsigned)c.skew(0, 40);
    while(n--) w.op_insert_new();
    w.flush();
    Files f;
    auto take = [&](simfs::FS const& s)
    {
        f.dat = s.file(g.dat)->str(); f.key = s.exists(g.key) ? s.file(g.key)->str() : "";
        if(s.exists(g.log)) { f.log = s.file(g.log)->str(); f.haslog = f.log.size() >= ref::LOG_HEADER; }
    };
    if(kind == 1)
    {
        unsigned m = (unsigned)c.range(1, 20); while(m--) w.op_insert_new();
        uint64_t skip = c.draw(4), seen = 0; simfs::FS snap; bool have = false;
        // after the log has been synced
        w.fs.hook = [&](Op const& o) -> Act
        {
            if(! have && o.mutating() && w.fs.file(g.log)->size > ref::LOG_HEADER && *o.path != g.log && seen++ >= skip) { snap = w.fs.clone(); have = true; }
            return {};
        };
        w.flush(); w.fs.hook = nullptr;
        take(have ? snap : w.fs.clone());
        if(have) c.label("commit-log");
    }
    else
    {
        w.close(); w.drop();
        if(kind == 2)
        {
            w.fs.erase(g.key);
            uint64_t skip = c.draw(4), seen = 0; simfs::FS snap; bool have = false;
            w.fs.hook = [&](Op const& o) -> Act
            {
                if(! have && o.mutating() && w.fs.exists(g.log) && w.fs.file(g.log)->size >= ref::LOG_HEADER && w.fs.file(g.key)->size > ref::KEY_HEADER && seen++ >= skip) { snap = w.fs.clone(); have = true; }
                return {};
            };
            auto ec = do_rekey(g, g.block_size, std::max(g.load_factor, 0.05f), 1 + w.disk.size(), 1000); CHECK(! ec, "rekey: %s", ecs(ec).c_str());
            w.fs.hook = nullptr;
            take(have ? snap : w.fs.clone());
            f.rekeylog = f.haslog;
            if(have) c.label("rekey-log");
        }
        else take(w.fs);
    }
    return f;
}

} // namespace

PROPERTY(C18)
{
    Geo g = gen_geo(c, SMALL_KEYS | SMALL_BLOCKS | SMALL_VALUES);
    c.note("%s", g.str().c_str());
    unsigned const kind = (unsigned)c.weighted({3, 4, 2});
    Files const a = make_files(c, g, kind);
    unsigned const rounds = 12;
    for(unsigned r = 0; r < rounds; ++r)
    {
        Files f = a; unsigned hash = g.hash; std::string what;
        switch(c.weighted({8, 4, 1, 1, 1}))
        {
        case 4:             // a file that ends inside its header
            if(c.chance(1, 4)) f.key.resize(c.draw(ref::KEY_HEADER));
            else f.dat.resize(std::min<uint64_t>(f.dat.size(), c.chance(1, 2) ? ref::DAT_HEADER - 1 - c.draw(4) : c.draw(ref::DAT_HEADER)));
            what = fmt("data file of %zu bytes, key file of %zu", f.dat.size(), f.key.size()); c.label("cut-header");
            break;
        case 0: case 1:     // one or two header fields
        {
            unsigned const n = c.chance(1, 5) ? 2 : 1;
            for(unsigned i = 0; i < n; ++i)
            {
                unsigned which = (unsigned)c.draw(f.haslog ? 3 : 2);
                std::string& s = which == 0 ? f.dat : which == 1 ? f.key : f.log;
                if(s.size() < 104 && which < 2) continue;
                static struct { unsigned off, n; char const* name; } const F[] = {{0, 8, "type"}, {8, 2, "version"}, {10, 8, "uid"}, {18, 8, "appnum"}, {26, 2, "key_size"},
                    {28, 8, "salt"}, {36, 8, "pepper"}, {44, 2, "block_size"}, {46, 2, "load_factor"}};
                unsigned const fi = (unsigned)c.draw(which == 0 ? 5 : which == 1 ? 9 : 8);
                uint64_t const old = get(s, F[fi].off, F[fi].n);
                uint64_t v = old ^ (1ull << c.draw(F[fi].n * 8));
                if(c.chance(1, 4)) v = old + 1;
                if(c.chance(1, 4)) v = 0;
                if(fi == 7 && which == 1 && ! f.haslog) v = c.draw(122);        // anything else could be a smaller table
                if(fi == 8) v = 0;
                if(F[fi].n == 2) v &= 0xffff;
                put(s, F[fi].off, v, F[fi].n);
                if(fi == 5 && c.chance(1, 2)) put(s, 36, pep(hash, get(s, 28, 8)), 8);          // another salt with a right pepper
                what += fmt("%s %s %llx -> %llx; ", which == 0 ? "data" : which == 1 ? "key" : "log", F[fi].name, (unsigned long long)old, (unsigned long long)v);
                c.label(fmt("%s.%s", which == 0 ? "data" : which == 1 ? "key" : "log", F[fi].name));
            }
            break;
        }
        case 2:             // files of another database
        {
            Geo g2 = g; unsigned m = (unsigned)c.range(1, 63);
            if(m & 1) g2.uid = c.u64(); if(m & 2) g2.appnum = c.u64(); if(m & 4) g2.salt = c.u64();
            if(m & 8) g2.key_size = c.range(1, 40); if(m & 16) g2.block_size = c.range(122, 300); if(m & 32) g2.hash = (unsigned)c.draw(HASH_MODES);
            Files b = make_files(c, g2, kind);
            use_hash(g);
            unsigned s = (unsigned)c.range(1, 7);
            if(s & 1) f.dat = b.dat; if(s & 2) f.key = b.key;
            if((s & 4) && b.haslog && f.haslog) f.log = b.log;
            what = fmt("files %u of another database", s); c.label("swapped");
            break;
        }
        default:            // another hash function
            hash = (unsigned)c.draw(HASH_MODES); what = "another hash function"; c.label("other-hash");
        }
        for(unsigned op = 0; op < 5; ++op)
        {
            if(a.rekeylog && op == 2) continue;         // verify wants a recovered database
            std::string const* log = f.haslog && op != 4 ? &f.log : nullptr;
            if(log && op == 2) continue;
            auto x = expected(op, hash, f.dat, f.key, log);
            // Without a mismatch the files may be processed; another check judges that
            bool const must = ! x.e.empty();
            if(! must) continue;
            World v(c, g);
            v.fs.put(g.dat, f.dat); if(op != 4) v.fs.put(g.key, f.key); if(log) v.fs.put(g.log, f.log);
            auto const before = v.fs.clone();
            Geo gh = g; gh.hash = hash; use_hash(gh);
            error_code ec; char const* name[] = {"open", "recover", "verify", "visit", "rekey"};
            switch(op)
            {
            case 0: v.g.hash = hash; ec = v.try_open(); break;
            case 1: ec = do_recover(gh); break;
            case 2: { nudb::verify_info i; ec = do_verify(gh, c.pick({0, 1000000}), i); break; }
            case 3: { std::vector<std::pair<std::string, std::string>> out; ec = do_visit(gh, out); CHECK(out.empty(), "visit called back on a refused file"); break; }
            default: ec = do_rekey(gh, 128, 0.5f, 10, 1000); break;
            }
            ++c.evals;
            CHECK(ec, "%s accepted: %s", name[op], what.c_str());
            CHECK(x.has(ec), "%s gave %s for: %s; the documented error is %s%s", name[op], ecs(ec).c_str(), what.c_str(),
                nudb::error_code(static_cast<error>(*x.e.begin())).message().c_str(), x.e.size() > 1 ? " or another" : "");
            v.drop();
            CHECK(v.fs.open_count() == 0, "%s left files open", name[op]);
            for(auto& b : before.dir)
                CHECK(v.fs.exists(b.first) && *v.fs.file(b.first) == b.second->cur, "%s refused the files (%s: %s) but changed %s", name[op], what.c_str(), ecs(ec).c_str(), b.first.c_str());
            for(auto& b : v.fs.dir)
                CHECK(before.exists(b.first), "%s refused the files (%s: %s) but left a new file %s", name[op], what.c_str(), ecs(ec).c_str(), b.first.c_str());
            c.nontrivial(x.e.size() == 1);
            c.label(fmt("%s: %s", name[op], ec.message().c_str()));
        }
    }
    // a log record for a bucket or with a spill record that cannot exist
    if(kind == 1 && a.haslog && a.log.size() >= ref::LOG_HEADER + 16)
    {
        std::vector<size_t> at; ref::KeyHeader kh; CHECK(ref::parse_key(a.key, kh), "key file header");
        for(size_t o = ref::LOG_HEADER; o + 16 <= a.log.size(); )
        {
            uint64_t const n = get(a.log, o + 8, 2);
            if(o + 16 + 18 * n > a.log.size()) break;
            at.push_back(o); o += 16 + 18 * n;
        }
        for(unsigned r = 0; r < 3 && ! at.empty(); ++r)
        {
            auto log = a.log; auto const o = c.pick(at); bool const idx = c.chance(1, 2);
            uint64_t const full = 8 + 18 * kh.capacity;
            if(idx) put(log, o, kh.buckets + 1 + (c.chance(1, 2) ? c.draw(40) : c.chance(1, 4) ? ~0ull - kh.buckets - 1 - c.draw(3) : c.draw(1ull << c.range(1, 62))), 8);
            else
            {
                uint64_t const lo = a.dat.size() >= full ? a.dat.size() - full + 1 : 1;
                put(log, o + 10, std::min<uint64_t>((1ull << 48) - 1, lo + (c.chance(1, 2) ? c.draw(full + 10) : c.draw(1ull << c.range(1, 47)))), 6);
            }
            for(unsigned op = 0; op < 2; ++op)
            {
                World v(c, g);
                v.fs.put(g.dat, a.dat); v.fs.put(g.key, a.key); v.fs.put(g.log, log);
                use_hash(g);
                auto ec = op ? do_recover(g) : v.try_open();
                ++c.evals;
                auto const want = idx ? error::invalid_log_index : error::invalid_log_spill;
                CHECK(ec == want, "%s of a log with a record of bucket %llu (of %llu), spill %llu (data file %zu bytes) gave %s", op ? "recover" : "open", (unsigned long long)get(log, o, 8),
                    (unsigned long long)kh.buckets, (unsigned long long)get(log, o + 10, 6), a.dat.size(), ecs(ec).c_str());
                v.drop();
                CHECK(v.dat() == a.dat && v.fs.file(g.log)->str() == log && v.fs.dir.size() == 3, "%s refused the log but changed it or the data file", op ? "recover" : "open");
                CHECK(v.key().size() == a.key.size(), "%s refused the log but resized the key file", op ? "recover" : "open");
                c.label(idx ? "log record index" : "log record spill");
            }
        }
    }
    // the unchanged files are not refused
    if(! a.rekeylog)
    {
        use_hash(g);
        World v(c, g);
        v.fs.put(g.dat, a.dat); v.fs.put(g.key, a.key); if(a.haslog) v.fs.put(g.log, a.log);
        auto ec = v.try_open(); CHECK(! ec, "open refused matching files: %s", ecs(ec).c_str());
    }
}

//------------------------------------------------------------------------------
// C21

PROPERTY(C21)
{
    unsigned const n = 40;
    for(unsigned i = 0; i < n; ++i)
    {
        uint64_t len;
        switch(c.weighted({6, 3, 2}))
        {
        case 0: len = c.draw(130); break;
        case 1: len = c.skew(0, 5000); break;
        default: len = 32 * c.draw(40) + c.pick({0, 1, 3, 4, 5, 7, 8, 12, 31}); break;
        }
        if(c.chance(1, 400)) len = c.skew(5000, 300000);
        if(i == 0 && c.chance(1, 4000)) { len = (1ull << c.range(19, 26)) - 50 + c.draw(100); c.label("megabytes"); }
        uint64_t const seed = c.chance(1, 3) ? c.pick({0ull, 1ull, ~0ull, 1ull << 63, 0xffffffffull, 0x9E3779B185EBCA87ull}) : c.u64();
        unsigned const align = (unsigned)c.draw(16);
        unsigned const content = (unsigned)c.draw(4);
        // exact-size heap block that ends where the input ends: an overread is seen
        std::unique_ptr<uint8_t[]> p(new uint8_t[align + len]);
        uint8_t* b = p.get() + align;
        if(content == 0) memset(b, 0, len);
        else if(content == 1) memset(b, 0xff, len);
        else eng::fill_bytes(b, len, c.draw(1000000));
        uint64_t const want = ref::xxh64(b, len, seed);
        nudb::xxhasher h(seed);
        uint64_t const got = h(b, len);
        CHECK(got == want, "xxhasher(seed %llx) of %llu bytes at alignment %u is %016llx, XXH64 is %016llx", (unsigned long long)seed, (unsigned long long)len, align & 7, (unsigned long long)got, (unsigned long long)want);
        // a copy elsewhere, another object
        std::unique_ptr<uint8_t[]> q(new uint8_t[len + 7]); unsigned o2 = (unsigned)c.draw(8); (void)o2;
        memcpy(q.get() + (o2 & 7) % 8 - 0, b, 0);
        unsigned const sh = o2 > 7 ? 7 : o2;
        std::unique_ptr<uint8_t[]> q2(new uint8_t[len + sh]); memcpy(q2.get() + sh, b, len);
        nudb::xxhasher const h2(seed);
        CHECK(h2(q2.get() + sh, len) == want, "xxhasher depends on the address");
        ++c.evals;
        c.label(len == 0 ? "empty" : len < 32 ? "short" : len % 32 == 0 ? "whole-stripes" : "stripes+tail");
        if(reinterpret_cast<uintptr_t>(b) & 7) c.label("unaligned");
        if(len >= 32 && len % 8) c.nontrivial();
        if(i < 3) c.note("len %llu seed %llx align %u -> %016llx", (unsigned long long)len, (unsigned long long)seed, align, (unsigned long long)got);
    }
    if(c.chance(1, 30000) || (eng::thorough && c.chance(1, 20000)))
    {
        // more than 2^32 bytes
        uint64_t const len = (1ull << (c.chance(1, 3) ? 31 : 32)) + c.draw(100);
        void* m = mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(m != MAP_FAILED)
        {
            uint64_t a = nudb::xxhasher(5)(m, len), b = ref::xxh64(m, len, 5);
            munmap(m, len);
            CHECK(a == b, "xxhasher of %llu bytes is %016llx, XXH64 is %016llx", (unsigned long long)len, (unsigned long long)a, (unsigned long long)b);
            c.label(len >> 32 ? "beyond-4GB" : "beyond-2GB");
        }
    }
}

//------------------------------------------------------------------------------
// C22: an in-memory File type that checks how it is used

namespace {

struct Disk
{
    std::map<std::string, std::shared_ptr<std::string>> files;
    std::string bad;                // first misuse
    std::map<std::string, unsigned> held;       // objects that have the file open
    unsigned alive = 0, open = 0; bool erase_failed = false;
    uint64_t ops[10] = {};
    uint64_t fail_at = ~0ull, n = 0;    // the fail_at-th operation fails
    std::map<std::string, std::set<int>> modes;
};
Disk* the_disk;     // for the static erase

// An argument that shows whether it was moved from: every object made by a call
// gets the caller's value, even if the caller passes a temporary.
struct Tag
{
    int v;
    explicit Tag(int x) : v(x) {}
    Tag(Tag const&) = default;
    Tag(Tag&& o) : v(o.v) { o.v = 0; }
};

class MemFile
{
    Disk* d_; int tag_;
    std::shared_ptr<std::string> f_; nudb::file_mode m_{}; std::string path_;
    void misuse(std::string const& s) const { if(the_disk && the_disk->bad.empty()) the_disk->bad = s; }
    bool fault(error_code& ec) const
    {
        if(! d_) { ec = make_error_code(boost::system::errc::bad_file_descriptor); return true; }
        if(d_->n++ == d_->fail_at) { ec = error_code(EIO, boost::system::generic_category()); return true; }
        return false;
    }
public:
    // With C22_NOARGS the type is default constructible like native_file, so that a
    // library that uses native_file somewhere still compiles and can be observed.
#ifdef C22_NOARGS
#define FARGS
    MemFile() : d_(the_disk), tag_(4242) { ++the_disk->alive; }
#else
#define FARGS , &disk, Tag(tag)
    MemFile() : d_(nullptr), tag_(0) { misuse("a File was constructed without the caller's arguments"); if(the_disk) ++the_disk->alive; }
#endif
    MemFile(Disk* d, Tag tag) : d_(d), tag_(tag.v)
    {
        if(d != the_disk || tag.v != 4242) { misuse("a File was constructed with other arguments"); d_ = the_disk; }
        ++the_disk->alive;
    }
    MemFile(MemFile&& o) : d_(o.d_), tag_(o.tag_), f_(std::move(o.f_)), m_(o.m_), path_(std::move(o.path_)) { o.f_.reset(); ++the_disk->alive; }
    MemFile(MemFile const&) = delete;
    MemFile& operator=(MemFile&& o)
    {
        if(f_ && &o != this) { misuse("move-assigned over an open File"); close(); }
        d_ = o.d_; tag_ = o.tag_; f_ = std::move(o.f_); m_ = o.m_; path_ = std::move(o.path_); o.f_.reset(); return *this;
    }
    ~MemFile() { close(); --the_disk->alive; }
    bool is_open() const { return f_ != nullptr; }
    void close() { if(f_) { f_.reset(); --the_disk->open; --the_disk->held[path_]; } }
    void create(nudb::file_mode m, std::string const& p, error_code& ec)
    {
        if(f_) misuse("create on an open File");
        if(fault(ec)) return;
        ++d_->ops[0];
        if(d_->files.count(p)) { ec = make_error_code(boost::system::errc::file_exists); return; }
        f_ = d_->files[p] = std::make_shared<std::string>(); m_ = m; path_ = p; ++d_->open; ++d_->held[p];
        d_->modes[p].insert((int)m);
        if(m == nudb::file_mode::scan || m == nudb::file_mode::read) misuse("create with a read mode");
        ec = {};
    }
    void open(nudb::file_mode m, std::string const& p, error_code& ec)
    {
        if(f_) misuse("open on an open File");
        if(fault(ec)) return;
        ++d_->ops[1];
        auto it = d_->files.find(p);
        if(it == d_->files.end()) { ec = make_error_code(boost::system::errc::no_such_file_or_directory); return; }
        f_ = it->second; m_ = m; path_ = p; ++d_->open; ++d_->held[p];
        ec = {};
    }
    static void erase(std::string const& p, error_code& ec)
    {
        ++the_disk->ops[2];
        // not every system can erase an open file
        if(the_disk->held[p] && the_disk->bad.empty()) the_disk->bad = "erase of a file that is open: " + p;
        if(the_disk->n++ == the_disk->fail_at) { the_disk->erase_failed = true; ec = error_code(EIO, boost::system::generic_category()); return; }
        auto it = the_disk->files.find(p);
        if(it == the_disk->files.end()) { ec = make_error_code(boost::system::errc::no_such_file_or_directory); return; }
        the_disk->files.erase(it);
        ec = {};
    }
    std::uint64_t size(error_code& ec) const
    {
        if(! f_) { misuse("size of a File that is not open"); return 0; }
        if(fault(ec)) return 0;
        ++d_->ops[3]; ec = {}; return f_->size();
    }
    void read(std::uint64_t o, void* b, std::size_t n, error_code& ec)
    {
        if(! f_) { misuse("read of a File that is not open"); return; }
        if(fault(ec)) return;
        ++d_->ops[4];
        if(o > f_->size() || n > f_->size() - o) { ec = error::short_read; return; }
        memcpy(b, f_->data() + o, n); ec = {};
    }
    void write(std::uint64_t o, void const* b, std::size_t n, error_code& ec)
    {
        if(! f_) { misuse("write to a File that is not open"); return; }
        if(m_ == nudb::file_mode::scan || m_ == nudb::file_mode::read) misuse("write to a File opened for reading: " + path_);
        if(m_ == nudb::file_mode::append && o != f_->size() ) misuse(fmt("write at %llu to %s of %zu bytes opened for appending", (unsigned long long)o, path_.c_str(), f_->size()));
        if(fault(ec)) return;
        ++d_->ops[5];
        if(f_->size() < o + n) f_->resize(o + n, 0);
        memcpy(&(*f_)[o], b, n); ec = {};
    }
    void sync(error_code& ec)
    {
        if(! f_) { misuse("sync of a File that is not open"); return; }
        if(fault(ec)) return;
        ++d_->ops[6]; ec = {};
    }
    void trunc(std::uint64_t n, error_code& ec)
    {
        if(! f_) { misuse("trunc of a File that is not open"); return; }
        if(m_ == nudb::file_mode::scan || m_ == nudb::file_mode::read) misuse("trunc of a File opened for reading: " + path_);
        if(fault(ec)) return;
        ++d_->ops[7]; f_->resize(n, 0); ec = {};
    }
};

} // namespace

PROPERTY(C22)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS | SMALL_VALUES);
    c.note("%s", g.str().c_str());
    use_hash(g);
    // names that exist nowhere: the trap must stay silent
    std::string const D = "/nowhere/c22.dat", K = "/nowhere/c22.key", L = "/nowhere/c22.log";
    simfs::FS fs; simfs::Use use(fs);
    Disk disk; the_disk = &disk;
    struct Done { ~Done() { simfs::trap_real = false; the_disk = nullptr; } } done;
    simfs::real_log.clear(); simfs::trap_real = true;
    auto ok = [&](char const* when)
    {
        CHECK(disk.bad.empty(), "%s: %s", when, disk.bad.c_str());
        CHECK(simfs::real_log.empty(), "%s: the operating system was asked: %s", when, simfs::real_log[0].c_str());
        CHECK(fs.nops == 0, "%s: native files used", when);
    };
    int const tag = 4242; error_code ec;
    bool const dup = c.chance(1, 6);
    if(dup)
    {
        unsigned which = (unsigned)c.draw(3);
        disk.files[which == 0 ? D : which == 1 ? K : L] = std::make_shared<std::string>("existing");
    }
    // both overloads
    if(c.chance(1, 6)) { disk.fail_at = c.draw(15); c.label("create-fault"); }
    bool const shorter = c.chance(1, 3);
    if(shorter) { nudb::create<DynHash, MemFile>(D, K, L, g.appnum, g.salt, g.key_size, g.block_size, g.load_factor, ec FARGS); c.label("create-without-uid"); }
    else nudb::create<DynHash, MemFile>(D, K, L, g.appnum, g.uid, g.salt, g.key_size, g.block_size, g.load_factor, ec FARGS);
    ok("create");
    CHECK(disk.alive == 0 && disk.open == 0, "create: File objects left");
    if(ec)
    {
        CHECK(dup || disk.fail_at != ~0ull, "create: %s", ecs(ec).c_str());
        // what create made it must remove through the same type
        for(auto& f : disk.files) CHECK(*f.second == "existing" || disk.erase_failed, "failed create left %s", f.first.c_str());
        c.label("create-refused"); c.nontrivial();
        disk.fail_at = ~0ull; disk.files.clear();
        nudb::create<DynHash, MemFile>(D, K, L, g.appnum, g.uid, g.salt, g.key_size, g.block_size, g.load_factor, ec FARGS);
    }
    disk.fail_at = ~0ull;
    CHECK(! ec, "create: %s", ecs(ec).c_str());
    KV model, pend; uint64_t next = 0;
    unsigned const rounds = (unsigned)c.range(1, 4);
    for(unsigned r = 0; r < rounds; ++r)
    {
        {
            nudb::context ctx;
            nudb::basic_store<DynHash, MemFile> s(ctx);
            s.open(D, K, L, ec FARGS);
            CHECK(! ec, "open: %s", ecs(ec).c_str()); ok("open");
            CHECK(disk.alive == 3 && disk.open == 3, "an open store holds %u File objects, %u open", disk.alive, disk.open);
            unsigned const n = (unsigned)c.skew(1, 60); bool failed = false;
            for(unsigned i = 0; i < n && ! failed; ++i)
            {
                if(c.chance(3, 4) && next < g.key_domain())
                {
                    auto k = key_bytes(g, next), v = val_bytes(g, next, 0, gen_len(c, g)); ++next;
                    ec = h::insert(s, k, v); CHECK(! ec, "insert: %s", ecs(ec).c_str()); pend[k] = v;
                }
                else if(next)
                {
                    auto k = key_bytes(g, c.draw(next)); auto f = h::fetch(s, k);
                    auto const* v = pend.count(k) ? &pend[k] : model.count(k) ? &model[k] : nullptr;
                    if(v) CHECK(! f.ec && f.val == *v, "fetch: wrong (%s)", ecs(f.ec).c_str());
                }
                if(c.chance(1, 10)) { ctx.flush(); model.insert(pend.begin(), pend.end()); pend.clear(); ok("commit"); }
            }
            if(c.chance(1, 4))
            {
                disk.fail_at = disk.n + c.draw(40); c.label("store-fault");
                ctx.flush();
                s.close(ec);
                disk.fail_at = ~0ull;
                ok("commit or close with a failing operation");
            }
            else if(c.chance(1, 2)) { s.close(ec); CHECK(! ec, "close: %s", ecs(ec).c_str()); model.insert(pend.begin(), pend.end()); pend.clear(); ok("close"); }
            else { c.label("destroyed"); model.insert(pend.begin(), pend.end()); pend.clear(); }
        }
        ok("destruction");
        CHECK(disk.alive == 0 && disk.open == 0, "%u File objects left after the store, %u open", disk.alive, disk.open);
        nudb::recover<DynHash, MemFile>(D, K, L, ec FARGS);
        CHECK(! ec, "recover: %s", ecs(ec).c_str()); ok("recover");
        CHECK(disk.alive == 0 && disk.open == 0, "recover: File objects left");
        CHECK(! disk.files.count(L), "log file left");
        ref::Db d; auto why = ref::check(*disk.files[D], *disk.files[K], hash_fn(g.hash), d);
        CHECK(why.empty(), "files: %s", why.c_str());
        if(! pend.empty())
        {
            KV both = model; both.insert(pend.begin(), pend.end());
            CHECK(kvdiff(d.kv, model).empty() || kvdiff(d.kv, both).empty(), "contents after a failed commit: %s", kvdiff(d.kv, model).c_str());
            model = d.kv; pend.clear();
        }
        else { auto df = kvdiff(d.kv, model); CHECK(df.empty(), "contents: %s", df.c_str()); }
        if(c.chance(1, 3))
        {
            // rekey, possibly interrupted and recovered
            disk.files.erase(K);
            uint64_t bs = c.range(122, 300);
            bool const f = c.chance(1, 2);
            if(f) disk.fail_at = disk.n + c.draw(30);
            nudb::rekey<DynHash, MemFile>(D, K, L, bs, 0.5f, model.size(), c.skew(0, 2000), ec, [](uint64_t, uint64_t) {} FARGS);
            ok("rekey"); CHECK(disk.alive == 0 && disk.open == 0, "rekey: File objects left");
            if(ec && f)
            {
                disk.fail_at = ~0ull; c.label("rekey-fault");
                if(disk.files.count(K))
                {
                    nudb::recover<DynHash, MemFile>(D, K, L, ec FARGS); ok("recover after rekey");
                    disk.files.erase(K);
                }
                disk.files.erase(L);
                nudb::rekey<DynHash, MemFile>(D, K, L, bs, 0.5f, model.size(), c.skew(0, 2000), ec, [](uint64_t, uint64_t) {} FARGS);
            }
            disk.fail_at = ~0ull;
            CHECK(! ec, "rekey: %s", ecs(ec).c_str());
            ok("rekey"); CHECK(disk.alive == 0 && disk.open == 0, "rekey: File objects left");
            CHECK(! disk.files.count(L), "rekey left a log"); c.label("rekey");
        }
        if(model.size() > 5) c.nontrivial();
    }
    if(c.chance(1, 2))
    {
        // cleaning up
        nudb::erase_file<MemFile>(D, ec); CHECK(! ec, "erase_file: %s", ecs(ec).c_str());
        nudb::erase_file<MemFile>(K); ok("erase_file");
        CHECK(! disk.files.count(D) && ! disk.files.count(K), "erase_file did not erase");
        nudb::erase_file<MemFile>(D, ec); CHECK(! ec, "erase_file of a missing file: %s", ecs(ec).c_str());
    }
}

//------------------------------------------------------------------------------
// C26

// "NUDB_UIDS" turns the harness into a program that prints fresh values
static struct Uids
{
    Uids()
    {
        if(! getenv("NUDB_UIDS")) return;
        for(int i = 0; i < 64; ++i) printf("%llx\n%llx\n", (unsigned long long)nudb::make_uid(), (unsigned long long)nudb::make_salt());
        fflush(stdout); _exit(0);
    }
} uids;

namespace {
void uniform(Case& c, char const* name, std::vector<uint64_t> const& v)
{
    // 8 standard deviations: will not happen by chance
    double const n = (double)v.size(), lim = 8 * std::sqrt(n) / 2;
    for(unsigned b = 0; b < 64; ++b)
    {
        uint64_t k = 0, same = 0;
        for(size_t i = 0; i < v.size(); ++i) { k += v[i] >> b & 1; if(i) same += ! ((v[i] ^ v[i - 1]) >> b & 1); }
        CHECK(std::fabs(k - n / 2) <= lim, "bit %u of %s is set in %llu of %zu values", b, name, (unsigned long long)k, v.size());
        CHECK(std::fabs(same - n / 2) <= lim, "bit %u of %s repeats from call to call %llu of %zu times", b, name, (unsigned long long)same, v.size());
    }
    for(unsigned b = 0; b < 56; b += 8)
    {
        std::vector<uint64_t> h(256); for(auto x : v) ++h[x >> b & 255];
        for(unsigned i = 0; i < 256; ++i) CHECK(std::fabs(h[i] - n / 256) <= 8 * std::sqrt(n / 256) + 8, "byte %u of %s is %02x in %llu of %zu values", b / 8, name, i, (unsigned long long)h[i], v.size());
        // neighbouring bits are independent
        uint64_t k = 0; for(auto x : v) k += (x >> b ^ x >> (b + 1)) & 1;
        CHECK(std::fabs(k - n / 2) <= lim, "bits %u and %u of %s are related", b, b + 1, name);
    }
    c.evals += v.size();
}
}

PROPERTY(C26)
{
    struct Real { Real() { eng::real_random = true; } ~Real() { eng::real_random = false; } } real;
    // how many values, and where a second thread of control starts
    size_t const n = 120000 + c.draw(10000);
    std::vector<uint64_t> u(n), s(n);
    for(size_t i = 0; i < n; ++i) { u[i] = nudb::make_uid(); s[i] = nudb::make_salt(); }
    c.note("%zu uids from %016llx and salts from %016llx", n, (unsigned long long)u[0], (unsigned long long)s[0]);
    uniform(c, "make_uid", u); uniform(c, "make_salt", s);
    for(size_t i = 0; i < n; ++i) CHECK(u[i] != s[i], "make_uid and make_salt return the same value");
    auto all = u; all.insert(all.end(), s.begin(), s.end());
    std::sort(all.begin(), all.end());
    for(size_t i = 1; i < all.size(); ++i)
        CHECK(all[i] != all[i - 1], "the value %016llx came up twice among %zu", (unsigned long long)all[i], all.size());
    // processes started at the same time do not get the same values
    {
        std::set<std::string> seen; FILE* p[3]; char exe[4096]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1);
        CHECK(k > 0, "no /proc/self/exe"); exe[k] = 0;
        std::string cmd = "NUDB_UIDS=1 '" + std::string(exe) + "'";
        for(auto& f : p) f = popen(cmd.c_str(), "r");
        for(auto& f : p)
        {
            char line[64]; unsigned m = 0; while(f && fgets(line, sizeof line, f)) { ++m; CHECK(seen.insert(line).second, "two processes got the same value %s", line); }
            if(f) pclose(f);
            CHECK(m == 128, "the child printed %u values", m);
        }
        c.label("processes", 3);
    }
    // databases made without an explicit uid, and salts of rekeyed files
    {
        Geo g; std::set<uint64_t> us, ss; simfs::FS fs; simfs::Use use(fs); hash_mode = 0;
        for(unsigned i = 0; i < 200; ++i)
        {
            fs.dir.clear(); error_code ec;
            nudb::create<DynHash, nudb::native_file>(g.dat, g.key, g.log, 7, g.salt, 8, 256, 0.5f, ec);
            CHECK(! ec, "create: %s", ecs(ec).c_str());
            ref::DatHeader d; ref::KeyHeader kh; ref::parse_dat(fs.file(g.dat)->str(), d); ref::parse_key(fs.file(g.key)->str(), kh);
            CHECK(d.uid == kh.uid && us.insert(d.uid).second, "two databases have the uid %llx", (unsigned long long)d.uid);
            CHECK(d.appnum == 7 && kh.salt == g.salt, "create without uid mixed up its arguments");
            fs.erase(g.key); fs.erase(g.log);
            ec = do_rekey(g, 256, 0.5f, 1, 1000); CHECK(! ec, "rekey: %s", ecs(ec).c_str());
            ref::parse_key(fs.file(g.key)->str(), kh);
            CHECK(kh.uid == d.uid && ss.insert(kh.salt).second, "two rekeyed files have the salt %llx", (unsigned long long)kh.salt);
            if(i % 4 == 0)
            {
                // the same data file again gets another salt
                fs.erase(g.key);
                ec = do_rekey(g, 256, 0.5f, 1, 1000); CHECK(! ec, "rekey: %s", ecs(ec).c_str());
                ref::parse_key(fs.file(g.key)->str(), kh);
                CHECK(kh.uid == d.uid && ss.insert(kh.salt).second, "two rekeys of one data file made the salt %llx", (unsigned long long)kh.salt);
            }
        }
        for(auto x : us) CHECK(! ss.count(x), "a uid equals a salt");
        uint64_t o = 0, a = ~0ull; for(auto x : us) { o |= x; a &= x; } CHECK(! ~o && ! a, "uids of created databases have constant bits");
        o = 0, a = ~0ull; for(auto x : ss) { o |= x; a &= x; } CHECK(! ~o && ! a, "salts of rekeyed files have constant bits");
    }
    c.nontrivial();
}
