// C29 databases and values of every documented size
#include "db.hpp"
#include <algorithm>
#include <fcntl.h>
#include <poll.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <unistd.h>
using namespace h;
using simfs::Op; using simfs::Act; using simfs::Blob; using simfs::FS;
using nudb::error; using nudb::error_code;

namespace {

typedef unsigned long long ull;

// A chain read straight from sparse files, by the documentation only
struct Found { bool ok = false; std::string val; unsigned reads = 0; };
Found lookup(FS const& fs, Geo const& g, std::string const& k)
{
    Blob const& dat = *fs.file(g.dat); Blob const& key = *fs.file(g.key);
    CHECK(key.size % g.block_size == 0 && key.size / g.block_size >= 2, "key file of %llu bytes", (ull)key.size);
    uint64_t const buckets = key.size / g.block_size - 1;
    uint64_t const hash = ref_hash(g.hash, g.salt, k.data(), k.size()) >> 16, n = ref::bucket_of(hash, buckets), cap = g.capacity();
    Blob const* f = &key; uint64_t off = (n + 1) * g.block_size;
    Found r;
    for(;;)
    {
        CHECK(++r.reads < 100000, "endless chain");
        uint8_t hd[8];
        CHECK(f->read(off, hd, 8) == 8, "bucket of key %s at %llu beyond the file", eng::hex(k.data(), k.size()).c_str(), (ull)off);
        uint64_t const cnt = ref::be(hd, 2), spill = ref::be(hd + 2, 6);
        CHECK(cnt <= cap && (r.reads == 1 || cnt == cap), "bucket %llu: %llu entries", (ull)n, (ull)cnt);
        std::string b(cnt * 18, 0);
        CHECK(f->read(off + 8, &b[0], b.size()) == b.size(), "bucket entries beyond the file");
        uint64_t last = 0;
        for(uint64_t i = 0; i < cnt; ++i)
        {
            auto p = (uint8_t const*)b.data() + 18 * i;
            uint64_t const o = ref::be(p, 6), s = ref::be(p + 6, 6), h = ref::be(p + 12, 6);
            CHECK(h >= last, "bucket %llu not sorted", (ull)n); last = h;
            CHECK(ref::bucket_of(h, buckets) == n, "entry of bucket %llu belongs to %llu of %llu", (ull)n, (ull)ref::bucket_of(h, buckets), (ull)buckets);
            CHECK(s && o + 6 + g.key_size + s <= dat.size, "entry of bucket %llu: %llu bytes at %llu", (ull)n, (ull)s, (ull)o);
            if(h != hash) continue;
            std::string rec(6 + g.key_size, 0);
            dat.read(o, &rec[0], rec.size());
            CHECK(ref::be((uint8_t const*)rec.data(), 6) == s, "value size differs from its entry");
            if(rec.compare(6, g.key_size, k)) continue;
            CHECK(! r.ok, "key found twice");
            r.ok = true; r.val.resize(s); dat.read(o + 6 + g.key_size, &r.val[0], s);
        }
        if(! spill) return r;
        f = &dat; off = spill;
        uint8_t sh[8];
        CHECK(spill >= 100 && dat.read(spill - 8, sh, 8) == 8 && ref::be(sh, 6) == 0 && ref::be(sh + 6, 2) == 8 + 18 * cap, "spill offset %llu is no spill record", (ull)spill);
    }
}

void check_image(FS const& fs, Geo const& g, KV const& want, KV const& absent, char const* when)
{
    for(auto& e : want)
    {
        auto f = lookup(fs, g, e.first);
        CHECK(f.ok, "%s: key %s is missing", when, eng::hex(e.first.data(), e.first.size()).c_str());
        CHECK(f.val == e.second, "%s: key %s has another value", when, eng::hex(e.first.data(), e.first.size()).c_str());
    }
    for(auto& e : absent) CHECK(! lookup(fs, g, e.first).ok, "%s: key %s is present", when, eng::hex(e.first.data(), e.first.size()).c_str());
}

void resize(FS& fs, std::string const& p, uint64_t n) { Blob b = *fs.file(p); b.trunc(n); fs.put(p, b); }

// Sparse files: the offsets of a database of many terabytes without its bytes
void sparse(Case& c)
{
    Geo g = gen_geo(c, SMALL_KEYS | SMALL_VALUES);
    if(g.key_size < 4) g.key_size = 4 + g.key_size;
    g.hash = c.weighted({4, 0, 1, 0, 1, 2, 2});
    if(c.chance(1, 2)) g.load_factor = c.pick({0.5f, 0.05f, 0.9f});
    World w(c, g);
    w.create();
    uint64_t buckets = 1;
    switch(c.weighted({2, 3, 2}))
    {
    case 0: break;
    case 1: buckets = c.skew(2, (1ull << 32) - 5000); break;
    default: buckets = (1ull << c.range(8, 31)) + c.draw(40) - 20; break;
    }
    buckets = std::max<uint64_t>(1, std::min<uint64_t>(buckets, (1ull << 46) / g.block_size - 2));
    if(buckets > 1) resize(w.fs, g.key, (buckets + 1) * g.block_size);
    c.note("%s, %llu buckets", g.str().c_str(), (ull)buckets);
    unsigned const sessions = (unsigned)c.range(1, 4);
    unsigned commits = 0, images = 0; uint64_t items = 0;
    for(unsigned s = 0; s < sessions; ++s)
    {
        uint64_t cur = w.fs.file(g.dat)->size;
        if(c.chance(3, 4))
        {
            uint64_t to;
            if(c.chance(1, 2)) to = c.pick({1ull << 31, 1ull << 32, 1ull << 33, 1ull << 40, 1ull << 46}) - c.draw(3000);
            else to = cur + c.skew(1, 1ull << 46);
            if(to > cur && to < (1ull << 47)) { resize(w.fs, g.dat, to); c.note("data file grown to %llu", (ull)to); }
        }
        w.open();
        unsigned const rounds = (unsigned)c.range(1, 4);
        for(unsigned r = 0; r < rounds; ++r)
        {
            uint64_t const n = c.skew(1, 60);
            for(uint64_t i = 0; i < n; ++i)
                switch(c.weighted({8, 1, 2, 1}))
                {
                case 0: w.op_insert_new(); ++items; break;
                case 1: w.op_insert_dup(); break;
                case 2: w.op_fetch_present(); break;
                default: w.op_fetch_absent();
                }
            KV const before = w.disk, batch = w.buf;
            uint64_t const ksz = w.fs.file(g.key)->size, dsz = w.fs.file(g.dat)->size;
            std::vector<FS> imgs; uint64_t left = c.chance(1, 2) ? 1 + c.skew(0, 100) : 0;
            w.fs.hook = [&](Op const& o) -> Act
            {
                if(left && o.mutating() && --left == 0) { imgs.push_back(simfs::crash_image(w.fs, (unsigned)c.draw(simfs::CRASH_MODES), c)); if(imgs.size() < 2) left = 1 + c.skew(0, 60); }
                return {};
            };
            w.flush(); w.fs.hook = nullptr;
            if(! batch.empty()) ++commits;
            c.note("commit: key file %llu to %llu, data file %llu to %llu", (ull)ksz, (ull)w.fs.file(g.key)->size, (ull)dsz, (ull)w.fs.file(g.dat)->size);
            check_image(w.fs, g, w.disk, {}, "after a commit");
            uint64_t const grown = (w.fs.file(g.key)->size - ksz) / g.block_size;
            CHECK(w.fs.file(g.key)->size >= ksz && grown <= batch.size(), "a commit of %zu items added %llu buckets", batch.size(), (ull)grown);
            for(auto& img : imgs)
            {
                ++images; ++c.evals;
                simfs::Use u(img);
                auto ec = do_recover(g);
                CHECK(! ec, "recover: %s", ecs(ec).c_str());
                bool const done = ! batch.empty() && img.file(g.dat)->size != dsz;
                if(! done)
                {
                    CHECK(img.file(g.key)->size == ksz, "recovered key file has %llu bytes, %llu before the commit", (ull)img.file(g.key)->size, (ull)ksz);
                    check_image(img, g, before, batch, "after recovery");
                }
                else { KV a = before; a.insert(batch.begin(), batch.end()); check_image(img, g, a, {}, "after recovery"); }
                // and it can be used
                World* none = nullptr; (void)none;
                nudb::context ctx; Store db(ctx);
                db.open(g.dat, g.key, g.log, ec);
                CHECK(! ec, "open after recovery: %s", ecs(ec).c_str());
                unsigned m = 0;
                for(auto& e : before) { auto f = h::fetch(db, e.first); CHECK(! f.ec && f.val == e.second, "fetch after recovery: %s", ecs(f.ec).c_str()); if(++m > 20) break; }
                db.close(ec);
                CHECK(! ec, "close after recovery: %s", ecs(ec).c_str());
            }
            w.check_all(60);
        }
        w.close(); w.drop();
        check_image(w.fs, g, w.disk, {}, "after close");
    }
    c.label(buckets > (1ull << 31) ? "buckets-2^31" : buckets > 65536 ? "buckets-2^16" : "buckets-few");
    uint64_t const fin = w.fs.file(g.dat)->size, kfin = w.fs.file(g.key)->size;
    c.label(fin > (1ull << 40) ? "data-1T" : fin > (1ull << 32) ? "data-4G" : fin > (1ull << 31) ? "data-2G" : "data-small");
    c.label(kfin > (1ull << 40) ? "key-1T" : kfin > (1ull << 32) ? "key-4G" : kfin > (1ull << 31) ? "key-2G" : "key-small");
    c.label("crash-images", images);
    c.nontrivial(commits > 1 && items > 5 && (fin > (1ull << 31) || kfin > (1ull << 31)));
}

struct Turn       // the cases that need gigabytes run one at a time
{
    int fd;
    Turn() { fd = ::open("/proc/self/exe", O_RDONLY); if(fd < 0) return;
        while(flock(fd, LOCK_EX | LOCK_NB))
        {
            // busy enough not to be taken for a deadlock
            for(volatile int i = 0; i < 500000; ++i) ;
            poll(nullptr, 0, 20);
        }
    }
    ~Turn() { if(fd >= 0) ::close(fd); }
};

// Sequential scans past 4 GiB
void scan(Case& c)
{
    Turn t;
    Geo g; g.key_size = c.pick({8, 32}); g.block_size = c.pick({4096, 1024});
    use_hash(g);
    FS fs; fs.lean = true; simfs::Use use(fs);
    ref::DatHeader dh{}; dh.type = "nudb.dat"; dh.version = 2; dh.uid = g.uid; dh.appnum = g.appnum; dh.key_size = g.key_size;
    auto hd = ref::make_dat(dh);
    Blob b = Blob::from(hd);
    uint64_t const big = (40ull << 20) + c.draw(20u << 20), total = (1ull << 32) + (150u << 20) + c.draw(1u << 20);
    struct R { std::string k, v; uint64_t size; };
    std::vector<R> recs;
    uint64_t at = b.size, i = 0;
    auto put = [&](uint64_t len)
    {
        R r; r.k = key_bytes(g, i); r.v = val_bytes(g, i, 0, std::min<uint64_t>(len, 20)); r.size = len; ++i;
        std::string s; ref::put_be(s, len, 6); s += r.k; s += r.v;
        b.write(at, s.data(), s.size());
        at += 6 + g.key_size + len;
        if(len > 40) { char e = 7; b.write(at - 1, &e, 1); }
        if(b.size < at) b.trunc(at);
        recs.push_back(r);
    };
    while(at < total) { for(unsigned n = (unsigned)c.draw(3); n; --n) put(c.range(1, 20)); put(big); }
    for(unsigned n = 0; n < 30; ++n) put(c.range(1, 20));
    fs.put(g.dat, b);
    c.note("%zu records, data file %llu bytes, values of %llu bytes", recs.size(), (ull)at, (ull)big);
    auto same = [&](size_t n, void const* k, size_t ks, void const* v, size_t vs)
    {
        CHECK(n < recs.size(), "more than %zu values visited", recs.size());
        auto& r = recs[n];
        CHECK(ks == g.key_size && vs == r.size && ! memcmp(k, r.k.data(), ks) && ! memcmp(v, r.v.data(), r.v.size()) && (vs <= 40 || ((char const*)v)[vs - 1] == 7),
            "value %zu of %zu: wrong key, size (%zu, expected %llu) or contents", n, recs.size(), vs, (ull)r.size);
    };
    size_t n = 0; std::string bad;
    error_code ec;
    nudb::visit(g.dat, [&](void const* k, size_t ks, void const* v, size_t vs, error_code&) { if(bad.empty()) try { same(n, k, ks, v, vs); } catch(eng::Fail& f) { bad = f.what(); } ++n; }, [](uint64_t, uint64_t) {}, ec);
    CHECK(! ec && bad.empty() && n == recs.size(), "visit: %s, %zu of %zu values; %s", ecs(ec).c_str(), n, recs.size(), bad.c_str());
    ec = do_rekey(g, g.block_size, 0.5f, recs.size(), 64 << 20);
    CHECK(! ec, "rekey: %s", ecs(ec).c_str());
    for(unsigned f = 0; f < 2; ++f)
    {
        nudb::verify_info info;
        ec = do_verify(g, f ? 64 << 20 : 0, info);
        uint64_t bytes = 0; for(auto& r : recs) bytes += r.size;
        CHECK(! ec, "verify %u: %s", f, ecs(ec).c_str());
        CHECK(info.value_count == recs.size() && info.key_count == recs.size() && info.value_bytes == bytes && info.dat_file_size == at + info.spill_bytes_tot, "verify %u: %llu values of %llu bytes (%llu keys, data file %llu), expected %zu of %llu (%llu)", f,
            (ull)info.value_count, (ull)info.value_bytes, (ull)info.key_count, (ull)info.dat_file_size, recs.size(), (ull)bytes, (ull)at);
    }
    nudb::context ctx; Store db(ctx);
    db.open(g.dat, g.key, g.log, ec); CHECK(! ec, "open: %s", ecs(ec).c_str());
    for(auto& r : recs)
    {
        error_code e; unsigned calls = 0;
        if(r.size > 40 && &r != &recs[recs.size() - 31]) continue;
        db.fetch(r.k.data(), [&](void const* v, size_t vs) { ++calls; CHECK(vs == r.size && ! memcmp(v, r.v.data(), r.v.size()), "fetch: wrong value"); }, e);
        CHECK(! e && calls == 1, "fetch past 4 GiB: %s", ecs(e).c_str());
    }
    auto e = h::insert(db, recs[5].k, "x"); CHECK(e == error::key_exists, "insert of a present key: %s", ecs(e).c_str());
    auto nk = key_bytes(g, i); e = h::insert(db, nk, "new"); CHECK(! e, "insert: %s", ecs(e).c_str());
    db.close(ec); CHECK(! ec, "close: %s", ecs(ec).c_str());
    g.salt = 0;     // chosen by rekey
    c.label("scan-past-4G");
    c.nontrivial(true);
}

// Verify and rekey with key files of more than 4 GiB
void scan_keys(Case& c)
{
    Turn t;
    Geo g = gen_geo(c, SMALL_KEYS | SMALL_VALUES | GOOD_HASH);
    if(g.key_size < 4) g.key_size += 4;
    g.block_size = c.pick({65535, 65535, 40000, 32768}); g.load_factor = c.pick({0.5f, 0.9f});
    uint64_t const want = ((1ull << 32) + (300ull << 20) + c.draw(1000ull << 20)) / g.block_size;
    World w(c, g);
    w.fs.lean = true;
    w.create();
    resize(w.fs, g.key, (want + 1) * g.block_size);
    w.open();
    for(unsigned r = 0; r < 2; ++r) { for(uint64_t n = c.range(20, 400); n; --n) w.op_insert_new(); w.flush(); }
    w.close(); w.drop();
    check_image(w.fs, g, w.disk, {}, "after close");
    uint64_t const dsz = w.fs.file(g.dat)->size;
    c.note("%s, key file %llu bytes, %zu items", g.str().c_str(), (ull)w.fs.file(g.key)->size, w.disk.size());
    auto verify = [&](char const* when)
    {
        uint64_t const size = w.fs.file(g.key)->size;
        std::vector<uint64_t> bufs{0, (64ull << 20) + c.draw(200ull << 20)};
        if(c.chance(1, 3)) bufs.push_back(size + c.draw(1000));
        for(auto b : bufs)
        {
            nudb::verify_info info;
            auto ec = do_verify(g, b, info);
            CHECK(! ec, "%s: verify with buffer %llu: %s", when, (ull)b, ecs(ec).c_str());
            CHECK(info.key_count == w.disk.size() && info.value_count == w.disk.size() && info.key_file_size == size && info.buckets == size / g.block_size - 1,
                "%s: verify with buffer %llu: %llu keys, %llu values, %llu buckets", when, (ull)b, (ull)info.key_count, (ull)info.value_count, (ull)info.buckets);
            ++c.evals;
        }
    };
    verify("key file past 4 GiB");
    // an entry in one of the last buckets that has no value is noticed
    {
        auto key = *w.fs.file(g.key);
        uint64_t const n = key.size / g.block_size - 1, at = (n - c.draw(20)) * g.block_size;
        std::string e; ref::put_be(e, 1, 2); ref::put_be(e, 0, 6); ref::put_be(e, dsz + 5, 6); ref::put_be(e, 3, 6); ref::put_be(e, 77, 6);
        key.write(at, e.data(), e.size());
        auto const keep = *w.fs.file(g.key);
        w.fs.put(g.key, key);
        for(uint64_t b : {uint64_t(0), uint64_t(100) << 20})
        {
            nudb::verify_info info;
            auto ec = do_verify(g, b, info);
            CHECK(ec, "verify with buffer %llu accepted an entry without a value in bucket %llu", (ull)b, (ull)(at / g.block_size - 1));
        }
        w.fs.put(g.key, keep);
    }
    w.fs.erase(g.key);
    auto const cap = g.capacity();
    uint64_t const items = uint64_t(want * (double)cap * g.load_factor) - 3;
    g.salt = 0;
    auto ec = do_rekey(g, g.block_size, g.load_factor, items, (64ull << 20) + c.draw(400ull << 20));
    CHECK(! ec, "rekey: %s", ecs(ec).c_str());
    ref::KeyHeader kh; std::string hd(ref::KEY_HEADER + 1, 0); w.fs.file(g.key)->read(0, &hd[0], hd.size());
    ref::parse_key(hd, kh); g.salt = kh.salt;
    auto const nb = w.fs.file(g.key)->size / g.block_size - 1;
    CHECK(w.fs.file(g.key)->size % g.block_size == 0 && nb + 2 > want && nb < want + 2, "rekey for %llu items made %llu buckets, expected %llu", (ull)items, (ull)nb, (ull)want);
    CHECK(w.fs.file(g.dat)->size == dsz, "rekey changed the data file size");
    check_image(w.fs, g, w.disk, {}, "after rekey");
    w.g = g;
    verify("after rekey");
    w.open();
    w.check_all(40);
    for(uint64_t n = c.range(1, 30); n; --n) w.op_insert_new();
    w.close(); w.drop();
    check_image(w.fs, g, w.disk, {}, "after rekey and inserts");
    c.label("key-file-scan-past-4G");
    c.nontrivial(true);
}

// One value of gigabytes
void big_value(Case& c)
{
    Turn t;
    uint64_t const size = eng::thorough && c.chance(1, 2) ? 0xffffffffull - c.draw(10) : (1ull << 31) + c.draw(5000) - 100;
    Geo g; use_hash(g);
    FS fs; fs.lean = true; simfs::Use use(fs);
    auto ec = do_create(g); CHECK(! ec, "create: %s", ecs(ec).c_str());
    auto p = (char*)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(p == MAP_FAILED) { c.label("big-value-no-memory"); return; }
    std::vector<uint64_t> marks{0, 1, size / 3, (1ull << 31) - 200, size - 2, size - 1};
    for(auto m : marks) p[m] = (char)(m * 7 + 1);
    struct Un { char* p; uint64_t n; ~Un() { munmap(p, n); } } un{p, size};
    c.note("value of %llu bytes", (ull)size);
    auto k0 = key_bytes(g, 0), k1 = key_bytes(g, 1), k2 = key_bytes(g, 2);
    std::string small = "before", after = "after";
    auto see = [&](Store& db, char const* when)
    {
        error_code e; unsigned calls = 0;
        db.fetch(k1.data(), [&](void const* v, size_t n)
        {
            ++calls;
            CHECK(n == size, "%s: a value of %llu bytes came back with %zu", when, (ull)size, n);
            for(auto m : marks) CHECK(((char const*)v)[m] == (char)(m * 7 + 1), "%s: byte %llu of the value is wrong", when, (ull)m);
            CHECK(((char const*)v)[12345] == 0 && ((char const*)v)[n - 3] == 0, "%s: a byte of the value is wrong", when);
        }, e);
        CHECK(! e && calls == 1, "%s: fetch of a value of %llu bytes: %s", when, (ull)size, ecs(e).c_str());
        for(auto x : {std::make_pair(k0, small), std::make_pair(k2, after)}) { auto f = h::fetch(db, x.first); CHECK(! f.ec && f.val == x.second, "%s: fetch of a neighbour: %s", when, ecs(f.ec).c_str()); }
    };
    for(unsigned s = 0; s < 2; ++s)
    {
        nudb::context ctx; Store db(ctx);
        db.open(g.dat, g.key, g.log, ec); CHECK(! ec, "open: %s", ecs(ec).c_str());
        if(s == 0)
        {
            ec = h::insert(db, k0, small); CHECK(! ec, "insert: %s", ecs(ec).c_str());
            db.insert(k1.data(), p, size, ec); CHECK(! ec, "insert of a value of %llu bytes: %s", (ull)size, ecs(ec).c_str());
            ec = h::insert(db, k2, after); CHECK(! ec, "insert: %s", ecs(ec).c_str());
            see(db, "before the commit");
            ctx.flush();
            CHECK(fs.file(g.dat)->size == 92 + 3 * (6 + g.key_size) + small.size() + size + after.size(), "the data file has %llu bytes", (ull)fs.file(g.dat)->size);
        }
        see(db, s ? "after reopening" : "after the commit");
        auto e = h::insert(db, k1, "x"); CHECK(e == error::key_exists, "insert of a present key: %s", ecs(e).c_str());
        db.close(ec); CHECK(! ec, "close: %s", ecs(ec).c_str());
    }
    nudb::verify_info info;
    ec = do_verify(g, 0, info);
    CHECK(! ec && info.value_count == 3 && info.value_bytes == size + small.size() + after.size(), "verify: %s", ecs(ec).c_str());
    c.label("big-value");
    c.nontrivial(true);
}

} // namespace

PROPERTY(C29)
{
    auto const k = c.draw(3000);
    if(k >= 2998) big_value(c);
    else if(k >= 2996) scan(c);
    else if(k >= 2994) scan_keys(c);
    else sparse(c);
}
