// C01 map semantics, C02 durable close, C09 manual flush, C10 format, C11 append-only, C23 growth
#include "db.hpp"
#include <thread>
#include <errno.h>
using namespace h;

PROPERTY(C01)
{
    Geo g = gen_geo(c, BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create(); w.open(); w.bulk();
    c.label(fmt("hash-%s", hash_name[g.hash]));
    c.label(fmt("capacity-%s", g.capacity() <= 10 ? "tiny" : g.capacity() <= 60 ? "small" : "large"));
    if(c.chance(1, 4)) w.db->set_burst(c.skew(1, 100000));
    unsigned const nops = (unsigned)c.skew(10, g.val_class ? 80 : 220);
    // another database that the same store object opens in turn
    Geo og; KV odisk; std::vector<uint64_t> okeys; uint64_t onext = 0; bool other = false; unsigned swaps = 0;
    auto swap_db = [&]
    {
        if(! other)
        {
            og = gen_geo(c, SMALL_VALUES); og.hash = g.hash;
            og.dat = "/@sim/other.dat"; og.key = "/@sim/other.key"; og.log = "/@sim/other.log";
            c.note("another database: %s", og.str().c_str());
            auto ec = do_create(og); CHECK(! ec, "create: %s", ecs(ec).c_str());
            other = true;
        }
        std::swap(w.g, og); std::swap(w.disk, odisk); std::swap(w.keys, okeys); std::swap(w.next_key, onext);
        ++swaps; c.note("now %s", w.g.dat.c_str());
    };
    bool many = c.chance(1, 40);
    unsigned commits = 0, reopens = 0, during = 0; bool in_hook = false;
    bool reenter = c.chance(1, 2);
    // answers must be the same while a commit is running: fetch and insert
    // from inside the file operations of the commit
    auto reent = [&](simfs::Op const& op) -> simfs::Act
    {
        if(in_hook) return {};
        in_hook = true;
        unsigned n = (unsigned)c.draw(3);
        for(unsigned i = 0; i < n; ++i)
        {
            ++during;
            switch(c.weighted({4, 2, 1, 1}))
            {
            case 0: w.op_fetch_present(); break;
            case 1: w.op_fetch_absent(); break;
            case 2: w.op_insert_dup(); break;
            default:
            {
                auto i2 = w.fresh_key(); if(i2 == ~0ull) break;
                auto k = key_bytes(w.g, i2);
                auto v = val_bytes(w.g, i2, 0, gen_len(c, w.g));
                c.note("insert #%llu during commit", (unsigned long long)i2);
                w.insert_expect(k, v); w.keys.push_back(i2);
            }
            }
        }
        (void)op;
        in_hook = false;
        return {};
    };
    auto commit = [&]
    {
        if(! w.buf.empty()) ++commits;
        c.note("commit (%zu buffered)", w.buf.size());
        if(reenter && ! w.buf.empty())
        {
            KV flushing = w.buf;
            w.fs.hook = reent;
            w.ctx->flush();
            w.fs.hook = nullptr;
            for(auto& e : flushing) { w.disk.insert(e); w.buf.erase(e.first); }
        }
        else w.flush();
    };
    for(unsigned i = 0; i < nops; ++i)
    {
        switch(c.weighted({10, 4, 3, 3, 2, 2, 1, many ? 2u : 0u}))
        {
        case 0: w.op_insert_new(); break;
        case 1: w.op_fetch_present(); break;
        case 2: w.op_fetch_absent(); break;
        case 3: w.op_insert_dup(); break;
        case 4: { unsigned n = (unsigned)c.skew(1, w.g.val_class ? 8 : 60); while(n--) w.op_insert_new(); break; }
        case 5: commit(); break;
        case 7:
        {
            // a long session: hundreds of small commits
            unsigned n = (unsigned)c.range(100, 400), each = (unsigned)c.range(1, 3); c.note("%u commits of up to %u", n, each);
            uint64_t const seed = c.u64();
            while(n--)
            {
                for(unsigned j = 0; j < each; ++j)
                {
                    auto i2 = w.fresh_key(); if(i2 == ~0ull) break;
                    w.insert_expect(key_bytes(w.g, i2), val_bytes(w.g, i2, 0, 1 + eng::mix(seed, i2) % 30)); w.keys.push_back(i2);
                }
                w.flush(); ++commits;
                if(! w.keys.empty()) { w.fetch_expect(key_bytes(w.g, w.keys.back())); w.fetch_expect(key_bytes(w.g, w.keys[eng::mix(seed, n) % w.keys.size()])); }
            }
            c.label("long-session"); many = false;
            break;
        }
        default:
            c.note("close, reopen");
            w.close(); ++reopens;
            if(c.chance(1, 3)) w.drop();
            if(c.chance(1, 3)) swap_db();
            w.open();
            w.check_params();
            break;
        }
    }
    commit();
    w.check_all();
    w.close();
    w.check_files("at the end");
    w.open();
    w.check_all();
    w.close();
    ref::Db d; ref::check(w.dat(), w.key(), hash_fn(g.hash), d);
    if(d.st.spill_count) c.label("has-spills");
    if(d.st.max_chain > 1) c.label("chain>1");
    if(d.kh.buckets > 1) c.label("has-splits");
    if(d.st.spill_count_tot > d.st.spill_count) c.label("split-of-spilled");
    if(swaps)
    {
        c.label("two-databases"); swap_db();
        w.open(); w.check_params(); w.check_all(); w.close(); w.check_files("of the other database");
    }
    if(during) c.label("calls-during-commit", during);
    if(reopens) c.label("reopen");
    c.nontrivial(commits >= 2 && w.disk.size() > g.capacity() && (d.kh.buckets > 1 || d.st.spill_count));
}

//------------------------------------------------------------------------------
// C02

// Opens the database found in an image and compares everything with the model.
static void expect_image(Case& c, simfs::FS img, Geo const& g, KV const& want, char const* when, bool strict = true)
{
    simfs::Use u(img);
    World w(c, g);
    w.fs = img.clone(); w.fs.op_limit = img.op_limit;
    w.disk = want;
    auto ec = w.try_open();
    CHECK(! ec, "%s: open gave %s", when, ecs(ec).c_str());
    CHECK(w.db->appnum() == g.appnum && w.db->key_size() == g.key_size && w.db->block_size() == g.block_size, "%s: parameters changed", when);
    w.check_all();
    w.close();
    if(strict) w.check_files(when);
}

PROPERTY(C02)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    ref::KeyHeader kh0; ref::parse_key(w.key(), kh0);
    if(g.bulk) { w.open(); w.bulk(); w.close(); }
    unsigned const cycles = (unsigned)c.range(1, 5);
    unsigned commits = 0, idle = 0, lost = 0;
    for(unsigned cy = 0; cy < cycles; ++cy)
    {
        auto d0 = *w.fs.file(g.dat), k0 = *w.fs.file(g.key);
        w.open();
        CHECK(w.fs.exists(g.log), "no log file while the store is open");
        bool const none = c.chance(1, 4);
        if(! none)
        {
            unsigned n = (unsigned)c.skew(1, 60);
            for(unsigned i = 0; i < n; ++i)
                switch(c.weighted({10, 2, 2, 1}))
                {
                case 0: w.op_insert_new(); break;
                case 1: w.op_insert_dup(); break;
                case 2: w.op_fetch_present(); break;
                default: c.note("commit"); if(! w.buf.empty()) ++commits; w.flush(); break;
                }
        }
        else if(c.chance(1, 2)) { w.op_fetch_present(); w.op_fetch_absent(); w.op_insert_dup(); }
        bool const pend = ! w.buf.empty();
        unsigned const how = (unsigned)c.draw(3);
        c.note("%s%s", pend ? "" : "(idle) ", how == 0 ? "close" : how == 1 ? "destroy without close" : "close, destroy");
        if(how == 1) { w.db.reset(); w.disk.insert(w.buf.begin(), w.buf.end()); w.buf.clear(); }
        else { w.close(); CHECK(! w.db->is_open(), "is_open after close"); }
        if(how != 0) w.drop();
        CHECK(! w.fs.exists(g.log), "log file left after close");
        if(none) { ++idle; CHECK(*w.fs.file(g.dat) == d0 && *w.fs.file(g.key) == k0, "a cycle without inserts changed the files"); }
        ref::KeyHeader kh; ref::parse_key(w.key(), kh);
        CHECK(kh.uid == kh0.uid && kh.appnum == kh0.appnum && kh.salt == kh0.salt && kh.key_size == kh0.key_size && kh.pepper == kh0.pepper &&
            kh.block_size == kh0.block_size && kh.load_factor == kh0.load_factor, "key file header changed");
        w.check_files("after close");
        if(pend) c.label("close-with-pending");
        // power loss right after close returned
        for(unsigned m = 1; m < simfs::CRASH_MODES; ++m)
        {
            if(m > 1 && ! c.chance(1, 2)) continue;
            ++lost;
            expect_image(c, simfs::crash_image(w.fs, m, c), g, w.disk, fmt("after close and power loss (%s)", simfs::crash_mode_name(m)).c_str());
        }
        c.evals++;
    }
    if(idle) c.label("idle-cycle", idle);
    c.nontrivial(! w.disk.empty() && lost && (w.disk.size() > g.capacity() || cycles > 1));
}

//------------------------------------------------------------------------------
// C09: several stores on one manually flushed context

void c09_threads(eng::Case&) __attribute__((weak));
PROPERTY(C09)
{
    if(c09_threads && c.chance(1, 5)) return c09_threads(c);
    bool const many = c.chance(1, 25);
    unsigned const n = many ? (unsigned)c.range(6, eng::thorough ? 80 : 30) : (unsigned)c.range(1, 5);
    simfs::FS fs; simfs::Use use(fs);
    struct One { Geo g; std::unique_ptr<Store> db; KV disk, buf; uint64_t next = 0; simfs::Blob d, k; };
    Geo base = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS);
    std::vector<One> s(n);
    for(unsigned i = 0; i < n; ++i)
    {
        s[i].g = base;
        if(c.chance(1, 3)) { s[i].g.block_size = c.range(104, 400); s[i].g.load_factor = c.range(1, 99) / 100.f; }
        s[i].g.dat = fmt("/@sim/s%u.dat", i); s[i].g.key = fmt("/@sim/s%u.key", i); s[i].g.log = fmt("/@sim/s%u.log", i);
        s[i].g.val_seed += i;
        auto ec = do_create(s[i].g);
        CHECK(! ec, "create: %s", ecs(ec).c_str());
    }
    c.note("%u stores, %s", n, base.str().c_str());
    nudb::context ctx;
    struct Guard { std::vector<One>& v; ~Guard() { for(auto& o : v) o.db.reset(); } } guard{s};
    auto snap = [&](One& o) { o.d = *fs.file(o.g.dat); o.k = *fs.file(o.g.key); };
    auto unchanged = [&](One& o, char const* when)
    {
        CHECK(*fs.file(o.g.dat) == o.d && *fs.file(o.g.key) == o.k, "store %s was committed without flush or close (%s)", o.g.dat.c_str(), when);
    };
    auto durable = [&](One& o, char const* when)
    {
        auto img = simfs::crash_image(fs, 1, c);
        expect_image(c, img, o.g, o.disk, when);
    };
    unsigned const ops = (unsigned)c.range(5, many ? 12 : 60);
    unsigned flushes = 0, multi = 0, nested = 0;
    for(auto& o : s) snap(o);
    if(many)
        for(auto& o : s)
        {
            o.db.reset(new Store(ctx));
            nudb::error_code ec; o.db->open(o.g.dat, o.g.key, o.g.log, ec);
            CHECK(! ec, "open: %s", ecs(ec).c_str());
            auto k = key_bytes(o.g, o.next), v = val_bytes(o.g, o.next, 0, gen_len(c, o.g));
            ++o.next;
            ec = insert(*o.db, k, v); CHECK(! ec, "insert: %s", ecs(ec).c_str());
            o.buf[k] = v;
        }
    for(unsigned i = 0; i < ops; ++i)
    {
        auto& o = s[c.draw(n)];
        switch(c.weighted({5, 10, 3, 2, 2}))
        {
        case 0:
            if(! o.db)
            {
                o.db.reset(new Store(ctx));
                nudb::error_code ec; o.db->open(o.g.dat, o.g.key, o.g.log, ec);
                CHECK(! ec, "open: %s", ecs(ec).c_str());
                c.note("open %s", o.g.dat.c_str());
                break;
            }
            // fall through
        case 1:
        {
            if(! o.db) break;
            unsigned m = (unsigned)c.skew(1, 20);
            while(m-- && o.next < o.g.key_domain())
            {
                auto k = key_bytes(o.g, o.next), v = val_bytes(o.g, o.next, 0, gen_len(c, o.g));
                ++o.next;
                auto ec = insert(*o.db, k, v);
                CHECK(! ec, "insert: %s", ecs(ec).c_str());
                o.buf[k] = v;
            }
            c.note("insert into %s: %zu buffered", o.g.dat.c_str(), o.buf.size());
            break;
        }
        case 2:
        {
            unsigned dirty = 0; for(auto& x : s) dirty += x.db && ! x.buf.empty();
            // meanwhile other stores of the context are closed and opened by other threads,
            // or the context is flushed by another thread too
            uint64_t gap = c.chance(1, 3) ? 1 + c.skew(0, 60) : 0; bool inside = false; std::string bad;
            std::vector<std::pair<bool, unsigned>> did;
            fs.hook = [&](simfs::Op const& op) -> simfs::Act
            {
                if(inside || ! gap || --gap) return {};
                inside = true; gap = 1 + c.skew(0, 60);
                auto& x = s[c.draw(n)];
                if(*op.path == x.g.dat || *op.path == x.g.key || *op.path == x.g.log) { inside = false; return {}; }
                if(c.chance(1, 4)) { std::thread([&] { ctx.flush(); }).join(); ++nested; inside = false; return {}; }
                auto const step = [&]
                {
                    nudb::error_code ec;
                    did.push_back({! x.db, (unsigned)(&x - s.data())});
                    if(! x.db) { x.db.reset(new Store(ctx)); x.db->open(x.g.dat, x.g.key, x.g.log, ec); if(ec) bad = "open: " + ecs(ec); }
                    else
                    {
                        x.db->close(ec); x.db.reset(); if(ec) bad = "close: " + ecs(ec);
                        x.disk.insert(x.buf.begin(), x.buf.end()); x.buf.clear();
                    }
                };
                std::thread(step).join();
                inside = false;
                return {};
            };
            // or the files of one store fail, which must not concern the others
            One* sick = nullptr; bool hit = false; uint64_t at = c.skew(0, 60); bool const sticky = c.chance(1, 2);
            if(! gap && dirty && c.chance(1, 6))
            {
                sick = &s[c.draw(n)];
                fs.hook = [&](simfs::Op const& op) -> simfs::Act
                {
                    if(op.kind == simfs::CLOSE || op.kind == simfs::ADVISE || (*op.path != sick->g.dat && *op.path != sick->g.key && *op.path != sick->g.log)) return {};
                    if(hit ? ! sticky : at-- != 0) return {};
                    hit = true; simfs::Act a; a.t = simfs::Act::ERR; a.err = ENOSPC; return a;
                };
            }
            ctx.flush(); ++flushes; if(dirty > 1) ++multi;
            fs.hook = nullptr;
            if(hit)
            {
                c.note("%s fails during the flush", sick->g.dat.c_str()); c.label("failing-store");
                nudb::error_code ec = insert(*sick->db, key_bytes(sick->g, 0), "x");
                CHECK(ec == nudb::error_code(ENOSPC, boost::system::system_category()), "insert into a store whose commit failed gave %s", ecs(ec).c_str());
                sick->db->close(ec); CHECK(ec, "close of a store whose commit failed succeeded");
                sick->db.reset();
                ec = do_recover(sick->g); CHECK(! ec, "recover: %s", ecs(ec).c_str());
                ref::Db d; auto why = ref::check(fs.file(sick->g.dat)->str(), fs.file(sick->g.key)->str(), hash_fn(sick->g.hash), d);
                CHECK(why.empty(), "after the failed commit and recovery: %s", why.c_str());
                KV all = sick->disk; all.insert(sick->buf.begin(), sick->buf.end());
                CHECK(d.kv == sick->disk || d.kv == all, "after the failed commit and recovery the store holds neither the old nor the new contents");
                // what was lost may come again
                sick->disk = d.kv; sick->buf.clear();
            }
            for(auto& d : did) c.note("%s %s during the flush", d.first ? "open" : "close", s[d.second].g.dat.c_str());
            if(! did.empty()) c.label("close-or-open-during-flush", did.size());
            CHECK(bad.empty(), "during a flush of the context: %s", bad.c_str());
            c.note("context flush, %u dirty", dirty);
            for(auto& x : s) if(x.db) { x.disk.insert(x.buf.begin(), x.buf.end()); x.buf.clear(); }
            for(auto& x : s) { durable(x, "after context flush and power loss"); snap(x); }
            break;
        }
        case 3:
            if(! o.db) break;
            c.note("close %s", o.g.dat.c_str());
            {
                nudb::error_code ec; if(c.chance(1, 2)) o.db->close(ec);
                CHECK(! ec, "close: %s", ecs(ec).c_str());
                o.db.reset();
                o.disk.insert(o.buf.begin(), o.buf.end()); o.buf.clear(); snap(o);
            }
            break;
        default:
            if(o.db && ! o.disk.empty())
            {
                auto it = o.disk.begin(); std::advance(it, c.draw(o.disk.size()));
                auto r = fetch(*o.db, it->first);
                CHECK(! r.ec && r.val == it->second, "fetch after flush: %s", ecs(r.ec).c_str());
            }
        }
        for(auto& x : s) unchanged(x, "after an operation that is no flush or close of it");
    }
    if(multi) c.label("flush-of-several-dirty", multi);
    if(nested) c.label("flush-during-flush", nested);
    c.label(many ? "many stores" : fmt("stores-%u", n));
    c.nontrivial(flushes && n > 1 && multi);
    for(auto& x : s) x.db.reset();
    for(auto& x : s)
    {
        x.disk.insert(x.buf.begin(), x.buf.end()); x.buf.clear();
        durable(x, "at the end");
    }
}

//------------------------------------------------------------------------------
// C10: everything on disk follows the published format

static void check_log_format(Case& c, World& w, ref::LogHeader const* prev, bool full, uint64_t dsize, uint64_t ksize)
{
    (void)prev;
    auto const log = w.fs.file(w.g.log)->str();
    ref::LogHeader lh; ref::KeyHeader kh; auto key = w.key();
    CHECK(ref::parse_log(log, lh), "log file header incomplete at the first sync of a commit");
    ref::parse_key(key, kh);
    CHECK(lh.type == "nudb.log" && lh.version == 2, "log file type or version");
    CHECK(lh.uid == kh.uid && lh.appnum == kh.appnum && lh.key_size == kh.key_size && lh.salt == kh.salt && lh.pepper == kh.pepper &&
        lh.block_size == kh.block_size, "log file header does not repeat the key file header");
    CHECK(lh.dat_file_size == dsize, "log file header: data file size %llu, is %llu", (unsigned long long)lh.dat_file_size, (unsigned long long)dsize);
    CHECK(lh.key_file_size == ksize, "log file header: key file size %llu, is %llu", (unsigned long long)lh.key_file_size, (unsigned long long)ksize);
    if(! full) return;
    // records: index, compact bucket, equal to the bucket in the key file
    size_t off = ref::LOG_HEADER; std::set<uint64_t> seen;
    auto p = (uint8_t const*)log.data();
    while(off < log.size())
    {
        CHECK(log.size() - off >= 16, "log file: incomplete record");
        uint64_t n = ref::be(p + off, 8), cnt = ref::be(p + off + 8, 2);
        CHECK(n < kh.buckets, "log file: record for bucket %llu of %llu", (unsigned long long)n, (unsigned long long)kh.buckets);
        CHECK(cnt <= kh.capacity && log.size() - off >= 16 + 18 * cnt, "log file: bad bucket");
        auto q = (uint8_t const*)key.data() + (n + 1) * kh.block_size;
        CHECK(! memcmp(q, p + off + 8, 8 + 18 * cnt), "log file: record of bucket %llu is not the bucket in the key file", (unsigned long long)n);
        CHECK(seen.insert(n).second, "log file: bucket %llu logged twice", (unsigned long long)n);
        off += 16 + 18 * cnt;
    }
    c.label("log-records", seen.size());
}

PROPERTY(C10)
{
    Geo g = gen_geo(c, BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    // the new database
    {
        ref::DatHeader dh; ref::KeyHeader kh;
        auto d = w.dat(), k = w.key();
        CHECK(d.size() == 92, "new data file has %zu bytes", d.size());
        CHECK(k.size() == 2 * g.block_size, "new key file has %zu bytes, block size %llu", k.size(), (unsigned long long)g.block_size);
        CHECK(w.fs.exists(g.log) && w.fs.file(g.log)->size == 0, "new log file is not empty");
        ref::parse_dat(d, dh); ref::parse_key(k, kh);
        CHECK(dh.type == "nudb.dat" && dh.version == 2 && dh.uid == g.uid && dh.appnum == g.appnum && dh.key_size == g.key_size && dh.zero, "data file header");
        CHECK(kh.type == "nudb.key" && kh.version == 2 && kh.uid == g.uid && kh.appnum == g.appnum && kh.key_size == g.key_size && kh.salt == g.salt &&
            kh.block_size == g.block_size && kh.zero, "key file header");
        uint64_t lf = (uint64_t)(65536.0 * g.load_factor); if(lf > 65535) lf = 65535;
        CHECK(kh.load_factor == lf, "load factor field %llu, expected %llu", (unsigned long long)kh.load_factor, (unsigned long long)lf);
        CHECK(g.load_factor > 0 && lf >= 1, "generator");
        // big endian bytes spelled out
        std::string be; ref::put_be(be, 2, 2); ref::put_be(be, g.uid, 8); ref::put_be(be, g.appnum, 8); ref::put_be(be, g.key_size, 2);
        CHECK(d.substr(8, 20) == be && k.substr(8, 20) == be, "header fields are not big endian");
        w.check_files("after create");
    }
    unsigned const rounds = (unsigned)c.range(1, 5);
    unsigned maxchain = 0; bool splits = false;
    for(unsigned r = 0; r < rounds; ++r)
    {
        w.open(); w.bulk();
        unsigned const n = (unsigned)c.range(1, 4);
        for(unsigned j = 0; j < n; ++j)
        {
            unsigned m = (unsigned)c.skew(1, g.val_class ? 20 : 80);
            while(m--) w.op_insert_new();
            if(w.buf.empty()) continue;
            uint64_t const ds = w.fs.file(g.dat)->size, ks = w.fs.file(g.key)->size;
            unsigned syncs = 0;
            w.fs.after = [&](simfs::Op const& op)
            {
                if(op.kind != simfs::SYNC || *op.path != g.log) return;
                ++syncs;
                // before the key file is written the log is complete
                if(w.fs.file(g.log)->size && w.fs.file(g.key)->size == ks && w.fs.dir[g.key]->pending.empty())
                    check_log_format(c, w, nullptr, syncs > 1, ds, ks);
            };
            c.note("commit %zu", w.buf.size());
            w.flush();
            w.fs.after = nullptr;
            CHECK(w.fs.file(g.log)->size == 0, "log file not empty after a commit");
            w.check_files("after commit");
        }
        w.close();
        w.check_files("after close");
        ref::Db d; ref::check(w.dat(), w.key(), hash_fn(g.hash), d);
        maxchain = std::max<unsigned>(maxchain, d.st.max_chain); splits |= d.kh.buckets > 1;
        if(c.chance(1, 4))
        {
            // rebuild the key file with other parameters
            w.fs.erase(g.key);
            uint64_t bs = c.chance(1, 2) ? g.block_size : c.range(104, 600);
            float lf = c.range(10, 90) / 100.f;
            uint64_t items = c.pick({0, 1, 2}) == 0 ? w.disk.size() : c.skew(1, 200);
            if(! items) items = 1;
            auto ec = do_rekey(g, bs, lf, items, c.skew(1, 100000));
            CHECK(! ec, "rekey: %s", ecs(ec).c_str());
            c.note("rekey block_size=%llu", (unsigned long long)bs);
            w.g.block_size = g.block_size = bs; w.g.load_factor = lf;
            w.check_files("after rekey");
            c.label("rekey");
        }
    }
    c.label(maxchain > 1 ? "chain>1" : maxchain ? "chain1" : "chain0");
    if(splits) c.label("splits");
    c.nontrivial(splits || maxchain);
}

//------------------------------------------------------------------------------
// C11: append only

PROPERTY(C11)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    simfs::Blob committed = *w.fs.file(g.dat);
    bool rekeying = false, recovering = false; uint64_t writes = 0;
    auto mon = [&](simfs::Op const& op)
    {
        if(*op.path != g.dat) return;
        if(op.kind == simfs::WRITE)
        {
            ++writes;
            CHECK(op.off >= committed.size, "write to the data file at %llu, below the committed %llu", (unsigned long long)op.off, (unsigned long long)committed.size);
            CHECK(op.off == op.fsize, "write to the data file at %llu is not at its end %llu", (unsigned long long)op.off, (unsigned long long)op.fsize);
        }
        if(op.kind == simfs::TRUNC)
        {
            CHECK(op.off >= committed.size, "data file cut to %llu, below the committed %llu", (unsigned long long)op.off, (unsigned long long)committed.size);
            CHECK(recovering || op.off >= op.fsize, "data file of %llu bytes cut to %llu outside of recovery", (unsigned long long)op.fsize, (unsigned long long)op.off);
        }
        if(op.kind == simfs::UNLINK) CHECK(false, "data file erased");
    };
    auto now = [&](char const* when)
    {
        auto const& d = *w.fs.file(g.dat);
        CHECK(d.size >= committed.size && d.prefix_equal(committed, committed.size), "committed part of the data file changed (%s)", when);
        committed = d;
    };
    unsigned const rounds = (unsigned)c.range(1, 6); unsigned crashes = 0, commits = 0, faults = 0;
    for(unsigned r = 0; r < rounds; ++r)
    {
        w.fs.after = mon;
        recovering = true; w.open(); recovering = false; now("open"); if(w.g.bulk) { w.bulk(); w.flush(); now("bulk"); }
        unsigned const n = (unsigned)c.range(1, 4);
        bool crash = false;
        for(unsigned j = 0; j < n && ! crash; ++j)
        {
            unsigned m = (unsigned)c.skew(1, 40);
            while(m--) w.op_insert_new();
            w.op_fetch_present(); w.op_insert_dup();
            if(w.buf.empty()) continue;
            ++commits;
            bool const fault = c.chance(1, 5);
            if(fault)
            {
                // an I/O error fails this commit; closing must leave the data file alone, recovery
                // brings back exactly the file before or after the commit
                crash = true; ++faults;
                uint64_t const at = c.skew(0, 60); uint64_t k = 0; bool const sticky = c.chance(1, 4), part = c.chance(1, 3); int const err = c.pick({EIO, ENOSPC}); bool hit = false;
                auto const before = committed;
                w.fs.hook = [&](simfs::Op const& op) -> simfs::Act
                {
                    if(op.kind == simfs::CLOSE || op.kind == simfs::ADVISE) return {};
                    if(hit ? ! sticky : k++ != at) return {};
                    simfs::Act a; a.err = err;
                    if(! hit && part && op.kind == simfs::WRITE && op.len > 1) { a.t = simfs::Act::PARTIAL; a.n = 1 + op.len / 2; k = at; hit = false; return a; }
                    hit = true; a.t = simfs::Act::ERR; return a;
                };
                c.note("fault in commit at op %llu", (unsigned long long)at);
                w.ctx->flush();
                w.fs.hook = nullptr;
                auto const full = *w.fs.file(g.dat);
                CHECK(full.size >= before.size && full.prefix_equal(before, before.size), "a failed commit changed committed bytes of the data file");
                nudb::error_code ec; w.db->close(ec);
                if(hit) c.label("failed-commit"); else CHECK(! ec, "close: %s", ecs(ec).c_str());
                CHECK(*w.fs.file(g.dat) == full, "closing after a failed commit changed the data file from %llu to %llu bytes", (unsigned long long)full.size, (unsigned long long)w.fs.file(g.dat)->size);
                w.drop();
                CHECK(*w.fs.file(g.dat) == full, "destroying the store after a failed commit changed the data file");
                recovering = true; ec = do_recover(g); recovering = false;
                CHECK(! ec, "recover: %s", ecs(ec).c_str());
                auto const& d = *w.fs.file(g.dat);
                CHECK(d == before || d == full, "recovery left the data file with %llu bytes: neither the %llu before nor the %llu after the failed commit",
                    (unsigned long long)d.size, (unsigned long long)before.size, (unsigned long long)full.size);
                if(! hit) CHECK(d == full, "recovery cut a successful commit");
                ref::Db rd; auto why = ref::check(w.dat(), w.key(), hash_fn(g.hash), rd);
                CHECK(why.empty(), "after recovery: %s", why.c_str());
                w.buf.clear(); w.disk = rd.kv; w.keys.clear(); for(uint64_t i = 0; i < w.next_key; ++i) if(w.disk.count(key_bytes(g, i))) w.keys.push_back(i);
            }
            else if(c.chance(1, 4))
            {
                // crash inside this commit, then recover: exactly back to before or on to after
                crash = true; ++crashes;
                uint64_t at = c.skew(0, 60); simfs::FS snap; bool have = false; uint64_t k = 0;
                w.fs.hook = [&](simfs::Op const& op) -> simfs::Act { if(! have && op.mutating() && k++ == at) { snap = w.fs.clone(); have = true; } return {}; };
                w.flush(); w.fs.hook = nullptr;
                simfs::Blob after = *w.fs.file(g.dat);
                if(! have) snap = w.fs.clone();
                auto img = simfs::crash_image(snap, (unsigned)c.draw(simfs::CRASH_MODES), c);
                c.note("crash in commit at mutating op %llu", (unsigned long long)at);
                w.fs.after = nullptr; w.drop();
                w.fs.dir.clear(); for(auto& f : img.dir) w.fs.dir[f.first] = f.second;
                w.fs.after = mon; recovering = true;
                auto ec = do_recover(g); recovering = false; CHECK(! ec, "recover: %s", ecs(ec).c_str());
                auto const& d = *w.fs.file(g.dat);
                CHECK(d == committed || d == after, "recovery left the data file with %llu bytes: neither the %llu before nor the %llu after the interrupted commit",
                    (unsigned long long)d.size, (unsigned long long)committed.size, (unsigned long long)after.size);
                if(d == committed)
                {
                    ref::Db rd; auto why = ref::check(w.dat(), w.key(), hash_fn(g.hash), rd);
                    CHECK(why.empty(), "after recovery: %s", why.c_str());
                    w.disk = rd.kv; w.keys.clear(); for(uint64_t i = 0; i < w.next_key; ++i) if(w.disk.count(key_bytes(g, i))) w.keys.push_back(i);
                }
            }
            else { w.flush(); }
            now("commit");
        }
        if(w.db && w.db->is_open()) { w.close(); now("close"); }
        if(c.chance(1, 4))
        {
            w.fs.erase(g.key); w.fs.erase(g.log); rekeying = true;
            uint64_t bs = c.range(104, 300);
            auto ec = do_rekey(g, bs, 0.5f, std::max<uint64_t>(1, c.chance(1, 2) ? w.disk.size() : w.disk.size() / 10), w.disk.size() > 1000 ? 200000 : c.skew(1, 5000));
            CHECK(! ec, "rekey: %s", ecs(ec).c_str());
            g.block_size = w.g.block_size = bs;
            now("rekey");
        }
        w.fs.after = nullptr;
    }
    if(crashes) c.label("crash+recovery", crashes);
    if(faults) c.label("fault", faults);
    if(rekeying) c.label("rekey");
    c.nontrivial(commits > 1 && writes > 1);
}

//------------------------------------------------------------------------------
// C23: growth and fetch I/O

PROPERTY(C23)
{
    Geo g = gen_geo(c);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    ref::KeyHeader kh; ref::parse_key(w.key(), kh);
    if(c.chance(1, 4))
    {
        // the store object was used for a database of another shape before
        World o(c, gen_geo(c, SMALL_VALUES)); o.g.hash = g.hash;
        o.g.dat = "/@sim/old.dat"; o.g.key = "/@sim/old.key"; o.g.log = "/@sim/old.log";
        o.create(); o.open();
        unsigned m = (unsigned)c.skew(0, 60); while(m--) o.op_insert_new();
        o.close();
        w.ctx = std::move(o.ctx); w.db = std::move(o.db);
        c.label("store-object-reused");
    }
    double const target = std::max(1.0, kh.load_factor / 65536.0 * kh.capacity);
    // one long session, a few, or many short ones
    unsigned const style = c.weighted({4, 3, 2});
    unsigned const sessions = style == 0 ? 1 : style == 1 ? (unsigned)c.range(2, 3) : (unsigned)c.range(4, 24);
    uint64_t const total = style == 2 ? 0 : c.skew(1, g.val_class ? 150 : 1500);
    uint64_t const thresh = std::max<uint64_t>(65536, kh.load_factor * kh.capacity);
    uint64_t sim = 1;           // buckets if the remainder is half a step at every open
    uint64_t done = 0; std::string off;
    for(unsigned s = 0; s < sessions; ++s)
    {
        w.open();
        uint64_t frac = thresh / 2;
        uint64_t want = style == 2 ? done + c.skew(0, std::max<uint64_t>(3, (uint64_t)target)) : s + 1 == sessions ? total : total * (s + 1) / sessions;
        want = std::min<uint64_t>(want, g.val_class ? 500 : g.hash ? 3000 : 20000);       // bounds the cost of a case
        while(done < want)
        {
            uint64_t m = std::min(want - done, c.skew(1, 200));
            for(uint64_t i = 0; i < m; ++i) w.op_insert_new();
            done += m;
            if(w.buf.empty()) break;            // key domain exhausted
            for(uint64_t i = 0; i < w.buf.size(); ++i) if((frac += 65536) >= thresh) { frac -= thresh; ++sim; }
            w.flush();
            uint64_t const b = w.fs.file(g.key)->size / g.block_size - 1, n = w.disk.size();
            double const ideal = 1 + n / target;
            if(std::abs((double)b - ideal) <= 1.0 + 1e-9) continue;
            // The remainder is not kept from session to session (see known-findings.txt)
            auto const why = fmt("%llu items in %llu buckets (capacity %llu, load factor %g): expected %.1f buckets",
                (unsigned long long)n, (unsigned long long)b, (unsigned long long)kh.capacity, kh.load_factor / 65536.0, ideal);
            if(s && (b > sim ? b - sim : sim - b) <= 1) { off = why + fmt(" after %u sessions", s + 1); continue; }
            c.fail(why);
        }
        // fetch cost
        ref::Db d; auto why = ref::check(w.dat(), w.key(), hash_fn(g.hash), d);
        CHECK(why.empty(), "files: %s", why.c_str());
        uint64_t reads = 0, bytes = 0, other = 0;
        w.fs.after = [&](simfs::Op const& op) { if(op.kind == simfs::READ) { ++reads; bytes += op.len; } else ++other; };
        unsigned const nf = (unsigned)std::min<uint64_t>(40, 10 + w.keys.size());
        for(unsigned i = 0; i < nf; ++i)
        {
            std::string k;
            if(! w.keys.empty() && i % 4 != 3) k = key_bytes(g, w.keys[c.draw(w.keys.size())]);
            else { k = key_bytes(g, w.keys.empty() ? 0 : w.keys[c.draw(w.keys.size())]); k[c.draw(k.size())] ^= 0x55; }
            uint64_t const h48 = ref_hash(g.hash, g.salt, k.data(), k.size()) >> 16;
            auto const& ch = d.chains[ref::bucket_of(h48, d.kh.buckets)];
            uint64_t mr = 0, mb = 0; bool found = false;
            for(auto& b : ch)
            {
                ++mr; mb += g.block_size;
                for(auto& e : b.e) if(! found && e.hash == h48)
                {
                    ++mr; mb += 6 + g.key_size + e.size;
                    // the search ends at the record of the key; order of equal hashes is not specified
                }
            }
            reads = bytes = other = 0;
            w.fetch_expect(k);
            CHECK(reads <= mr && bytes <= mb, "fetch did %llu reads (%llu bytes); its chain of %zu buckets allows %llu (%llu bytes)",
                (unsigned long long)reads, (unsigned long long)bytes, ch.size(), (unsigned long long)mr, (unsigned long long)mb);
            CHECK(other == 0, "fetch performed an operation other than read");
        }
        w.fs.after = nullptr;
        if(d.kh.buckets > 8) c.label("buckets>8");
        if(d.st.max_chain) c.label("spilled");
        if(s + 1 == sessions) c.label(style == 2 ? "sessions-many" : fmt("sessions-%u", s + 1));
        if(d.kh.buckets >= 3) c.nontrivial();
        w.close();
    }
    if(! off.empty()) { c.label("session-drift"); c.known("SESSION-DRIFT", off); }
}
