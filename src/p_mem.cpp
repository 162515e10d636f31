// C27 memory: bounded by the data not yet committed, returned in full, and
// writers throttled beyond the burst size
#include "db.hpp"
#include <sanitizer/allocator_interface.h>
#include <algorithm>
#include <cmath>
using namespace h;
using simfs::Op; using simfs::Act;
using nudb::error; using nudb::error_code;

namespace {

// Bytes allocated by the code under test: counted only inside a Win, and not
// inside harness code (eng::Quiet).
int win = 0;
int64_t live = 0, peak = 0;
void on_malloc(void const volatile*, size_t n) { if(win && ! eng::quiet_depth) { live += n; if(live > peak) peak = live; } }
void on_free(void const volatile* p) { if(win && ! eng::quiet_depth) live -= __sanitizer_get_allocated_size((void const*)p); }
void hooks()
{
    static bool done = false;
    if(done) return;
    done = true;
    if(! __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free)) { fprintf(stderr, "no allocation hooks\n"); _exit(3); }
}
struct Win
{
    int q;
    Win() : q(eng::quiet_depth) { eng::quiet_depth = 0; ++win; }
    ~Win() { --win; eng::quiet_depth = q; }
};
// Peak of one call above the level before it
struct Call : Win
{
    int64_t before;
    Call() : before(live) { peak = live; }
    int64_t used() const { return peak - before; }
    int64_t kept() const { return live - before; }
};
#define LL(x) ((long long)(x))

int64_t round8(int64_t n) { return (n + 7) / 8 * 8; }

void store_history(Case& c, bool faults)
{
    Geo g = gen_geo(c, SMALL_KEYS);
    if(g.val_class > 1) g.val_class = 1;
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    live = 0;
    int64_t const bs = g.block_size;
    int64_t maxrec = 0;
    uint64_t batches = 0, items = 0, hit = 0;
    unsigned const sessions = 1 + (unsigned)c.draw(3);
    { Call k; w.ctx.reset(new nudb::context); }
    int64_t const base = live;
    for(unsigned s = 0; s < sessions; ++s)
    {
        { Call k; w.db.reset(new Store(*w.ctx)); }
        int64_t const built = live;
        if(s) CHECK(built == base + LL(__sanitizer_get_allocated_size(w.db.get())), "a store left %lld bytes behind", LL(built - base - __sanitizer_get_allocated_size(w.db.get())));
        uint64_t const fail_at = faults && c.chance(1, 2) ? c.skew(0, 200) : ~0ull;
        uint64_t op_no = 0;
        auto fault = [&](Op const& o) -> Act
        {
            if(op_no++ != fail_at || o.kind == simfs::ADVISE || o.kind == simfs::CLOSE) return {};
            ++hit;
            Act a; a.t = Act::ERR; a.err = EIO; return a;
        };
        w.fs.hook = fault;
        error_code ec;
        int64_t up;
        { Call k; w.db->open(g.dat, g.key, g.log, ec); up = k.used(); }
        // recovery reads a log of any length through a buffer of 1024 blocks of the device
        CHECK(up <= 1024 * 4096 + 600000 + 4 * bs, "open used %lld bytes", LL(up));
        if(ec)
        {
            CHECK(hit, "open failed: %s", ecs(ec).c_str());
            CHECK(live == built, "a failed open kept %lld bytes", LL(live - built));
            { Call k; w.db.reset(); }
            w.fs.hook = nullptr;
            continue;
        }
        int64_t const idle = live;
        CHECK(idle - built <= 4096 + 4 * bs, "an open store with no data holds %lld bytes", LL(idle - built));
        // what one commit leaves to the next: the largest amount inserted while one ran
        int64_t chunk = 0;
        int64_t pend = 0, pend_n = 0;           // buffered, as the bound counts it
        int64_t spare = 0;                      // hash table of the last commit
        bool dead = false;
        uint64_t during = 0, during_n = 0;
        auto insert = [&](bool in_commit)
        {
            auto i = w.fresh_key(); if(i == ~0ull) return;
            auto const k = key_bytes(g, i); auto const v = val_bytes(g, i, 0, gen_len(c, g));
            maxrec = std::max<int64_t>(maxrec, 6 + k.size() + v.size());
            int64_t const sz = round8(k.size()) + round8(v.size());
            // exact-size heap copies are harness memory
            std::unique_ptr<char[]> kb(new char[k.size()]); memcpy(kb.get(), k.data(), k.size());
            std::unique_ptr<char[]> vb(new char[v.size()]); memcpy(vb.get(), v.data(), v.size());
            error_code e;
            int64_t kept, used;
            auto const was = peak;
            { Call q; w.db->insert(kb.get(), vb.get(), v.size(), e); kept = q.kept(); used = q.used(); }
            peak = std::max(peak, was);
            if(e)
            {
                CHECK(e != error::key_exists && hit, "insert failed: %s", ecs(e).c_str());
                CHECK(kept == 0, "a failed insert kept %lld bytes", LL(kept));
                return;
            }
            CHECK(kept <= sz + 256 + 2 * chunk, "an insert of %zu+%zu bytes took %lld bytes (blocks of %lld)", k.size(), v.size(), LL(kept), LL(chunk));
            CHECK(used <= sz + 256 + 2 * chunk + 3 * bs + LL(k.size()) + 1024, "an insert of %zu+%zu bytes used %lld bytes", k.size(), v.size(), LL(used));
            w.buf[k] = v; w.keys.push_back(i); ++items;
            if(in_commit) { during += sz; ++during_n; } else { pend += sz; ++pend_n; }
        };
        auto fetch = [&]
        {
            if(w.keys.empty()) return;
            auto k = key_bytes(g, c.chance(1, 4) ? w.next_key + 1 : w.keys[c.draw(w.keys.size())]);
            error_code e; int64_t used, kept; auto const was = peak;
            { Call q; w.db->fetch(k.data(), [](void const*, size_t) {}, e); used = q.used(); kept = q.kept(); }
            peak = std::max(peak, was);
            CHECK(kept == 0, "a fetch kept %lld bytes", LL(kept));
            CHECK(used <= 2 * maxrec + 4 * bs + 1024, "a fetch used %lld bytes; the largest record has %lld, a block %lld", LL(used), LL(maxrec), LL(bs));
        };
        unsigned const rounds = 2 + (unsigned)c.draw(6);
        unsigned const batch = (unsigned)c.skew(1, 40);
        for(unsigned r = 0; r < rounds && ! dead; ++r)
        {
            int64_t const start = live;
            for(unsigned i = 0; i < batch; ++i) { insert(false); if(c.chance(1, 8)) fetch(); }
            if(w.buf.empty()) break;
            CHECK(live - idle <= 2 * pend + 256 * pend_n + 2 * chunk + spare + 4096, "%lld items of %lld bytes not yet committed hold %lld bytes (%lld before them)",
                LL(pend_n), LL(pend), LL(live - idle), LL(start - idle));
            bool const reenter = c.chance(1, 2);
            int64_t const step = c.pick({0, 1000, 1000000, 300000000});
            bool inside = false; during = during_n = 0;
            std::string bad;
            w.fs.hook = [&](Op const& o) -> Act
            {
                auto a = fault(o);
                if(a.t != Act::GO || ! reenter || inside) return a;
                inside = true;
                try
                {
                    eng::vnow += (int64_t)c.draw(3) * step;
                    for(unsigned n = (unsigned)c.draw(4); n; --n) insert(true);
                    if(c.chance(1, 4)) fetch();
                }
                catch(eng::Fail& f) { bad = f.what(); }
                inside = false;
                return a;
            };
            int64_t used;
            auto const hits = hit;
            { Call q; w.ctx->flush(); used = q.used(); }
            w.fs.hook = fault;
            CHECK(bad.empty(), "%s", bad.c_str());
            int64_t const lim = 300000 + 2 * maxrec + 8 * bs + pend_n * (8 * bs + 600) + 2 * (int64_t)during + 256 * (int64_t)during_n + 2 * chunk;
            CHECK(used <= lim, "a commit of %lld items of %lld bytes used %lld bytes, more than %lld", LL(pend_n), LL(pend), LL(used), LL(lim));
            ++batches;
            if(hit != hits) { dead = true; break; }
            // the block size of the pool follows the bytes per second inserted during a commit
            chunk = std::max<int64_t>(chunk, 2 * (int64_t)during + 64);
            spare = 64 * pend_n + 4096;
            pend = during; pend_n = during_n;
            CHECK(live - idle <= spare + 2 * pend + 256 * pend_n + 2 * chunk, "after commit %u, with %lld bytes buffered, the store holds %lld bytes more than when it was opened", r, LL(pend), LL(live - idle));
            if(c.chance(1, 3))
            {
                // an idle store drains
                eng::vnow += 1000000000;
                { Call q; w.ctx->flush(); }
                if(hit != hits) { dead = true; break; }
                if(pend_n) spare = 64 * pend_n + 4096;
                pend = pend_n = 0;
                CHECK(live - idle <= spare + 2 * chunk, "a store with nothing to commit holds %lld bytes more than when it was opened", LL(live - idle));
            }
            else if(pend_n) { w.fs.hook = nullptr; { Call q; w.ctx->flush(); } spare = 64 * pend_n + 4096; pend = pend_n = 0; w.fs.hook = fault; }
        }
        if(c.chance(2, 3))
        {
            { Call k; w.db->close(ec); }
            CHECK(live == built, "a closed store holds %lld bytes more than before it was opened%s", LL(live - built), dead ? " (after an I/O error)" : "");
        }
        w.fs.hook = nullptr;
        { Call k; w.db.reset(); }
        CHECK(live == base, "a destroyed store left %lld bytes behind%s", LL(live - base), dead ? " (after an I/O error)" : "");
        w.buf.clear();
        if(hit) break;
    }
    { Call k; w.ctx.reset(); }
    CHECK(live == 0, "a destroyed context left %lld bytes behind", LL(live));
    if(faults) c.label(hit ? "io-error" : "io-error-not-reached");
    c.label("commits", batches);
    c.nontrivial(batches > 2 && items > 10);
}

// Calls on closed files: nothing kept, and no more used than the buffers they document
void offline(Case& c)
{
    bool const big = c.chance(1, eng::thorough ? 30 : 60);
    Geo g = gen_geo(c, SMALL_KEYS | SMALL_BLOCKS | (big ? GOOD_HASH : 0));
    if(g.val_class > 1) g.val_class = 1;
    if(big) { g.key_size = 8; g.load_factor = 0.5f; }
    c.note("%s%s", g.str().c_str(), big ? " large files" : "");
    World w(c, g);
    w.create(); w.open();
    unsigned n = big ? 24 : (unsigned)c.skew(1, 120);
    for(unsigned i = 0; i < n; ++i)
    {
        if(big) { auto k = w.fresh_key(); w.insert_expect(key_bytes(g, k), val_bytes(g, k, 0, 400000 + 1000 * k)); }
        else w.op_insert_new();
        if(i % 12 == 11) w.flush();
    }
    w.flush(); w.drop();
    int64_t maxrec = 0; for(auto& e : w.disk) maxrec = std::max<int64_t>(maxrec, 6 + e.first.size() + e.second.size());
    uint64_t fail_at = c.chance(1, 3) ? c.skew(0, 300) : ~0ull, op_no = 0, hit = 0;
    w.fs.hook = [&](Op const& o) -> Act
    {
        if(op_no++ != fail_at || o.kind == simfs::ADVISE || o.kind == simfs::CLOSE) return {};
        ++hit;
        Act a; a.t = Act::ERR; a.err = EIO; return a;
    };
    unsigned const what = (unsigned)c.draw(5);
    uint64_t const dsz = w.fs.file(g.dat)->size;
    size_t const buffer = big ? c.range(300000, 500000) : c.skew(0, 5000000);
    int64_t lim = 0, used, kept; error_code ec; char const* name;
    int64_t const bs = g.block_size;
    live = 0;
    use_hash(g);
    switch(what)
    {
    case 0:
    {
        name = "visit"; lim = 1024 * 4096 + 2 * maxrec + 64 * 1024;
        Call q;
        nudb::visit(g.dat, [](void const*, size_t, void const*, size_t, error_code&) {}, [](uint64_t, uint64_t) {}, ec);
        used = q.used(); kept = q.kept();
        break;
    }
    case 1:
    {
        name = "verify"; lim = (int64_t)buffer + 1024 * bs + 2 * maxrec + 64 * bs + 64 * 1024;
        nudb::verify_info info;
        {
            Call q;
            nudb::verify<DynHash>(info, g.dat, g.key, buffer, [](uint64_t, uint64_t) {}, ec);
            used = q.used(); kept = q.kept();
            // the caller's own object
            nudb::verify_info none; std::swap(info, none);
        }
        kept = live;
        break;
    }
    case 2:
    {
        name = "rekey"; w.fs.erase(g.key);
        uint64_t const nbs = big ? 4096 : c.pick({104, 122, 256, 512, 4096});
        float const lf = 0.5f;
        uint64_t items = big ? 400000 : std::max<uint64_t>(1, w.disk.size()) * (1 + c.draw(20));
        // one block at least, the data file's and the key file's read and write buffers
        lim = std::max<int64_t>(buffer, nbs) + 1024 * 4096 + 16 * 4096 + 2 * maxrec + 64 * (int64_t)nbs + 64 * 1024;
        Call q;
        nudb::rekey<DynHash, nudb::native_file>(g.dat, g.key, g.log, nbs, lf, items, buffer, ec, [](uint64_t, uint64_t) {});
        used = q.used(); kept = q.kept();
        c.note("rekey block_size=%llu items=%llu buffer=%zu", (unsigned long long)nbs, (unsigned long long)items, buffer);
        break;
    }
    case 3:
    {
        name = "recover"; lim = 1024 * 4096 + 64 * bs + 64 * 1024;
        // a commit stopped half way leaves a log
        if(! w.disk.empty() && c.chance(2, 3))
        {
            auto h0 = w.fs.hook; w.fs.hook = nullptr;
            w.open();
            unsigned m = (unsigned)c.range(1, 40);
            while(m--) w.op_insert_new();
            uint64_t k = c.skew(0, 60), seen = 0;
            w.fs.hook = [&](Op const& o) -> Act { if(o.kind == simfs::WRITE && seen++ >= k) { Act a; a.t = Act::ERR; a.err = EIO; return a; } return {}; };
            w.ctx->flush();
            w.drop(); w.fs.hook = h0; op_no = 0; live = 0;
            c.label("recover-log");
        }
        Call q;
        nudb::recover<DynHash, nudb::native_file>(g.dat, g.key, g.log, ec);
        used = q.used(); kept = q.kept();
        break;
    }
    default:
    {
        name = "create"; lim = 64 * 1024 + 4 * bs;
        if(c.chance(1, 2)) { w.fs.erase(g.dat); w.fs.erase(g.key); w.fs.erase(g.log); }
        Call q;
        nudb::create<DynHash, nudb::native_file>(g.dat, g.key, g.log, g.appnum, g.uid, g.salt, g.key_size, g.block_size, g.load_factor, ec);
        used = q.used(); kept = q.kept();
    }
    }
    w.fs.hook = nullptr;
    c.note("%s: %s, used %lld, limit %lld", name, ecs(ec).c_str(), LL(used), LL(lim));
    CHECK(kept == 0, "%s (%s) kept %lld bytes", name, ecs(ec).c_str(), LL(kept));
    CHECK(used <= lim, "%s of a data file of %llu bytes with a buffer of %zu used %lld bytes, more than %lld", name, (unsigned long long)dsz, buffer, LL(used), LL(lim));
    c.label(fmt("%s%s%s", name, big ? "-large" : "", hit ? "-io-error" : ""));
    c.nontrivial(hit || (! ec && n > 10));
}

// Insertion is delayed exactly when more than the burst size is buffered and it
// arrives faster than commits have been able to write.
void throttle(Case& c)
{
    Geo g = gen_geo(c, SMALL_KEYS | SMALL_BLOCKS | GOOD_HASH);
    g.val_class = c.weighted({1, 3});
    World w(c, g);
    w.create(); w.open();
    uint64_t const burst = c.weighted({6, 1}) ? 4 * 1024 * 1024 : c.skew(1, 40000);
    if(burst != 4 * 1024 * 1024) w.db->set_burst(burst);
    c.note("%s burst=%llu", g.str().c_str(), (unsigned long long)burst);
    double rlo = 0, rhi = 0; bool known = true, any = false;    // rate of the last commit over the burst size
    uint64_t data = 0, cnt = 0;
    int64_t t0 = eng::vnow, t1 = t0;
    unsigned slept = 0, free_ = 0, rounds = (unsigned)c.range(2, 6);
    for(unsigned r = 0; r < rounds; ++r)
    {
        unsigned n = (unsigned)(r % 2 || c.chance(1, 3) ? c.skew(1, 300) : c.skew(1, 30));
        int64_t const gap = (int64_t)c.skew(0, 200000000); bool const gapped = c.chance(1, 2);
        while(n--)
        {
            if(gapped && c.chance(1, 3)) eng::vnow += gap;
            auto i = w.fresh_key(); if(i == ~0ull) break;
            auto k = key_bytes(g, i), v = val_bytes(g, i, 0, gen_len(c, g));
            int64_t const before = eng::vnow;
            w.insert_expect(k, v);
            w.keys.push_back(i);
            data += v.size(); ++cnt;
            int64_t const delay = eng::vnow - before;
            bool const sleep = delay > 500000;
            slept += sleep;
            // what is buffered, with the bucket writes it may cause
            uint64_t const lo = data, hi = data + 3 * cnt * g.block_size;
            double const elong = (before + 100000 - t0) / 1e9, eshort = std::max<int64_t>(1, before - t1) / 1e9;
            if(hi <= burst || ! any) { CHECK(! sleep, "an insert was delayed %lld ms with %llu bytes in %llu items buffered, burst size %llu, %s", LL(delay / 1000000),
                (unsigned long long)data, (unsigned long long)cnt, (unsigned long long)burst, any ? "" : "no commit above the burst size yet"); ++free_; }
            else if(known && hi / eshort < rlo * 0.9) { CHECK(! sleep, "an insert was delayed %lld ms at %g bytes/s, commits write %g", LL(delay / 1000000), hi / eshort, rlo); ++free_; }
            else if(known && lo > burst && lo / elong > rhi * 1.1)
            {
                CHECK(sleep, "an insert was not delayed with %llu bytes buffered, burst size %llu, at %g bytes/s where commits write %g", (unsigned long long)data, (unsigned long long)burst, lo / elong, rhi);
            }
            CHECK(delay <= 1000000000, "an insert was delayed %lld ms", LL(delay / 1000000));
        }
        // a commit on a device with this speed
        int64_t const per_op = (int64_t)c.skew(c.chance(1, 4) ? 1 : 100000, 5000000);
        w.fs.hook = [&](Op const&) -> Act { eng::vnow += per_op; return {}; };
        int64_t const b = eng::vnow;
        double const b0 = double(w.fs.file(g.key)->size / g.block_size);
        w.flush();
        w.fs.hook = nullptr;
        int64_t const e = eng::vnow;
        double const b1 = double(w.fs.file(g.key)->size / g.block_size);
        if(cnt)
        {
            double const T0 = std::max<int64_t>(e - b, 1) / 1e9;
            // work: the data and the blocks written; some margin for what one counts
            double const wlo = data, whi = data + (double)g.block_size * (2 * std::min(b0, 2.0 * cnt) + std::min(b1, 3.0 * cnt));
            if(wlo > burst) { any = known = true; rlo = wlo / T0 * 0.95; rhi = whi / std::max(1e-9, T0 - 2 * per_op / 1e9 - 1e-4); }
            else if(whi > burst) { any = true; known = false; }         // may or may not have set the rate
        }
        t0 = b; t1 = e; data = cnt = 0;
    }
    c.label("delayed", slept); c.label("not-delayed", free_);
    c.nontrivial(slept > 0);
}

} // namespace

PROPERTY(C27)
{
    hooks();
    win = 0; live = peak = 0;
    switch(c.weighted({4, 2, 3, 2}))
    {
    case 0: store_history(c, false); break;
    case 1: store_history(c, true); break;
    case 2: offline(c); break;
    default: throttle(c);
    }
}
