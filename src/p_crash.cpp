// C03 crash atomicity, C04 recovery idempotence, C05 I/O errors, C16 rekey
// interruption, C17 create, C20 short transfers, C25 handles
#include "db.hpp"
#include <errno.h>
using namespace h;
using simfs::FS; using simfs::Op; using simfs::Act; using simfs::Blob;

namespace {

void set_files(FS& to, FS const& from)
{
    to.dir.clear();
    FS f = from.clone();
    for(auto& d : f.dir) to.dir[d.first] = d.second;
}

// All file system states a crash can hit, taken before every mutating
// operation while fn runs, plus the final one.
struct Snaps
{
    std::vector<std::pair<std::string, FS>> v;
    uint64_t seen = 0;
    void run(FS& fs, size_t max, Case& c, std::function<void()> fn)
    {
        auto old = fs.hook;
        fs.hook = [&, old](Op const& o) -> Act
        {
            if(o.mutating())
            {
                // keep them all up to max, then sample evenly
                ++seen;
                if(v.size() < max) v.emplace_back(std::string(simfs::kind_name(o.kind)) + " " + *o.path, fs.clone());
                else { auto j = c.draw(seen); if(j < max) v[j] = {std::string(simfs::kind_name(o.kind)) + " " + *o.path, fs.clone()}; }
            }
            return old ? old(o) : Act{};
        };
        fn();
        fs.hook = old;
        v.emplace_back("the end", fs.clone());
    }
};

void batch(World& w, unsigned n)
{
    while(n--)
        switch(w.c.weighted({12, 1, 1, 1}))
        {
        case 0: w.op_insert_new(); break;
        case 1: w.op_insert_dup(); break;
        case 2: w.op_fetch_present(); break;
        default: w.op_fetch_absent(); break;
        }
}

// Some committed history. Leaves the store open.
void history(World& w, unsigned maxc, unsigned maxn)
{
    w.open(); w.bulk();
    unsigned k = (unsigned)w.c.draw(maxc + 1);
    for(unsigned i = 0; i < k; ++i)
    {
        batch(w, (unsigned)w.c.skew(1, maxn));
        w.c.note("commit (%zu)", w.buf.size());
        w.flush();
        if(w.c.chance(1, 4)) { w.c.note("reopen"); w.close(); w.open(); }
    }
}

// The complete judgement of a recovered database: returns 0 for state a, 1 for b
int judge(Case& c, World& v, Geo const& g, Blob const& da, KV const& a, Blob const& db, KV const& b, char const* when, bool use_open, uint64_t nk)
{
    if(use_open)
    {
        auto ec = v.try_open();
        CHECK(! ec, "%s: open gave %s", when, ecs(ec).c_str());
        // library view
        nudb::error_code dummy;
        KV got;
        auto look = [&](std::string const& k)
        {
            auto r = fetch(*v.db, k);
            if(! r.ec) { CHECK(r.calls == 1, "%s: callback called %u times", when, r.calls); got[k] = r.val; }
            else CHECK(r.ec == nudb::error::key_not_found && ! r.calls, "%s: fetch gave %s", when, ecs(r.ec).c_str());
        };
        if(b.size() < 4000) { for(auto& e : b) look(e.first); }
        else
        {
            // the reference reader below sees them all
            uint64_t const seed = c.u64(); uint64_t n = 0; KV a2, b2;
            for(auto& e : b) if(eng::mix(seed, n++) % 8 == 0) { look(e.first); b2.insert(e); if(a.count(e.first)) a2.insert(e); }
            CHECK(kvdiff(got, a2).empty() || kvdiff(got, b2).empty(), "%s: the store holds neither the state before (%s) nor after (%s)", when, kvdiff(got, a2).c_str(), kvdiff(got, b2).c_str());
            got = a2 == b2 || kvdiff(got, b2).empty() ? b : a;
        }
        look(key_bytes(g, std::min(nk + 3, g.key_domain() - 1)));
        auto d1 = kvdiff(got, a), d2 = kvdiff(got, b);
        CHECK(d1.empty() || d2.empty(), "%s: the store holds neither the state before (%s) nor after (%s)", when, d1.c_str(), d2.c_str());
        v.disk = got;
        v.close();
    }
    else
    {
        auto ec = do_recover(g);
        CHECK(! ec, "%s: recover gave %s", when, ecs(ec).c_str());
    }
    CHECK(! v.fs.exists(g.log), "%s: log file left", when);
    auto const& d = *v.fs.file(g.dat);
    bool const isa = d == da, isb = d == db;
    CHECK(isa || isb, "%s: data file has %llu bytes and is neither that before (%llu) nor after (%llu) the commit", when,
        (unsigned long long)d.size, (unsigned long long)da.size, (unsigned long long)db.size);
    ref::Db r;
    auto why = ref::check(v.dat(), v.key(), hash_fn(g.hash), r);
    CHECK(why.empty(), "%s: files do not conform: %s", when, why.c_str());
    auto df = kvdiff(r.kv, isa && (! isb || r.kv == a) ? a : b);
    CHECK(df.empty(), "%s: contents: %s", when, df.c_str());
    nudb::verify_info info;
    auto ec = do_verify(g, c.pick({0, 100000}), info);
    CHECK(! ec, "%s: verify gave %s", when, ecs(ec).c_str());
    v.disk = r.kv; v.buf.clear();
    return isb && r.kv == b ? 1 : 0;
}

void go_on(Case& c, World& v, uint64_t nk)
{
    // accepts further inserts
    v.open();
    v.next_key = nk;
    unsigned m = (unsigned)c.range(1, 8);
    for(unsigned i = 0; i < m; ++i) v.op_insert_new();
    for(auto& e : v.disk) { v.insert_expect(e.first, "x"); break; }
    if(c.chance(1, 2)) v.flush();
    v.check_all(30);
    v.close();
    v.check_files("after inserting into the recovered database");
}

} // namespace

PROPERTY(C03)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS | BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    history(w, 3, 40);
    unsigned const rounds = (unsigned)c.range(1, 2);
    bool spl = false;
    for(unsigned r = 0; r < rounds; ++r)
    {
        if(! w.db || ! w.db->is_open()) w.open();
        batch(w, (unsigned)c.skew(1, 60));
        if(w.buf.empty()) break;
        KV const before = w.disk, after = w.all();
        Blob const da = *w.fs.file(g.dat);
        uint64_t const kb = w.fs.file(g.key)->size;
        bool const byclose = c.chance(1, 3);
        Snaps s;
        bool const destroy = byclose && c.chance(1, 2);
        s.run(w.fs, 300, c, [&] { if(destroy) w.drop(); else if(byclose) w.close(); else w.flush(); });
        w.disk = after; w.buf.clear();
        Blob const db = *w.fs.file(g.dat);
        c.note("%s of %zu: %zu crash points", byclose ? "close" : "commit", after.size() - before.size(), s.v.size());
        if(w.fs.file(g.key)->size > kb) spl = true;
        unsigned const n = (unsigned)std::min<size_t>(s.v.size() * 2, eng::thorough ? 40 : 12);
        FS last; bool keep = false;
        for(unsigned i = 0; i < n; ++i)
        {
            // favour the tail, where the log and the syncs are
            size_t at = c.chance(1, 2) ? c.draw(s.v.size()) : s.v.size() - 1 - c.draw(std::min<size_t>(12, s.v.size()));
            unsigned const mode = (unsigned)c.draw(simfs::CRASH_MODES);
            FS img = simfs::crash_image(s.v[at].second, mode, c);
            auto const when = fmt("crash before %s (point %zu of %zu, %s)", s.v[at].first.c_str(), at, s.v.size(), simfs::crash_mode_name(mode));
            World v(c, g);
            set_files(v.fs, img);
            int st = judge(c, v, g, da, before, db, after, when.c_str(), c.chance(1, 2), w.next_key);
            c.label(st ? "reached-new" : "reached-old");
            c.label(simfs::crash_mode_name(mode));
            ++c.evals;
            if(at + 1 == s.v.size()) CHECK(st == 1, "%s: the commit had completed but its data is gone", when.c_str());
            if(i + 1 == n) { last = v.fs.clone(); keep = true; w.next_key = w.next_key; w.disk = v.disk; }
            if(c.chance(1, 3)) { go_on(c, v, w.next_key); }
        }
        // the next round continues from a recovered database
        w.drop();
        if(keep) { set_files(w.fs, last); w.keys.clear(); for(uint64_t i = 0; i < w.next_key; ++i) if(w.disk.count(key_bytes(g, i))) w.keys.push_back(i);
            if(! w.keys.empty()) w.next_key = std::max(w.next_key, w.keys.back() + 1); }
        c.nontrivial(after.size() > before.size() + 1 && s.v.size() > 6);
    }
    if(spl) c.label("commit-with-split");
}

//------------------------------------------------------------------------------

namespace {
int const ERRS[] = {EIO, ENOSPC, EDQUOT, EACCES, EFBIG, ENOMEM, EMFILE, EBADF};
bool faultable(Op const& o) { return o.kind != simfs::CLOSE && o.kind != simfs::ADVISE; }
struct Final { Blob dat; KV kv; bool key; };
}

PROPERTY(C04)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS | SMALL_VALUES | BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    history(w, 3, 40);
    batch(w, (unsigned)c.skew(1, 60));
    if(w.buf.empty()) { w.op_insert_new(); if(w.buf.empty()) return; }
    Snaps s;
    bool const byclose = c.chance(1, 3);
    KV const before = w.disk, after = w.all();
    Blob const da = *w.fs.file(g.dat);
    s.run(w.fs, 300, c, [&] { if(byclose) w.close(); else w.flush(); });
    Blob const db = *w.fs.file(g.dat);
    unsigned const n = eng::thorough ? 12 : 5;
    for(unsigned i = 0; i < n; ++i)
    {
        size_t at = c.chance(1, 3) ? c.draw(s.v.size()) : s.v.size() - 1 - c.draw(std::min<size_t>(12, s.v.size()));
        unsigned mode = (unsigned)c.draw(simfs::CRASH_MODES);
        FS img = simfs::crash_image(s.v[at].second, mode, c);
        auto when = fmt("crash before %s (%s)", s.v[at].first.c_str(), simfs::crash_mode_name(mode));
        // uninterrupted recovery is the oracle
        World v(c, g); set_files(v.fs, img);
        bool const had_log = v.fs.exists(g.log);
        Snaps rs; uint64_t ops = 0;
        v.fs.hook = [&](Op const& o) -> Act { if(faultable(o)) ++ops; return {}; };
        nudb::error_code ec;
        rs.run(v.fs, 300, c, [&] { ec = do_recover(g); });
        v.fs.hook = nullptr;
        CHECK(! ec, "%s: recover gave %s", when.c_str(), ecs(ec).c_str());
        CHECK(v.fs.open_count() == 0, "recover left a file open");
        CHECK(! v.fs.exists(g.log), "%s: log file left", when.c_str());
        ref::Db rd; auto why = ref::check(v.dat(), v.key(), hash_fn(g.hash), rd);
        CHECK(why.empty(), "%s: after recovery: %s", when.c_str(), why.c_str());
        Blob const fd = *v.fs.file(g.dat), fk = *v.fs.file(g.key);
        // again: nothing changes
        {
            uint64_t mut = 0;
            v.fs.hook = [&](Op const& o) -> Act { if(o.mutating() && *o.path != g.log) ++mut; return {}; };
            ec = do_recover(g); v.fs.hook = nullptr;
            CHECK(! ec && mut == 0 && *v.fs.file(g.dat) == fd && *v.fs.file(g.key) == fk && ! v.fs.exists(g.log),
                "%s: recovering a consistent database changed it or failed (%s)", when.c_str(), ecs(ec).c_str());
        }
        if(! had_log) c.label("no-log");
        // When only the process died, what it had not synced was not decided
        // yet: losing it later may legitimately move from the new to the old state.
        bool undecided = mode == 4;
        auto same = [&](World& x, std::string const& how)
        {
            CHECK(! x.fs.exists(g.log), "%s: log file left", how.c_str());
            if(undecided)
            {
                ref::Db r2; auto w2 = ref::check(x.dat(), x.key(), hash_fn(g.hash), r2);
                CHECK(w2.empty(), "%s: %s", how.c_str(), w2.c_str());
                auto const& d = *x.fs.file(g.dat);
                CHECK((d == da && r2.kv == before) || (d == db && r2.kv == after), "%s: neither the state before nor after the commit", how.c_str());
                return;
            }
            CHECK(*x.fs.file(g.dat) == fd, "%s: data file has %llu bytes instead of %llu", how.c_str(), (unsigned long long)x.fs.file(g.dat)->size, (unsigned long long)fd.size);
            ref::Db r2; auto w2 = ref::check(x.dat(), x.key(), hash_fn(g.hash), r2);
            CHECK(w2.empty(), "%s: %s", how.c_str(), w2.c_str());
            auto df = kvdiff(r2.kv, rd.kv);
            CHECK(df.empty(), "%s: %s", how.c_str(), df.c_str());
        };
        unsigned const m = eng::thorough ? 16 : 8;
        for(unsigned j = 0; j < m; ++j)
        {
            ++c.evals;
            World x(c, g);
            auto how = when;
            FS cur;
            if(c.chance(1, 2))
            {
                // crash inside the recovery
                size_t p = c.draw(rs.v.size()); unsigned md = (unsigned)c.draw(simfs::CRASH_MODES); undecided |= md == 4;
                cur = simfs::crash_image(rs.v[p].second, md, c);
                how += fmt(", crash in recovery before %s (%s)", rs.v[p].first.c_str(), simfs::crash_mode_name(md));
                c.label("crash-in-recovery");
            }
            else cur = img.clone();
            set_files(x.fs, cur);
            unsigned depth = (unsigned)c.draw(3);
            for(unsigned d = 0; d < depth; ++d)
            {
                if(c.chance(1, 2))
                {
                    // an I/O error inside the recovery
                    uint64_t f = c.draw(ops + 1), k = 0; bool hit = false; std::string what; bool const persist = c.chance(1, 4);
                    int e = ERRS[c.draw(8)];
                    x.fs.hook = [&](Op const& o) -> Act
                    {
                        if(! faultable(o)) return {};
                        if(k++ == f || (persist && hit)) { if(! hit) what = fmt("%s of %s", simfs::kind_name(o.kind), o.path->c_str()); hit = true; Act a; a.t = Act::ERR; a.err = e; return a; }
                        return {};
                    };
                    ec = do_recover(g); x.fs.hook = nullptr;
                    CHECK(x.fs.open_count() == 0, "recover left a file open");
                    if(hit)
                    {
                        how += fmt(", recover with failing %s", what.c_str());
                        CHECK(!! ec, "%s: reported success", how.c_str());
                        c.label("fault-in-recovery");
                    }
                    else CHECK(! ec, "%s: recover gave %s", how.c_str(), ecs(ec).c_str());
                }
                else
                {
                    Snaps r3; 
                    r3.run(x.fs, 300, c, [&] { ec = do_recover(g); });
                    CHECK(! ec, "%s: recover gave %s", how.c_str(), ecs(ec).c_str());
                    size_t p = c.draw(r3.v.size()); unsigned md = (unsigned)c.draw(simfs::CRASH_MODES); undecided |= md == 4;
                    FS nx = simfs::crash_image(r3.v[p].second, md, c);
                    set_files(x.fs, nx);
                    how += fmt(", crash in recovery before %s (%s)", r3.v[p].first.c_str(), simfs::crash_mode_name(md));
                    c.label("nested-crash");
                }
            }
            if(c.chance(1, 2)) { ec = do_recover(g); CHECK(! ec, "%s: recover gave %s", how.c_str(), ecs(ec).c_str()); same(x, how); }
            else
            {
                ec = x.try_open();
                CHECK(! ec, "%s: open gave %s", how.c_str(), ecs(ec).c_str());
                if(! undecided) { x.disk = rd.kv; x.check_all(40); }
                x.close();
                same(x, how);
            }
        }
        if(had_log && rs.v.size() > 2) c.nontrivial();
    }
}

//------------------------------------------------------------------------------

PROPERTY(C05)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    // the fault plan
    bool armed = false, sticky = false, hit = false; uint64_t at = 0, k = 0; int err = EIO; unsigned sel = 0; std::string what;
    unsigned part = 0; int part_fd = -1;
    // new values arrive while a commit is running
    bool committing = false; KV late;
    w.fs.hook = [&](Op const& o) -> Act
    {
        if(committing && c.chance(1, 8) && w.next_key < g.key_domain())
        {
            committing = false;
            auto key = key_bytes(g, w.next_key), v = val_bytes(g, w.next_key, 0, gen_len(c, g));
            auto const sv = armed; armed = false;
            nudb::error_code ec = insert(*w.db, key, v);
            CHECK(! ec, "insert of a new key while a commit runs gave %s", ecs(ec).c_str());
            late[key] = v; ++w.next_key; c.label("insert-during-commit");
            armed = sv; committing = true;
        }
        if(! armed || ! faultable(o)) return {};
        bool match = sel == 0 || (sel == 1 && o.mutating()) || (sel == 2 && (o.kind == simfs::READ || o.kind == simfs::STAT || o.kind == simfs::OPEN)) ||
            (sel == 3 && *o.path == g.log) || (sel == 4 && *o.path == g.key) || (sel == 5 && *o.path == g.dat) || (sel == 6 && (o.kind == simfs::SYNC || o.kind == simfs::TRUNC));
        if(part && hit && o.kind == simfs::WRITE && o.fd == part_fd) { part = 0; Act a; a.t = Act::ERR; a.err = err; return a; }
        if(! match) return {};
        if(hit) { if(! sticky) return {}; Act a; a.t = Act::ERR; a.err = err; return a; }
        if(k++ != at) return {};
        hit = true; what = fmt("%s of %s", simfs::kind_name(o.kind), o.path->c_str());
        if(part && o.kind == simfs::WRITE && o.len > 1)
        {
            // a short write first, then the error
            part_fd = o.fd; Act a; a.t = Act::PARTIAL; a.n = 1 + c.draw(o.len - 1); return a;
        }
        part = 0;
        Act a; a.t = Act::ERR; a.err = err; return a;
    };
    unsigned const rounds = (unsigned)c.range(1, 3);
    bool any = false;
    for(unsigned r = 0; r < rounds; ++r)
    {
        armed = false; hit = false; k = 0; late.clear();
        // plan: when the fault becomes possible, which operations, how persistent
        sel = (unsigned)c.draw(7); at = c.skew(0, sel == 6 || sel == 3 ? 12 : 60); err = ERRS[c.draw(8)]; sticky = c.chance(1, 3); part = c.chance(1, 3);
        unsigned const from = (unsigned)c.draw(12);
        unsigned const nops = (unsigned)c.range(4, 40);
        bool poisoned = false;          // a commit failed
        KV inflight;                    // its batch
        auto is_open = [&] { return w.db && w.db->is_open(); };
        bool wasopen = false;
        auto arm = [&](unsigned i) { if(i == from) armed = true; };
        auto hitnow = [&](std::function<void()> f) { bool b = hit; if(sticky && b) b = false; f(); return hit && ! b; };
        // with a persistent fault "hit now" may be reported for calls that do no I/O; they may then succeed
        for(unsigned i = 0; i < nops; ++i)
        {
            arm(i);
            if(! is_open())
            {
                if(poisoned || (wasopen && hit)) break;
                nudb::error_code ec; auto h0 = hit;
                auto hn = hitnow([&] { ec = w.try_open(); });
                c.note("open -> %s", ecs(ec).c_str());
                if(hn && ! sticky) CHECK(!! ec, "open reported success although %s failed", what.c_str());
                if(! hn) CHECK(! ec, "open gave %s without a fault", ecs(ec).c_str());
                if(ec) { CHECK(! w.db->is_open(), "is_open after failed open"); }
                (void)h0;
                wasopen = ! ec;
                continue;
            }
            unsigned const op = c.weighted({8, 3, 2, 2, 3, 1});
            if(op <= 3)
            {
                std::string key; bool ins = op == 0 || op == 3; 
                if(op == 0 || (op == 3 && w.keys.empty())) { if(w.next_key >= g.key_domain()) continue; key = key_bytes(g, w.next_key); }
                else if(op == 2 || w.keys.empty()) key = key_bytes(g, std::min(g.key_domain() - 1, w.next_key + c.draw(4)));
                else key = key_bytes(g, w.keys[c.draw(w.keys.size())]);
                if(ins)
                {
                    auto v = val_bytes(g, w.next_key, 0, gen_len(c, g));
                    nudb::error_code ec; bool b = hit;
                    ec = insert(*w.db, key, v);
                    if(poisoned) { CHECK(!! ec, "insert after a failed commit (%s) reported success", what.c_str()); CHECK(ec != nudb::error::key_exists, "insert after a failed commit gave key_exists"); continue; }
                    if(hit && ! b) CHECK(!! ec && ec != nudb::error::key_exists, "insert gave %s although %s failed", ecs(ec).c_str(), what.c_str());
                    if(! ec) CHECK(! w.has(key), "insert of a present key succeeded");
                    else if(ec == nudb::error::key_exists) CHECK(w.has(key), "insert of a new key gave key_exists");
                    else CHECK(hit, "insert gave %s", ecs(ec).c_str());
                    if(! hit) CHECK(! ec == ! w.has(key), "insert gave %s", ecs(ec).c_str());
                    if(! ec) { w.buf[key] = v; if(op == 0 || w.keys.empty()) { w.keys.push_back(w.next_key); ++w.next_key; } }
                }
                else
                {
                    bool b = hit;
                    auto f = fetch(*w.db, key);
                    if(poisoned) { CHECK(!! f.ec && ! f.calls && f.ec != nudb::error::key_not_found, "fetch after a failed commit (%s) gave %s", what.c_str(), ecs(f.ec).c_str()); continue; }
                    if(hit && ! b) CHECK(!! f.ec && f.ec != nudb::error::key_not_found, "fetch gave %s although %s failed", ecs(f.ec).c_str(), what.c_str());
                    auto want = w.get(key);
                    if(f.calls) CHECK(! f.ec && f.calls == 1 && want && f.val == *want, "fetch returned wrong data (fault: %s)", what.c_str());
                    else CHECK(!! f.ec, "fetch reported success without calling the callback");
                    if(f.ec == nudb::error::key_not_found) CHECK(! want, "false key_not_found (fault: %s)", what.c_str());
                    else if(f.ec) CHECK(hit, "fetch gave %s", ecs(f.ec).c_str());
                }
            }
            else if(op == 4)
            {
                if(w.buf.empty() || poisoned) { w.ctx->flush(); continue; }
                bool b = hit;
                committing = ! hit || ! sticky;
                w.ctx->flush();
                committing = false;
                bool failed = (hit && ! b) || (hit && sticky);
                c.note("flush of %zu%s", w.buf.size(), failed ? (" with failing " + what).c_str() : "");
                if(! failed) { w.disk.insert(w.buf.begin(), w.buf.end()); w.buf = late; late.clear(); }
                else if(hit && ! b)
                {
                    poisoned = true; inflight = w.buf; any = true;
                    c.label("fault-in-commit"); if(! late.empty()) c.label("fault-in-commit-with-late-inserts");
                }
                else
                {
                    // persistent fault, found earlier: commit may or may not have needed the failing operation
                    auto f = fetch(*w.db, key_bytes(g, 0)); 
                    if(f.ec && f.ec != nudb::error::key_not_found) { poisoned = true; inflight = w.buf; any = true; c.label("fault-in-commit"); }
                    else { w.disk.insert(w.buf.begin(), w.buf.end()); w.buf.clear(); poisoned = false;
                        // the fetch itself may be the failing one; decided at reopen
                    }
                }
                for(auto& e : late) if(! poisoned) w.buf.insert(e);
            }
            else if(c.chance(1, 3))
            {
                bool b = hit; nudb::error_code ec;
                w.db->close(ec);
                c.note("close -> %s", ecs(ec).c_str());
                CHECK(! w.db->is_open(), "is_open after close");
                if(poisoned) { CHECK(!! ec, "close after a failed commit (%s) reported success", what.c_str()); break; }
                if(hit && ! b) CHECK(!! ec, "close reported success although %s failed", what.c_str());
                if(ec)
                {
                    CHECK(hit, "close gave %s", ecs(ec).c_str());
                    poisoned = true; inflight = w.buf; any = true; c.label("fault-in-close");
                    break;
                }
                w.disk.insert(w.buf.begin(), w.buf.end()); w.buf.clear();
                wasopen = false;
                if(hit && ! sticky) break;
            }
        }
        if(hit) c.label("fault-" + what.substr(0, what.find(' '))), any = true, ++c.evals;
        // end of the round: shut down with the fault possibly still there
        if(w.db && w.db->is_open())
        {
            if(c.chance(1, 2)) armed = armed && sticky;
            bool b = hit; nudb::error_code ec;
            unsigned how = (unsigned)c.draw(2);
            if(how == 0)
            {
                w.db->close(ec);
                c.note("final close -> %s", ecs(ec).c_str());
                if(poisoned) CHECK(!! ec, "close after a failed commit (%s) reported success", what.c_str());
                else if(! ec) { w.disk.insert(w.buf.begin(), w.buf.end()); w.buf.clear(); CHECK(! (hit && ! b), "close reported success although %s failed", what.c_str()); }
                else { CHECK(hit, "close gave %s", ecs(ec).c_str()); inflight = w.buf; poisoned = true; }
            }
            else
            {
                w.drop();
                if(hit) { if(! poisoned) { inflight = w.buf; poisoned = true; } }
                else { w.disk.insert(w.buf.begin(), w.buf.end()); w.buf.clear(); }
            }
        }
        armed = false; hit = false;
        CHECK(w.fs.open_count() == 0, "%zu files still open after close", w.fs.open_count());
        // the fault is gone: the database opens and holds exactly one of the two states
        if(c.chance(1, 2)) { w.drop(); c.label("reopen-fresh"); } else if(w.db) c.label("reopen-same-object");
        auto ec = w.try_open();
        CHECK(! ec, "after the fault (%s) is gone, open gave %s", what.c_str(), ecs(ec).c_str());
        {
            KV got; KV all = w.disk; all.insert(w.buf.begin(), w.buf.end()); all.insert(late.begin(), late.end()); KV cand = w.disk; cand.insert(inflight.begin(), inflight.end());
            for(auto& e : all)
            {
                auto f = fetch(*w.db, e.first);
                if(! f.ec) { CHECK(f.calls == 1, "callback count"); got[e.first] = f.val; }
                else CHECK(f.ec == nudb::error::key_not_found && ! f.calls, "fetch after reopen gave %s", ecs(f.ec).c_str());
            }
            auto d1 = kvdiff(got, w.disk), d2 = kvdiff(got, cand);
            CHECK(d1.empty() || d2.empty(), "after a failed %s the reopened database holds neither the last committed state (%s) nor the interrupted one (%s)",
                what.c_str(), d1.c_str(), d2.c_str());
            w.disk = got; w.buf.clear();
        }
        w.keys.clear(); for(uint64_t i = 0; i < w.next_key; ++i) if(w.disk.count(key_bytes(g, i))) w.keys.push_back(i);
        for(unsigned i = 0; i < 5; ++i) w.op_insert_new();
        w.op_insert_dup();
        w.close();
        w.check_files("after the fault is gone");
    }
    c.nontrivial(any);
}

//------------------------------------------------------------------------------
// C16

PROPERTY(C16)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS | SMALL_VALUES | BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    history(w, 3, 60);
    batch(w, (unsigned)c.draw(30));
    w.close(); w.drop();
    w.fs.erase(g.key);
    Geo g2 = g;
    g2.block_size = c.chance(1, 2) ? g.block_size : c.range(104, 400);
    g2.load_factor = c.range(5, 99) / 100.f;
    uint64_t const items = c.weighted({3, 1, 1}) == 0 ? w.disk.size() : c.chance(1, 2) ? w.disk.size() / 5 + 1 : w.disk.size() * 3 + 1;
    size_t const buffer = w.disk.size() > 1000 ? c.pick({100000, 1 << 20}) : c.chance(1, 2) ? 1 + c.draw(4) * g2.block_size : 1 << 20;
    Blob const d0 = *w.fs.file(g.dat);
    FS const start = w.fs.clone();
    uint64_t ops = 0; Snaps s; nudb::error_code ec;
    w.fs.hook = [&](Op const& o) -> Act { if(faultable(o)) ++ops; return {}; };
    s.run(w.fs, 300, c, [&] { ec = do_rekey(g2, g2.block_size, g2.load_factor, items, buffer); });
    w.fs.hook = nullptr;
    CHECK(! ec, "rekey: %s", ecs(ec).c_str());
    c.note("rekey of %zu items to block_size %llu load_factor %g: %zu crash points", w.disk.size(), (unsigned long long)g2.block_size, g2.load_factor, s.v.size());
    auto complete = [&](World& x, std::string const& how)
    {
        x.disk = w.disk; x.g = g2;
        ref::Db r; auto why = ref::check(x.dat(), x.key(), hash_fn(g.hash), r);
        CHECK(why.empty(), "%s: %s", how.c_str(), why.c_str());
        auto df = kvdiff(r.kv, w.disk); CHECK(df.empty(), "%s: %s", how.c_str(), df.c_str());
        CHECK(x.fs.file(g.dat)->prefix_equal(d0, d0.size), "%s: values in the data file changed", how.c_str());
        auto e2 = x.try_open(); CHECK(! e2, "%s: open gave %s", how.c_str(), ecs(e2).c_str());
        x.check_all(40); x.next_key = w.next_key; x.op_insert_new(); x.close();
    };
    unsigned const n = w.disk.size() > 1000 ? 4 : eng::thorough ? 40 : 14;
    for(unsigned i = 0; i < n; ++i)
    {
        ++c.evals;
        World x(c, g2); std::string how; bool done = false;
        if(c.chance(1, 3))
        {
            // I/O error
            set_files(x.fs, start);
            uint64_t f = c.chance(1, 2) ? c.draw(ops) : ops - 1 - c.draw(std::min<uint64_t>(ops, 8)), k = 0; bool hit = false, persist = c.chance(1, 4); int e = ERRS[c.draw(8)];
            x.fs.hook = [&](Op const& o) -> Act
            {
                if(! faultable(o)) return {};
                if(k++ == f || (persist && hit)) { if(! hit) how = fmt("rekey with failing %s of %s", simfs::kind_name(o.kind), o.path->c_str()); hit = true; Act a; a.t = Act::ERR; a.err = e; return a; }
                return {};
            };
            ec = do_rekey(g2, g2.block_size, g2.load_factor, items, buffer); x.fs.hook = nullptr;
            CHECK(x.fs.open_count() == 0, "rekey left a file open");
            if(hit) CHECK(!! ec, "%s: reported success", how.c_str());
            c.label("fault-in-rekey");
            if(c.chance(1, 3)) { FS img = simfs::crash_image(x.fs, (unsigned)c.draw(simfs::CRASH_MODES), c); set_files(x.fs, img); how += ", then crash"; }
        }
        else
        {
            size_t at = c.chance(1, 2) ? c.draw(s.v.size()) : s.v.size() - 1 - c.draw(std::min<size_t>(6, s.v.size()));
            unsigned mode = (unsigned)c.draw(simfs::CRASH_MODES);
            FS img = simfs::crash_image(s.v[at].second, mode, c);
            set_files(x.fs, img);
            how = fmt("crash in rekey before %s (point %zu of %zu, %s)", s.v[at].first.c_str(), at, s.v.size(), simfs::crash_mode_name(mode));
            done = at + 1 == s.v.size();
            c.label("crash-in-rekey");
        }
        if(done)
        {
            CHECK(! x.fs.exists(g.log), "%s: log file left by a completed rekey", how.c_str());
            complete(x, how + " (rekey had reported success)");
            continue;
        }
        // recovery, itself interrupted a few times
        unsigned const depth = (unsigned)c.draw(3);
        for(unsigned d = 0; d < depth; ++d)
        {
            Snaps rs;
            if(c.chance(1, 3))
            {
                uint64_t f = c.draw(14), k = 0; int e = ERRS[c.draw(8)]; bool hit = false; std::string what;
                x.fs.hook = [&](Op const& o) -> Act { if(faultable(o) && k++ == f) { hit = true; what = fmt("%s of %s", simfs::kind_name(o.kind), o.path->c_str()); Act a; a.t = Act::ERR; a.err = e; return a; } return {}; };
                ec = do_recover(g2); x.fs.hook = nullptr;
                if(hit) { how += ", recover with failing " + what; CHECK(!! ec, "%s: reported success", how.c_str()); }
                c.label("fault-in-recovery");
            }
            else
            {
                rs.run(x.fs, 300, c, [&] { ec = do_recover(g2); });
                size_t p = c.draw(rs.v.size()); unsigned md = (unsigned)c.draw(simfs::CRASH_MODES);
                FS nx = simfs::crash_image(rs.v[p].second, md, c); set_files(x.fs, nx);
                how += fmt(", crash in recovery before %s (%s)", rs.v[p].first.c_str(), simfs::crash_mode_name(md));
                c.label("crash-in-recovery");
            }
        }
        // recovery of an unfinished rekey removes the key file
        if(x.fs.exists(g.key) || x.fs.exists(g.log))
        {
            ec = do_recover(g2);
            CHECK(! ec || ec == nudb::error::no_key_file, "%s: recover gave %s", how.c_str(), ecs(ec).c_str());
            if(ec == nudb::error::no_key_file) CHECK(! x.fs.exists(g.key), "%s: no_key_file but a key file is there", how.c_str());
        }
        CHECK(! x.fs.exists(g.log), "%s: log file left after recovery", how.c_str());
        if(x.fs.exists(g.key)) { complete(x, how + ", key file kept"); c.label("kept"); continue; }
        c.label("rolled-back");
        CHECK(*x.fs.file(g.dat) == d0, "%s: recovery left the data file with %llu bytes instead of the original %llu", how.c_str(),
            (unsigned long long)x.fs.file(g.dat)->size, (unsigned long long)d0.size);
        ec = do_rekey(g2, g2.block_size, g2.load_factor, items, buffer);
        CHECK(! ec, "%s: new rekey gave %s", how.c_str(), ecs(ec).c_str());
        complete(x, how + ", rekeyed again");
    }
    c.nontrivial(s.v.size() > 8 && w.disk.size() > 2);
}

//------------------------------------------------------------------------------
// C17

PROPERTY(C17)
{
    Geo g = gen_geo(c);
    uint64_t ks = g.key_size, bs = g.block_size; float lf = g.load_factor;
    unsigned bad = 0;
    if(c.chance(1, 2))
    {
        switch(c.draw(3))
        {
        case 0: ks = c.pick({0, 1, 2, 65534, 65535, 65536, 65537, 131072, 131073, 1000000}); if(c.chance(1, 4)) ks = 0xffffffffu - c.draw(3); if(c.chance(1, 4)) ks = c.skew(0, 200000); break;
        case 1: bs = c.pick({0, 1, 8, 25, 26, 44, 103, 104, 105, 111, 112, 65534, 65535, 65536, 65537, 131072}); if(c.chance(1, 4)) bs = c.skew(0, 0xffffffffu); break;
        default:
        {
            float const inf = 1e38f * 10;
            float v[] = {0.f, -0.f, -1.f, 1.f, 1.5f, 0.99999994f, 1.0f / 65536, 0.99f / 65536, 0.5f / 65536, 1e-30f, inf, -inf, inf - inf, 1.01f / 65536, 65535.f / 65536, 65535.5f / 65536};
            lf = v[c.draw(16)];
        }
        }
    }
    if(ks < 1 || ks > 65535) ++bad;
    if(bs < 104 || bs > 65535) ++bad;
    if(! (lf > 0 && lf < 1) || (uint64_t)(65536.0f * lf) < 1) ++bad;
    if(g.key_size != ks || g.block_size != bs || std::memcmp(&lf, &g.load_factor, 4)) c.label(bad ? "invalid" : "boundary-valid");
    else c.label("ordinary");
    g.key_size = ks; g.block_size = bs; g.load_factor = lf;
    c.note("create key_size=%llu block_size=%llu load_factor=%g", (unsigned long long)ks, (unsigned long long)bs, lf);
    FS fs; simfs::Use use(fs);
    std::string const names[3] = {g.dat, g.key, g.log};
    unsigned pre = c.chance(1, 3) ? (unsigned)c.draw(8) : 0; std::string content[3];
    for(unsigned i = 0; i < 3; ++i) if(pre >> i & 1)
    {
        content[i] = std::string(c.skew(0, 300), 0); eng::fill_bytes((uint8_t*)&content[i][0], content[i].size(), i); fs.put(names[i], content[i]);
        c.note("%s exists (%zu bytes)", names[i].c_str(), content[i].size());
    }
    bool fault = c.chance(1, 2), hit = false, unl = false, persist = c.chance(1, 5); uint64_t at = c.draw(16), k = 0; int err = ERRS[c.draw(8)]; std::string what;
    bool const adv = c.chance(1, 6);
    fs.hook = [&](Op const& o) -> Act
    {
        if(! fault || o.kind == simfs::CLOSE || (adv ? o.kind != simfs::ADVISE : o.kind == simfs::ADVISE)) return {};
        if((k++ == (adv ? at % 3 : at)) || (hit && persist))
        {
            if(! hit) { what = fmt("%s of %s", simfs::kind_name(o.kind), o.path->c_str()); c.note("failing %s", what.c_str()); }
            hit = true; if(o.kind == simfs::UNLINK) unl = true;
            Act a; a.t = Act::ERR; a.err = err; return a;
        }
        return {};
    };
    auto ec = do_create(g);
    fs.hook = nullptr;
    c.note("-> %s", ecs(ec).c_str());
    CHECK(fs.open_count() == 0, "create left a file open");
    bool const advise_hit = hit && adv;
    if(bad) CHECK(!! ec, "create accepted key_size=%llu block_size=%llu load_factor=%g, which open must reject", (unsigned long long)ks, (unsigned long long)bs, lf);
    if(hit && ! advise_hit) CHECK(!! ec, "create reported success although %s failed", what.c_str());
    if(pre) CHECK(!! ec, "create reported success although a file existed");
    if(! bad && ! hit && ! pre) CHECK(! ec, "create with valid parameters gave %s", ecs(ec).c_str());
    for(unsigned i = 0; i < 3; ++i) if(pre >> i & 1)
        CHECK(fs.exists(names[i]) && fs.file(names[i])->str() == content[i], "create changed or removed the existing %s", names[i].c_str());
    if(ec)
    {
        if(pre && ! bad && ! hit) CHECK(ec == std::errc::file_exists || ec == nudb::errc::file_exists, "existing file gave %s", ecs(ec).c_str());
        for(unsigned i = 0; i < 3; ++i) if(! (pre >> i & 1))
            CHECK(! fs.exists(names[i]) || unl, "failed create (%s%s) left %s behind", ecs(ec).c_str(), hit ? (", failing " + what).c_str() : "", names[i].c_str());
        c.nontrivial(bad || hit || pre);
        return;
    }
    // durable, opens with exactly these parameters
    c.nontrivial();
    FS img = simfs::crash_image(fs, c.chance(1, 2) ? 1 : 3, c);
    World v(c, g); set_files(v.fs, img);
    ec = v.try_open();
    CHECK(! ec, "open of the new database gave %s", ecs(ec).c_str());
    CHECK(v.db->key_size() == ks && v.db->block_size() == bs && v.db->appnum() == g.appnum, "opened with other parameters");
    v.op_insert_new(); v.op_fetch_absent();
    v.close();
    v.check_files("after create, insert, close");
    ref::KeyHeader kh; ref::parse_key(v.key(), kh);
    CHECK(kh.salt == g.salt && kh.uid == g.uid && kh.load_factor == std::min<uint64_t>(65535, (uint64_t)(65536.0f * lf)), "stored parameters differ");
}

//------------------------------------------------------------------------------
// C20

namespace {
struct Noise
{
    Case& c; unsigned level; uint64_t n = 0;
    Act operator()(Op const& o)
    {
        using namespace simfs;
        if(o.kind != READ && o.kind != WRITE && o.kind != SYNC && o.kind != TRUNC) return {};
        if(! c.chance(level, 8)) return {};
        ++n; Act a;
        if(o.kind == SYNC || o.kind == TRUNC || o.len < 2 || c.chance(1, 3)) { a.t = Act::ERR; a.err = EINTR; return a; }
        a.t = Act::PARTIAL; a.n = c.chance(1, 3) ? o.len - 1 : 1 + c.draw(o.len - 1);
        return a;
    }
};
}

static void file_model(Case& c)
{
    // nudb::native_file against a byte array
    using simfs::Blob;
    FS fs; simfs::Use use(fs);
    std::string const p = "/@sim/f";
    Blob m; nudb::error_code ec;
    nudb::native_file f;
    bool const append = c.chance(1, 3);
    f.create(append ? nudb::file_mode::append : nudb::file_mode::write, p, ec);
    CHECK(! ec && f.is_open(), "create: %s", ecs(ec).c_str());
    { nudb::native_file f2; nudb::error_code e2; f2.create(nudb::file_mode::write, p, e2); CHECK(e2 == std::errc::file_exists || e2.value() == EEXIST, "second create gave %s", ecs(e2).c_str()); CHECK(! f2.is_open(), "open after failed create"); }
    unsigned const n = (unsigned)c.range(1, 40); Noise noise{c, (unsigned)c.draw(6)};
    int want = 0; bool hard = false; simfs::Kind fk = simfs::NKIND;
    fs.hook = [&](Op const& o) -> Act
    {
        if(hard && o.kind == fk) { hard = false; Act a; a.t = Act::ERR; a.err = want; return a; }
        return noise(o);
    };
    bool pos = false;
    uint64_t const base = c.chance(1, 5) ? (1ull << 32) - 20 : 0;
    for(unsigned i = 0; i < n; ++i)
    {
        ec = {}; hard = false;
        bool const fl = c.chance(1, 5);
        auto arm = [&](simfs::Kind k) { if(fl) { hard = true; want = c.chance(1, 6) ? c.pick({EAGAIN, EBADF, EINVAL, EFBIG}) : ERRS[c.draw(8)]; fk = k; } };
        auto hardck = [&](char const* what) { if(fl) CHECK(ec.value() == want && ec.category() == nudb::system_category(), "%s failed with errno %d but reported %s", what, want, ecs(ec).c_str()); };
        switch(c.weighted({4, 4, 1, 1, 2, 1}))
        {
        case 5:
        {
            // the handle moves with its object
            nudb::native_file g(std::move(f));
            CHECK(g.is_open() && ! f.is_open() && fs.open_count() == 1, "after move construction");
            if(c.chance(1, 2))
            {
                nudb::error_code e; auto const q = p + "2";
                fs.put(q, "x");
                f.open(nudb::file_mode::read, q, e); CHECK(! e || fs.hook, "open: %s", ecs(e).c_str());
            }
            f = std::move(g);
            CHECK(f.is_open() && ! g.is_open() && fs.open_count() == 1, "after move assignment: %zu files open", fs.open_count());
            if(c.chance(1, 3)) { auto& r = f; f = std::move(r); CHECK(f.is_open() && fs.open_count() == 1, "after self assignment"); }
            { nudb::native_file h; h = std::move(f); f = std::move(h); }
            CHECK(f.is_open() && fs.open_count() == 1, "after two moves: %zu files open", fs.open_count());
            c.label("moved");
            break;
        }
        case 0:
        {
            uint64_t len = c.skew(1, 20000), off = append ? m.size : base + c.skew(0, 20000);
            std::string s(len, 0); eng::fill_bytes((uint8_t*)&s[0], len, i);
            arm(simfs::WRITE);
            f.write(off, s.data(), len, ec);
            hardck("write");
            if(fl) { /* contents of the range are unspecified: resync the model */ m = *fs.file(p); break; }
            CHECK(! ec, "write: %s", ecs(ec).c_str());
            m.write(off, s.data(), len); pos = true;
            CHECK(m == *fs.file(p), "write of %llu bytes at %llu left wrong contents", (unsigned long long)len, (unsigned long long)off);
            break;
        }
        case 1:
        {
            uint64_t off = base ? base - 10 + c.skew(0, 20100) : c.skew(0, m.size + 10), len = c.skew(1, 20000);
            std::unique_ptr<char[]> b(new char[len]);
            arm(simfs::READ);
            f.read(off, b.get(), len, ec);
            if(fl) { hardck("read"); break; }
            if(off + len > m.size) { CHECK(ec == nudb::error::short_read, "read past the end gave %s", ecs(ec).c_str()); c.label("short-read"); break; }
            CHECK(! ec, "read: %s", ecs(ec).c_str());
            std::string s(len, 0); m.read(off, &s[0], len);
            CHECK(! memcmp(s.data(), b.get(), len), "read of %llu bytes at %llu gave wrong bytes", (unsigned long long)len, (unsigned long long)off);
            break;
        }
        case 2:
        {
            uint64_t len = c.skew(0, m.size + 100);
            arm(simfs::TRUNC);
            f.trunc(len, ec);
            if(fl) { hardck("trunc"); break; }
            CHECK(! ec, "trunc: %s", ecs(ec).c_str());
            m.trunc(len); CHECK(m == *fs.file(p), "trunc left wrong contents");
            break;
        }
        case 3:
            arm(simfs::SYNC);
            f.sync(ec);
            if(fl) { hardck("sync"); break; }
            CHECK(! ec, "sync: %s", ecs(ec).c_str());
            CHECK(fs.dir[p]->pending.empty(), "sync left unsynced data");
            break;
        default:
        {
            arm(simfs::STAT);
            auto s = f.size(ec);
            if(fl) { hardck("size"); break; }
            CHECK(! ec && s == m.size, "size gave %llu", (unsigned long long)s);
        }
        }
    }
    fs.hook = nullptr;
    f.close(); CHECK(! f.is_open() && fs.open_count() == 0, "handle left");
    {
        nudb::error_code e;
        nudb::native_file::erase(p, e); CHECK(! e && ! fs.exists(p), "erase: %s", ecs(e).c_str());
        nudb::native_file::erase(p, e); CHECK(e.value() == ENOENT, "erase of a missing file gave %s", ecs(e).c_str());
        e = {}; nudb::native_file g; g.open(nudb::file_mode::read, p, e); CHECK(e == nudb::errc::no_such_file_or_directory && ! g.is_open(), "open of a missing file gave %s", ecs(e).c_str());
        fs.put(p, "abc"); e = {};
        bool adv = c.chance(1, 2); int want2 = ERRS[c.draw(8)];
        fs.hook = [&](Op const& o) -> Act { Act a; if(o.kind == (adv ? simfs::ADVISE : simfs::OPEN)) { a.t = Act::ERR; a.err = want2; } return a; };
        errno = 0;
        g.open(nudb::file_mode::read, p, e);
        fs.hook = nullptr;
        if(! adv) CHECK(e.value() == want2 && ! g.is_open(), "failing open reported %s", ecs(e).c_str());
        else CHECK(! e || e.value() == want2, "failing posix_fadvise (%d) reported %s", want2, ecs(e).c_str());
        if(adv) CHECK(! e == g.is_open() || e, "open file without success");
    }
    c.label("file-model"); c.label("interruptions", noise.n);
    c.nontrivial(noise.n > 0 && pos);
}

PROPERTY(C20)
{
    if(c.chance(1, 3)) return file_model(c);
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS);
    c.note("%s", g.str().c_str());
    // the same history on two file systems, one of them noisy
    World a(c, g); World b(c, g);
    Noise noise{c, (unsigned)c.range(1, 6)};
    auto on = [&](World& w, auto fn) { simfs::Use u(w.fs); if(&w == &b) w.fs.hook = std::ref(noise); fn(w); w.fs.hook = nullptr; };
    auto both = [&](auto fn) { on(a, fn); on(b, fn); };
    auto cmp = [&](char const* when)
    {
        CHECK(a.fs.dir.size() == b.fs.dir.size(), "%s: different files", when);
        for(auto& d : a.fs.dir) CHECK(b.fs.exists(d.first) && d.second->cur == b.fs.dir[d.first]->cur && d.second->dur == b.fs.dir[d.first]->dur,
            "%s: %s differs between a run with and one without short transfers", when, d.first.c_str());
    };
    both([&](World& w) { w.create(); }); cmp("create");
    both([&](World& w) { w.open(); });
    unsigned const n = (unsigned)c.range(3, 40); uint64_t commits = 0;
    for(unsigned i = 0; i < n; ++i)
    {
        switch(c.weighted({8, 3, 3, 2, 1, 1, 1}))
        {
        case 0:
        {
            unsigned m = (unsigned)c.skew(1, 20);
            while(m--)
            {
                auto id = a.fresh_key(); if(id == ~0ull) break; b.next_key = a.next_key;
                auto len = gen_len(c, g); auto k = key_bytes(g, id), v = val_bytes(g, id, 0, len);
                both([&](World& w) { w.insert_expect(k, v); }); a.keys.push_back(id); b.keys.push_back(id);
            }
            break;
        }
        case 1: if(! a.keys.empty()) { auto k = key_bytes(g, a.keys[c.draw(a.keys.size())]); both([&](World& w) { w.fetch_expect(k); w.insert_expect(k, "dup"); }); } break;
        case 2: { auto k = key_bytes(g, std::min(g.key_domain() - 1, a.next_key + c.draw(4))); both([&](World& w) { w.fetch_expect(k); }); break; }
        case 3: ++commits; both([&](World& w) { w.flush(); }); cmp("commit"); break;
        case 4: both([&](World& w) { w.close(); }); cmp("close"); both([&](World& w) { w.open(); }); break;
        case 5:
        {
            both([&](World& w) { w.close(); }); cmp("close");
            size_t bf = c.pick({0, 100000}); std::string r1, r2;
            both([&](World& w)
            {
                nudb::verify_info inf; auto e = do_verify(g, bf, inf); std::vector<std::pair<std::string, std::string>> out; auto e2 = do_visit(g, out);
                std::string r = ecs(e) + fmt(" %llu %llu %llu %llu ", (unsigned long long)inf.key_count, (unsigned long long)inf.value_bytes, (unsigned long long)inf.spill_count_tot, (unsigned long long)inf.spill_bytes) + ecs(e2);
                for(auto& o : out) r += o.first + o.second;
                (&w == &a ? r1 : r2) = r;
            });
            CHECK(r1 == r2, "verify or visit differ under short transfers");
            both([&](World& w) { w.open(); });
            break;
        }
        default:
        {
            // crash in a commit, recovered under noise
            if(a.buf.empty()) break;
            uint64_t at = c.draw(20), k = 0; FS s1, s2; bool h1 = false;
            KV before = a.disk;
            on(a, [&](World& w) { w.fs.hook = [&](Op const& o) -> Act { if(o.mutating() && k++ == at) { s1 = w.fs.clone(); h1 = true; } return {}; }; w.flush(); });
            on(b, [&](World& w) { w.flush(); });
            if(! h1) break;
            for(auto w : {&a, &b}) { simfs::Use u(w->fs); w->drop(); set_files(w->fs, s1); }
            both([&](World& w) { auto e = do_recover(g); CHECK(! e, "recover: %s", ecs(e).c_str()); });
            cmp("recovery");
            ref::Db rd; auto why = ref::check(a.dat(), a.key(), hash_fn(g.hash), rd); CHECK(why.empty(), "recovered: %s", why.c_str());
            a.disk = b.disk = rd.kv; a.buf.clear(); b.buf.clear();
            a.keys.clear(); for(uint64_t j = 0; j < a.next_key; ++j) if(rd.kv.count(key_bytes(g, j))) a.keys.push_back(j);
            b.keys = a.keys;
            both([&](World& w) { w.open(); });
            c.label("recovery");
        }
        }
    }
    both([&](World& w) { w.close(); }); cmp("final close");
    on(a, [&](World& w) { w.check_files("final"); });
    c.label("interruptions", noise.n);
    c.nontrivial(noise.n > 10 && commits);
}

//------------------------------------------------------------------------------
// C25

PROPERTY(C25)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS | SMALL_VALUES);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    CHECK(w.fs.open_count() == 0, "create left a file open");
    history(w, 2, 40);
    CHECK(w.fs.open_count() == 3, "an open store holds %zu handles", w.fs.open_count());
    w.close();
    CHECK(w.fs.open_count() == 0, "close left %zu files open", w.fs.open_count());
    w.drop();
    FS const base = w.fs.clone();
    unsigned const n = (unsigned)c.range(4, 16);
    for(unsigned i = 0; i < n; ++i)
    {
        ++c.evals;
        World x(c, g); set_files(x.fs, base); x.disk = w.disk; x.keys = w.keys; x.next_key = w.next_key;
        unsigned const what = (unsigned)c.draw(8);
        static char const* nm[] = {"open", "recover", "rekey", "verify", "visit", "commit+close", "create", "damaged"};
        uint64_t at = c.skew(0, what == 5 ? 60 : 25), k = 0; bool hit = false, persist = c.chance(1, 3); int err = ERRS[c.draw(8)]; std::string fw = "none";
        if(what == 2) { x.fs.erase(g.key); if(c.chance(1, 5)) x.fs.put(g.log, "x"); }
        if(what == 6) { x.fs.dir.clear(); if(c.chance(1, 3)) x.fs.put(c.pick({0, 1}) ? g.key : g.log, "x"); }
        if(what == 7)
        {
            auto const& f = c.pick({0, 1}) ? g.dat : g.key; auto s = x.fs.file(f)->str();
            if(c.chance(1, 2)) s.resize(c.draw(s.size())); else { auto p = c.draw(std::min<size_t>(104, s.size())); s[p] ^= 1 << c.draw(8); }
            x.fs.put(f, s); at = ~0ull;
            if(c.chance(1, 2)) { std::string l(c.skew(0, 120), 0); eng::fill_bytes((uint8_t*)&l[0], l.size(), i); x.fs.put(g.log, l); }
        }
        auto hook = [&](Op const& o) -> Act
        {
            if(k++ == at || (hit && persist)) { if(o.kind == simfs::CLOSE) return {}; if(! hit) fw = fmt("%s of %s", simfs::kind_name(o.kind), o.path->c_str()); hit = true; Act a; a.t = Act::ERR; a.err = err; return a; }
            return {};
        };
        if(what != 5) x.fs.hook = hook;
        nudb::error_code ec;
        auto cnt = [&](char const* when) { CHECK(x.fs.open_count() == 0, "%s (failing %s, result %s): %zu files still open %s", nm[what], fw.c_str(), ecs(ec).c_str(), x.fs.open_count(), when); };
        switch(what)
        {
        case 0:
            ec = x.try_open(); 
            if(ec) cnt("after failed open"); else { CHECK(x.fs.open_count() <= 3, "%zu handles", x.fs.open_count()); nudb::error_code e2; x.db->close(e2); cnt("after close"); }
            break;
        case 1: ec = do_recover(g); cnt("after recover"); break;
        case 2: ec = do_rekey(g, c.chance(1, 2) ? g.block_size : c.range(104, 300), 0.5f, 1 + c.draw(60), c.skew(1, 10000)); cnt("after rekey"); break;
        case 3: { nudb::verify_info inf; ec = do_verify(g, c.pick({0, 100000}), inf); cnt("after verify"); break; }
        case 4:
        {
            unsigned stop = (unsigned)c.draw(20), seen = 0; bool thr = c.chance(1, 3);
            try { nudb::visit(g.dat, [&](void const*, size_t, void const*, size_t, nudb::error_code& e) { if(seen++ == stop) { if(thr) throw 1; e = nudb::error::key_exists; } }, [](uint64_t, uint64_t) {}, ec); }
            catch(int) {}
            cnt("after visit"); break;
        }
        case 6: ec = do_create(g); cnt("after create"); break;
        case 7:
            switch(c.draw(5))
            {
            case 0: ec = do_recover(g); break;
            case 1: { nudb::verify_info inf; ec = do_verify(g, 0, inf); break; }
            case 2: { std::vector<std::pair<std::string, std::string>> o; ec = do_visit(g, o); break; }
            case 3: x.fs.erase(g.key); x.fs.erase(g.log); ec = do_rekey(g, 128, 0.5f, 10, 1000); break;
            default: ec = x.try_open(); if(! ec) { nudb::error_code e2; x.db->close(e2); }
            }
            cnt("after a call on damaged files");
            break;
        default:
        {
            x.open(); batch(x, (unsigned)c.range(1, 30));
            x.fs.hook = hook;
            if(c.chance(1, 2)) x.ctx->flush();
            CHECK(x.fs.open_count() <= 3, "%zu handles while open", x.fs.open_count());
            if(c.chance(1, 4)) { x.db.reset(); cnt("after destruction"); }
            else { x.db->close(ec); cnt("after close"); }
        }
        }
        x.fs.hook = nullptr;
        c.label(fmt("%s%s", nm[what], hit ? "-faulted" : ""));
        if(hit || what == 7) c.nontrivial();
    }
}
