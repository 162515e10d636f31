// Concurrent use under a deterministic scheduler: linearizability (C06),
// races (C07, built with ThreadSanitizer), progress and termination (C08).
#include "db.hpp"
#include "dsched.hpp"
#include <algorithm>
#include <thread>
#include <unistd.h>
using namespace h;

namespace {

uint64_t split(uint64_t len)
{
    if(len < 2 || ! dsched::managed()) return 0;
    // most transfers are whole; bucket sized ones are the interesting ones
    if(eng::current->draw(3) != 2) return 0;
    return 1 + eng::current->draw(len - 1);
}
struct Split { Split() { simfs::split_hook = split; } ~Split() { simfs::split_hook = nullptr; } };

void vsleep(int64_t ns)
{
    std::this_thread::sleep_for(std::chrono::nanoseconds(ns));
}

enum Res { OK, EXISTS, FOUND, NOTFOUND, ERROR };
char const* const res_name[] = {"inserted", "exists", "found", "not found", "error"};
struct Rec { uint64_t key, inv, resp; Res r; uint64_t ver; nudb::error_code ec; };

// Everything that is initialized once per process is initialized before the
// first session, so that a case does not depend on the cases before it.
void warm_up()
{
    static bool done = false;
    if(done) return;
    done = true;
    simfs::FS fs; simfs::Use use(fs);
    Geo g; use_hash(g);
    auto const t = eng::vnow;
    do_create(g);
    {
        nudb::context ctx; Store db(ctx);
        nudb::error_code ec;
        db.open(g.dat, g.key, g.log, ec);
        std::string k(g.key_size, 'k'), v(20, 'v');
        std::thread a([&] { insert(db, k, v); fetch(db, k); });
        a.join();
        ctx.flush();
        fetch(db, k);
        db.close(ec);
        ctx.start();
        ctx.stop_all();
    }
    eng::vnow = t;
}

// One image to judge once the session is over
struct Later { simfs::FS img; Geo g; KV must, may; std::string what; };
void judge(Case& c, Later& l)
{
    simfs::Use use(l.img); use_hash(l.g);
    auto ec = do_recover(l.g);
    CHECK(! ec, "%s: recover failed: %s", l.what.c_str(), ecs(ec).c_str());
    ref::Db d;
    auto why = ref::check(l.img.file(l.g.dat)->str(), l.img.file(l.g.key)->str(), hash_fn(l.g.hash), d);
    CHECK(why.empty(), "%s: files do not conform: %s", l.what.c_str(), why.c_str());
    for(auto& e : l.must)
    {
        auto it = d.kv.find(e.first);
        CHECK(it != d.kv.end(), "%s: key %s is missing", l.what.c_str(), eng::hex(e.first.data(), e.first.size()).c_str());
        CHECK(it->second == e.second, "%s: key %s has another value", l.what.c_str(), eng::hex(e.first.data(), e.first.size()).c_str());
    }
    for(auto& e : d.kv)
    {
        auto it = l.may.find(e.first);
        CHECK(it != l.may.end() && it->second == e.second, "%s: key %s was never inserted with this value", l.what.c_str(), eng::hex(e.first.data(), e.first.size()).c_str());
    }
    ++c.evals;
}

// ---------------------------------------------------------------------------

struct CliOp { unsigned kind; uint64_t key, len, ver; int64_t ns; };

void run_clients(Case& c, bool faults)
{
    warm_up();
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS | SMALL_VALUES);
    if(c.chance(1, 3)) g.hash = c.pick({1u, 2u, 6u});
    World w(c, g);
    w.create();
    Split sp;
    uint64_t const dom = g.key_domain();
    uint64_t const pre = std::min<uint64_t>(c.skew(0, 60), dom);
    if(pre)
    {
        w.open();
        for(uint64_t i = 0; i < pre; ++i)
        {
            w.op_insert_new();
            if(c.chance(1, 12)) w.flush();
        }
        w.close();
        w.drop();
    }
    uint64_t const fresh = std::min<uint64_t>(c.range(1, 24), dom - pre);
    uint64_t const univ = pre + fresh;
    unsigned const nt = (unsigned)c.range(2, 4);
    std::vector<std::vector<CliOp>> script(nt);
    for(unsigned t = 0; t < nt; ++t)
    {
        unsigned const n = (unsigned)c.range(3, 30);
        for(unsigned i = 0; i < n; ++i)
        {
            CliOp o{};
            o.kind = c.weighted({5, 7, 2, 1, 1});
            switch(o.kind)
            {
            case 0: o.key = c.chance(1, 4) || ! fresh ? c.draw(univ) : pre + c.draw(fresh); o.len = gen_len(c, g); o.ver = 1 + t * 1000 + i; break;
            case 1: o.key = c.chance(1, 5) ? c.draw(univ) : (c.chance(1, 3) || ! fresh) && pre ? c.draw(pre) : fresh ? pre + c.draw(fresh) : c.draw(univ); break;
            case 2: o.ns = (int64_t)c.skew(1, 1200) * 1000000; break;
            case 3: o.len = c.skew(0, 100000); break;
            }
            script[t].push_back(o);
        }
    }
    unsigned const mode = c.weighted({3, 2, 1, 1, 1});  // 0 start(), 1 start() and extra threads, 2 a thread that calls flush(), 3 run() only, 4 the store's own
    unsigned const extra = mode == 1 ? (unsigned)c.range(1, 2) : mode == 3 ? (unsigned)c.range(1, 2) : 0;
    uint64_t const burst = c.chance(1, 2) ? c.skew(0, 5000) : 0;
    bool const crash = ! faults && c.chance(1, 2);
    uint64_t const crash_gap = crash ? c.skew(1, 400) : 0;
    auto const opt = dsched::gen_options(c);
    c.note("%s, %llu preloaded, %llu keys, %u clients, context mode %u+%u, scheduler style %u%s%s", g.str().c_str(), (unsigned long long)pre,
        (unsigned long long)univ, nt, mode, extra, opt.style, opt.early ? ", early timeouts" : "", opt.spurious ? ", spurious wakeups" : "");

    std::vector<std::vector<Rec>> logs(nt);
    std::vector<std::map<uint64_t, std::string>> vals(nt);      // ver -> value
    std::vector<Later> later;
    unsigned commits = 0; std::vector<uint64_t> commit_tick;
    bool faulted = false;
    unsigned fault_in = 0;
    // what is known to be acknowledged, in order of the acknowledgement
    struct Ack { uint64_t tick; std::string k, v; };
    std::vector<Ack> acks; KV tried;
    KV const base = w.disk;
    std::string broken;
    {
        uint64_t left = crash_gap;
        dsched::Session ses(c, opt);
        if(mode == 4) w.db.reset(new Store);
        w.open();
        nudb::context& ctx = *w.ctx; Store& db = *w.db;
        w.fs.after = [&](simfs::Op const& o)
        {
            if(o.kind == simfs::SYNC && *o.path == g.log && o.fsize == 0) { ++commits; commit_tick.push_back(dsched::tick()); }
        };
        if(faults) fault_in = (unsigned)c.skew(1, 300);
        w.fs.hook = [&](simfs::Op const& o) -> simfs::Act
        {
            if(faults && o.kind != simfs::CLOSE && fault_in && --fault_in == 0)
            {
                faulted = true; fault_in = c.chance(1, 3) ? 0 : 1;
                simfs::Act a; a.t = simfs::Act::ERR; a.err = EIO;
                return a;
            }
            if(crash && o.mutating() && left && --left == 0 && later.size() < 3)
            {
                left = c.skew(1, 200);
                Later l{simfs::crash_image(w.fs, (unsigned)c.draw(simfs::CRASH_MODES), c), g, base, base, "power loss during concurrent use"};
                uint64_t const t = commit_tick.size() >= 2 ? commit_tick[commit_tick.size() - 2] : 0;
                for(auto& a : acks) if(a.tick < t) l.must[a.k] = a.v;
                for(auto& a : tried) l.may[a.first] = "";
                later.push_back(std::move(l));
            }
            return {};
        };
        if(burst) db.set_burst(burst);
        std::vector<std::thread> thr, run;
        if(mode == 0 || mode == 1) ctx.start();
        for(unsigned i = 0; i < extra; ++i) run.emplace_back([&] { ctx.run(); });
        for(unsigned t = 0; t < nt; ++t)
            thr.emplace_back([&, t]
            {
                for(auto& o : script[t])
                {
                    Rec r{}; r.key = o.key;
                    switch(o.kind)
                    {
                    case 0:
                    {
                        auto k = key_bytes(g, o.key), v = val_bytes(g, o.key, o.ver, o.len);
                        vals[t][o.ver] = v;
                        r.ver = o.ver;
                        { eng::Quiet q; tried[k]; }
                        r.inv = dsched::tick();
                        r.ec = h::insert(db, k, v);
                        r.resp = dsched::tick();
                        r.r = ! r.ec ? OK : r.ec == nudb::error::key_exists ? EXISTS : ERROR;
                        if(r.r == OK) { eng::Quiet q; acks.push_back({r.resp, k, v}); }
                        break;
                    }
                    case 1:
                    {
                        auto k = key_bytes(g, o.key);
                        unsigned calls = 0; std::string v;
                        nudb::error_code ec;
                        r.inv = dsched::tick();
                        db.fetch(k.data(), [&](void const* p, size_t n)
                        {
                            ++calls; v.assign((char const*)p, n);
                            dsched::point();
                            DCHECK(n == v.size() && ! memcmp(p, v.data(), n), "the value changed while the fetch callback was running");
                        }, ec);
                        r.resp = dsched::tick();
                        r.ec = ec;
                        r.r = ec == nudb::error::key_not_found ? NOTFOUND : ec ? ERROR : FOUND;
                        if(! faults) DCHECK(calls == (r.r == FOUND ? 1u : 0u), "fetch called the callback %u times and returned %s", calls, ecs(ec).c_str());
                        if(r.r == FOUND) { vals[t][~(uint64_t)logs[t].size()] = v; r.ver = ~(uint64_t)logs[t].size(); }
                        break;
                    }
                    case 2: vsleep(o.ns); continue;
                    case 3: db.set_burst(o.len); continue;
                    default: (void)db.is_open(); (void)db.key_size(); (void)db.block_size(); (void)db.appnum(); (void)db.dat_path(); continue;
                    }
                    logs[t].push_back(r);
                }
            });
        std::thread flusher;
        bool done = false;
        unsigned const nf = mode == 2 ? (unsigned)c.range(1, 8) : 0;
        std::vector<int64_t> fl; for(unsigned i = 0; i < nf; ++i) fl.push_back((int64_t)c.skew(0, 400) * 1000000);
        if(mode == 2) flusher = std::thread([&] { for(auto x : fl) { vsleep(x); ctx.flush(); } });
        for(auto& t : thr) t.join();
        if(flusher.joinable()) flusher.join();
        (void)done;
        dsched::fair(true);
        if(! faults && mode != 2 && c.chance(1, 2))
        {
            vsleep(3500000000ll);
            Later l{simfs::crash_image(w.fs, 1, c), g, base, base, "power loss 3.5 s after the last insert with a context running"};
            for(auto& a : acks) l.must[a.k] = a.v;
            for(auto& a : tried) l.may[a.first] = "";
            later.push_back(std::move(l));
        }
        vsleep(1000000);        // the extra threads have entered run()
        unsigned const order = (unsigned)c.draw(2);
        nudb::error_code ec;
        w.fs.hook = nullptr;
        if(order == 0) { db.close(ec); ctx.stop_all(); } else { ctx.stop_all(); db.close(ec); }
        for(auto& t : run) t.join();
        if(! faulted) DCHECK(! ec, "close: %s", ecs(ec).c_str());
        w.db.reset(); w.ctx.reset();
        w.fs.after = nullptr;
    }
    c.label("scheduler-steps", dsched::steps()); c.label("context-switches", dsched::switches()); c.label("commits", commits);
    if(faulted) c.label("faulted");
    // ---- oracle
    std::map<uint64_t, std::vector<std::pair<Rec const*, unsigned>>> by;
    for(unsigned t = 0; t < nt; ++t) for(auto& r : logs[t]) by[r.key].push_back({&r, t});
    KV final_ = base; unsigned contended = 0, dup = 0;
    for(auto& b : by)
    {
        auto k = key_bytes(g, b.first); auto kh = eng::hex(k.data(), k.size());
        Rec const* ins = nullptr; unsigned it = 0; uint64_t lo = 0, hi = ~0ull, last_nf = 0, first_f = ~0ull;
        std::string const* val = nullptr;
        bool const preloaded = base.count(k) != 0;
        if(preloaded) val = &base.at(k);
        unsigned attempts = 0;
        for(auto& p : b.second)
        {
            Rec const& r = *p.first;
            if(! faulted) CHECK(r.r != ERROR, "%s of key %s gave %s", "call", kh.c_str(), ecs(r.ec).c_str());
            if(r.r == OK || r.r == EXISTS) ++attempts;
            if(r.r == OK)
            {
                CHECK(! ins, "two concurrent inserts of key %s both succeeded", kh.c_str());
                CHECK(! preloaded, "insert of key %s succeeded although it was present", kh.c_str());
                ins = &r; it = p.second; lo = r.inv; hi = r.resp;
                val = &vals[it][r.ver];
            }
            if(r.r == NOTFOUND) last_nf = std::max(last_nf, r.inv);
            if(r.r == FOUND || r.r == EXISTS) first_f = std::min(first_f, r.resp);
        }
        if(attempts > 1) ++dup;
        if(b.second.size() > 2) ++contended;
        if(preloaded) CHECK(last_nf == 0, "key %s was present from the start and a fetch reported not found", kh.c_str());
        else if(! ins && ! faulted) CHECK(first_f == ~0ull, "key %s was reported present though no insert of it succeeded", kh.c_str());
        else if(ins)
        {
            CHECK(last_nf < hi, "fetch of key %s began after its insert had returned and reported not found", kh.c_str());
            CHECK(first_f > lo, "key %s was reported present before its insert began", kh.c_str());
            CHECK(std::max(lo, last_nf) < std::min(hi, first_f), "key %s was reported present and then not found", kh.c_str());
        }
        for(auto& p : b.second)
            if(p.first->r == FOUND)
            {
                if(! val) { CHECK(faulted, "found without insert"); continue; }
                auto& v = vals[p.second][p.first->ver];
                CHECK(v == *val, "fetch of key %s returned %s, expected %s", kh.c_str(), eng::hex(v.data(), v.size()).c_str(), eng::hex(val->data(), val->size()).c_str());
            }
        if(ins) final_[k] = *val;
    }
    if(dup) c.label("same-key-inserts", dup);
    if(! faulted)
    {
        w.disk = final_;
        w.check_files("after concurrent use and close");
        for(auto& l : later)
        {
            for(auto& m : l.may) { auto f = final_.find(m.first); if(f != final_.end()) m.second = f->second; }
            judge(c, l);
            c.label("crash-images");
        }
    }
    c.nontrivial(commits >= 1 && contended && dsched::switches() > 20);
}

// ---------------------------------------------------------------------------
// Programs over several stores and contexts

struct StOp { unsigned kind; unsigned store; uint64_t n, len; int64_t ns; };

void run_programs(Case& c, bool faults)
{
    warm_up();
    unsigned const nctx = c.chance(1, 4) ? 2 : 1;
    unsigned const nthr = (unsigned)c.range(1, 4);
    Geo base = gen_geo(c, SMALL_BLOCKS | SMALL_VALUES);
    if(base.key_size < 2) base.key_size = 2;
    simfs::FS fs; simfs::Use use(fs); use_hash(base);
    Split sp;
    struct One { Geo g; std::unique_ptr<Store> db; KV disk, all; uint64_t next = 0; unsigned ctx = 0; bool open = false, self = false; };
    std::vector<std::unique_ptr<One>> s;
    std::vector<std::vector<unsigned>> own(nthr);
    for(unsigned t = 0; t < nthr; ++t)
    {
        unsigned const m = (unsigned)c.range(1, 2);
        for(unsigned i = 0; i < m; ++i)
        {
            std::unique_ptr<One> o(new One);
            unsigned const id = (unsigned)s.size();
            o->g = base; o->ctx = (unsigned)c.draw(nctx);
            o->g.dat = fmt("/@sim/s%u.dat", id); o->g.key = fmt("/@sim/s%u.key", id); o->g.log = fmt("/@sim/s%u.log", id);
            o->g.val_seed += id;
            auto ec = do_create(o->g);
            CHECK(! ec, "create: %s", ecs(ec).c_str());
            o->self = c.chance(1, 6);           // a default constructed store runs its own context
            if(o->self) c.label("own-context");
            own[t].push_back(id); s.push_back(std::move(o));
        }
    }
    std::vector<std::vector<StOp>> script(nthr);
    for(unsigned t = 0; t < nthr; ++t)
    {
        unsigned const n = (unsigned)c.range(3, 25);
        for(unsigned i = 0; i < n; ++i)
        {
            StOp o{};
            o.kind = c.weighted({4, 8, 2, 2, 3, 2, 1});     // open, insert, fetch, close/destroy, sleep, settle, set_burst
            o.store = own[t][c.draw(own[t].size())];
            o.n = c.skew(1, 12); o.len = c.draw(2);
            o.ns = (int64_t)c.skew(1, 2500) * 1000000;
            if(o.kind == 6) o.n = c.skew(0, 20000);
            script[t].push_back(o);
        }
    }
    // what the main thread does to the contexts meanwhile
    std::vector<StOp> ctl;
    {
        unsigned const n = (unsigned)c.range(1, 8);
        for(unsigned i = 0; i < n; ++i)
        {
            StOp o{};
            o.kind = c.weighted({4, 1, 1, 3, 1});       // start, run thread, stop_all, sleep, flush
            o.store = (unsigned)c.draw(nctx);
            o.ns = (int64_t)c.skew(1, 3000) * 1000000;
            ctl.push_back(o);
        }
    }
    unsigned const ending = (unsigned)c.draw(3);
    bool const contexts_first = c.chance(1, 2);
    auto opt = dsched::gen_options(c);
    bool const settle = ! faults && c.chance(2, 3);
    if(settle) opt.early = false;
    c.note("%zu stores, %u contexts, %u threads, %s, scheduler style %u%s%s", s.size(), nctx, nthr, base.str().c_str(), opt.style,
        opt.early ? ", early timeouts" : "", opt.spurious ? ", spurious wakeups" : "");
    for(auto& o : ctl) c.note("control: %s context %u", o.kind == 0 ? "start" : o.kind == 1 ? "extra run thread" : o.kind == 2 ? "stop_all" : o.kind == 3 ? "sleep" : "flush", o.store);
    std::vector<Later> later;
    uint64_t inserts = 0, settles = 0, closes = 0;
    unsigned commits = 0; bool faulted = false;
    {
        dsched::Session ses(c, opt);
        std::vector<std::unique_ptr<nudb::context>> ctx(nctx);
        std::vector<uint64_t> running(nctx), epoch(nctx);       // guarded by the scheduler's serialization
        for(auto& x : ctx) x.reset(new nudb::context);
        fs.after = [&](simfs::Op const& o) { if(o.kind == simfs::TRUNC && o.path->find(".log") != std::string::npos) ++commits; };
        unsigned fault_in = faults ? (unsigned)c.skew(1, 400) : 0;
        if(faults) fs.hook = [&](simfs::Op const& o) -> simfs::Act
        {
            if(o.kind != simfs::CLOSE && fault_in && --fault_in == 0)
            {
                faulted = true; fault_in = c.chance(1, 2) ? 1 : (unsigned)c.skew(1, 200);
                simfs::Act a; a.t = simfs::Act::ERR; a.err = EIO;
                return a;
            }
            return {};
        };
        std::vector<std::thread> thr;
        struct Run { std::thread t; unsigned ctx; };
        std::vector<Run> run;
        for(unsigned t = 0; t < nthr; ++t)
            thr.emplace_back([&, t]
            {
                for(auto& o : script[t])
                {
                    One& x = *s[o.store];
                    nudb::error_code ec;
                    switch(o.kind)
                    {
                    case 0:
                        if(x.open) break;
                        if(! x.db) x.db.reset(x.self ? new Store : new Store(*ctx[x.ctx]));
                        x.db->open(x.g.dat, x.g.key, x.g.log, ec);
                        if(ec) { if(! faults) dsched::fail("open: " + ecs(ec)); break; }
                        x.open = true;
                        break;
                    case 1:
                        if(! x.open) break;
                        for(uint64_t i = 0; i < o.n && x.next < x.g.key_domain(); ++i)
                        {
                            auto k = key_bytes(x.g, x.next), v = val_bytes(x.g, x.next, 0, 1 + x.next * 7 % 60);
                            ++x.next;
                            ec = h::insert(*x.db, k, v);
                            if(ec) { if(! faults) dsched::fail("insert: " + ecs(ec)); break; }
                            { eng::Quiet q; ++inserts; }
                            x.all[k] = v;
                        }
                        break;
                    case 2:
                        if(! x.open || ! x.next) break;
                        {
                            auto i = o.n % x.next; auto k = key_bytes(x.g, i);
                            auto f = h::fetch(*x.db, k);
                            if(! faults) DCHECK(! f.ec && f.val == x.all[k], "fetch: %s", ecs(f.ec).c_str());
                        }
                        break;
                    case 3:
                        if(! x.db) break;
                        if(o.len) { x.db->close(ec); if(! faults) DCHECK(! ec, "close: %s", ecs(ec).c_str()); }
                        if(o.ns % 2000000) x.db.reset();
                        else if(! o.len) break;
                        x.open = false;
                        { eng::Quiet q; ++closes; }
                        if(! faults)
                        {
                            eng::Quiet q;
                            later.push_back({simfs::crash_image(fs, 1, c), x.g, x.all, x.all, "power loss after close"});
                        }
                        break;
                    case 4: vsleep(o.ns); break;
                    case 5:
                        if(! x.open || ! settle) break;
                        {
                            uint64_t e; { eng::Quiet q; e = x.self ? 0 : running[x.ctx] ? epoch[x.ctx] : ~0ull; }
                            vsleep(3500000000ll);
                            eng::Quiet q;
                            if(x.self || e == epoch[x.ctx])
                            {
                                later.push_back({simfs::crash_image(fs, 1, c), x.g, x.all, x.all, "power loss 3.5 s after the last insert with a context running"});
                                ++settles;
                            }
                        }
                        break;
                    default: if(x.open) x.db->set_burst(o.n);
                    }
                }
            });
        auto enter = [&]
        {
            dsched::fair(true);
            vsleep(100000);
            dsched::fair(false);
        };
        auto stop = [&](unsigned i)
        {
            enter();
            { eng::Quiet q; running[i] = 0; ++epoch[i]; }
            ctx[i]->stop_all();
            for(auto& r : run) if(r.ctx == i && r.t.joinable()) r.t.join();
        };
        for(auto& o : ctl)
        {
            switch(o.kind)
            {
            case 0: ctx[o.store]->start(); { eng::Quiet q; running[o.store] = 1; ++epoch[o.store]; } break;
            case 1:
                if(run.size() < 4) { auto p = ctx[o.store].get(); run.push_back({std::thread([p] { p->run(); }), o.store}); }
                enter();
                { eng::Quiet q; running[o.store] = 1; ++epoch[o.store]; }
                break;
            case 2: stop(o.store); break;
            case 3: vsleep(o.ns); break;
            default: ctx[o.store]->flush();
            }
        }
        if(ending == 1) for(unsigned i = 0; i < nctx; ++i) stop(i);
        for(auto& t : thr) t.join();
        // shutdown: stores first as required; the contexts' threads stop before, after, or in their destructor
        if(ending != 0) enter();
        if(contexts_first) for(unsigned i = 0; i < nctx; ++i) stop(i);
        for(auto& x : s)
        {
            if(! x->db) continue;
            nudb::error_code ec;
            if(x->open && c.chance(1, 2)) { x->db->close(ec); if(! faults) DCHECK(! ec, "close: %s", ecs(ec).c_str()); }
            x->db.reset(); x->open = false;
        }
        enter();
        for(auto& x : ctx) x.reset();
        for(auto& r : run) if(r.t.joinable()) r.t.join();
        fs.after = nullptr; fs.hook = nullptr;
    }
    c.label("scheduler-steps", dsched::steps()); c.label("context-switches", dsched::switches()); c.label("commits", commits);
    c.label("settled", settles); c.label("closes", closes);
    if(! faulted)
    {
        for(auto& x : s) later.push_back({fs.clone(), x->g, x->all, x->all, "at the end"});
        for(auto& l : later) judge(c, l);
    }
    c.nontrivial(inserts > 0 && dsched::switches() > 15 && (commits || settles || closes));
}

} // namespace

// The thread part of C09: with context threads running, flush() does nothing
void c09_threads(Case& c)
{
    warm_up();
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_VALUES);
    World w(c, g);
    w.create();
    dsched::Options o; o.style = (unsigned)c.draw(4);
    unsigned const mode = (unsigned)c.draw(3), rounds = (unsigned)c.range(1, 5);
    unsigned ignored = 0;
    {
        dsched::Session ses(c, o);
        w.open();
        std::vector<std::thread> run;
        if(mode != 1) w.ctx->start();
        if(mode != 0) run.emplace_back([&] { w.ctx->run(); });
        vsleep(1000000);
        for(unsigned r = 0; r < rounds; ++r)
        {
            unsigned const n = (unsigned)c.range(1, 6);
            for(unsigned i = 0; i < n; ++i)
            {
                auto id = w.fresh_key(); if(id == ~0ull) break;
                auto k = key_bytes(g, id), v = val_bytes(g, id, 0, gen_len(c, g));
                auto ec = h::insert(*w.db, k, v);
                DCHECK(! ec, "insert: %s", ecs(ec).c_str());
                w.buf[k] = v;
            }
            auto const before = eng::vnow; uint64_t ops = 0; int const id = dsched::self();
            w.fs.hook = [&](simfs::Op const& op) -> simfs::Act { if(dsched::self() == id && op.mutating()) ++ops; return {}; };
            w.ctx->flush();
            DCHECK(ops == 0, "flush of a context with running threads committed (%llu file operations)", (unsigned long long)ops);
            (void)before; ++ignored;
            w.fs.hook = nullptr;
            vsleep((int64_t)c.skew(1, 1500) * 1000000);
        }
        vsleep(3500000000ll);
        w.disk.insert(w.buf.begin(), w.buf.end()); w.buf.clear();
        w.ctx->stop_all();
        for(auto& t : run) t.join();
        // threads stopped: flush works again
        auto id = w.fresh_key();
        if(id != ~0ull)
        {
            auto k = key_bytes(g, id), v = val_bytes(g, id, 0, gen_len(c, g));
            auto ec = h::insert(*w.db, k, v);
            DCHECK(! ec, "insert: %s", ecs(ec).c_str());
            w.ctx->flush();
            w.disk[k] = v;
        }
    }
    auto img = simfs::crash_image(w.fs, 1, c);
    Later l{img, g, w.disk, w.disk, "power loss after flush with the threads stopped"};
    judge(c, l);
    c.label("flush-ignored", ignored);
    c.nontrivial(true);
}

PROPERTY(C06) { run_clients(c, false); }
PROPERTY(C07) { bool const f = c.chance(1, 4); if(c.chance(1, 3)) run_programs(c, f); else run_clients(c, f); }
PROPERTY(C08) { if(c.chance(1, 5)) run_clients(c, false); else run_programs(c, false); }

// ---------------------------------------------------------------------------
// Slow devices: a file operation that does not return must hold up the call it
// belongs to and nobody else. Whoever waits for it deadlocks.
PROPERTY(C28)
{
    warm_up();
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS | SMALL_VALUES);
    if(g.key_size < 2) g.key_size = 2;
    if(c.chance(1, 3)) g.hash = c.pick({1u, 2u, 6u});
    World w(c, g);
    w.create();
    Geo g2 = g; g2.dat = "/@sim/o.dat"; g2.key = "/@sim/o.key"; g2.log = "/@sim/o.log"; g2.val_seed += 5;
    bool const other = c.chance(1, 3);
    if(other) { auto ec = do_create(g2); CHECK(! ec, "create: %s", ecs(ec).c_str()); }
    uint64_t const pre = c.skew(0, 60), batch = c.range(1, 40);
    if(pre) { w.open(); for(uint64_t i = 0; i < pre; ++i) { w.op_insert_new(); if(c.chance(1, 12)) w.flush(); } w.close(); w.drop(); }
    bool const background = c.chance(1, 3), inserts = c.chance(2, 3), reader = c.chance(1, 3);
    unsigned const nt = (unsigned)c.range(1, 3), stalls = (unsigned)c.range(1, 3);
    auto opt = dsched::gen_options(c);
    opt.early = false;
    c.note("%s, %llu preloaded, batch %llu, %s, %u clients, %u stalls%s%s%s", g.str().c_str(), (unsigned long long)pre, (unsigned long long)batch,
        background ? "context thread" : "manual flush", nt, stalls, inserts ? ", inserts" : "", reader ? ", a stalled reader" : "", other ? ", another store" : "");
    uint64_t reached = 0, calls = 0, rstalls = 0, resumed = 0;
    std::map<std::string, unsigned> where;
    KV otherkv;
    {
        dsched::Session ses(c, opt);
        std::mutex sm; std::condition_variable cv;
        bool stalled = false, go = false, over = false, ended = false, rst = false, rgo = false;
        std::set<int> clients{dsched::self()};
        int slow = -1;              // the client whose next read does not return
        uint64_t gap = ~0ull;
        w.open();
        Store& db = *w.db;
        std::unique_ptr<Store> db2; uint64_t next2 = 0;
        w.fs.hook = [&](simfs::Op const& o) -> simfs::Act
        {
            int const me = dsched::self();
            if(me == slow)
            {
                slow = -1;
                std::unique_lock<std::mutex> l(sm);
                rst = true; cv.notify_all();
                while(! rgo) cv.wait(l);
            }
            else if(! clients.count(me) && (*o.path == g.dat || *o.path == g.key || *o.path == g.log) && gap && gap != ~0ull && --gap == 0)
            {
                ++where[simfs::kind_name(o.kind)];
                std::unique_lock<std::mutex> l(sm);
                stalled = true; cv.notify_all();
                while(! go && ! ended) cv.wait(l);
                go = false;
            }
            return {};
        };
        auto put = [&](uint64_t n)
        {
            for(; n; --n)
            {
                auto i = w.fresh_key(); if(i == ~0ull) return;
                auto k = key_bytes(g, i), v = val_bytes(g, i, 0, gen_len(c, g));
                auto ec = h::insert(db, k, v);
                DCHECK(! ec, "insert: %s", ecs(ec).c_str());
                w.buf[k] = v; w.keys.push_back(i);
            }
        };
        put(batch);
        uint64_t next_gap = c.skew(1, 120);
        gap = next_gap;
        std::thread bg;
        if(background) w.ctx->start();
        else bg = std::thread([&] { w.ctx->flush(); std::lock_guard<std::mutex> l(sm); over = true; cv.notify_all(); });
        for(unsigned r = 0; r < stalls; ++r)
        {
            {
                std::unique_lock<std::mutex> l(sm);
                if(! cv.wait_for(l, std::chrono::seconds(5), [&] { return stalled || over; })) break;
                if(! stalled) break;
            }
            ++reached;
            // the commit is stuck in a file operation
            std::vector<std::thread> thr;
            std::vector<std::vector<std::pair<std::string, std::string>>> added(nt);
            uint64_t const first = w.next_key;
            uint64_t const room = g.key_domain() > first ? std::min<uint64_t>(8 * nt, g.key_domain() - first) : 0;
            w.next_key += room;
            bool const rd = reader && ! w.keys.empty();
            rst = rgo = false;
            std::thread rt;
            // one client may be stopped in a read too; inserts are serialized, so while
            // it is an insert that is stopped the others only fetch
            bool const rins = rd && c.chance(1, 4), ins = inserts && ! rins;
            if(rd)
                rt = std::thread([&]
                {
                    { eng::Quiet q; clients.insert(dsched::self()); }
                    slow = dsched::self();
                    auto k = key_bytes(g, w.keys[c.draw(w.keys.size())]);
                    if(rins)
                    {
                        auto e = h::insert(db, k, "x");
                        DCHECK(e == nudb::error::key_exists, "insert of present key %s gave %s", eng::hex(k.data(), k.size()).c_str(), ecs(e).c_str());
                    }
                    else
                    {
                        auto f = h::fetch(db, k);
                        DCHECK(! f.ec && f.val == *w.get(k), "fetch of key %s gave %s", eng::hex(k.data(), k.size()).c_str(), ecs(f.ec).c_str());
                    }
                    std::unique_lock<std::mutex> l(sm);
                    if(slow == dsched::self()) slow = -1;
                    rst = true; cv.notify_all();
                });
            if(rd)
            {
                std::unique_lock<std::mutex> l(sm);
                while(! rst) cv.wait(l);
                rst = false;
                ++rstalls;
                // the commit may go on meanwhile, up to where it waits for the read
                if(c.chance(1, 2)) { stalled = false; go = true; gap = 0; cv.notify_all(); ++resumed; }
            }
            for(unsigned t = 0; t < nt; ++t)
                thr.emplace_back([&, t]
                {
                    { eng::Quiet q; clients.insert(dsched::self()); }
                    unsigned const n = (unsigned)c.range(1, 12);
                    for(unsigned j = 0; j < n; ++j)
                    {
                        ++calls;
                        switch(c.weighted({5, 2, (unsigned)(ins ? 4 : 0), (unsigned)(ins ? 1 : 0)}))
                        {
                        case 0:
                        {
                            if(w.keys.empty()) break;
                            auto k = key_bytes(g, w.keys[c.draw(w.keys.size())]);
                            auto f = h::fetch(db, k);
                            DCHECK(! f.ec && f.val == *w.get(k), "fetch of key %s while a commit is stuck gave %s", eng::hex(k.data(), k.size()).c_str(), ecs(f.ec).c_str());
                            break;
                        }
                        case 1:
                        {
                            if(w.next_key + 3 >= g.key_domain()) break;
                            auto f = h::fetch(db, key_bytes(g, w.next_key + 2));
                            DCHECK(f.ec == nudb::error::key_not_found, "fetch of an absent key while a commit is stuck gave %s", ecs(f.ec).c_str());
                            break;
                        }
                        case 2:
                        {
                            uint64_t const i = first + t + nt * added[t].size();
                            if(i >= first + room) break;
                            auto k = key_bytes(g, i), v = val_bytes(g, i, 0, gen_len(c, g));
                            auto ec = h::insert(db, k, v);
                            DCHECK(! ec, "insert while a commit is stuck: %s", ecs(ec).c_str());
                            { eng::Quiet q; added[t].push_back({k, v}); }
                            auto f = h::fetch(db, k);
                            DCHECK(! f.ec && f.val == v, "fetch after insert while a commit is stuck gave %s", ecs(f.ec).c_str());
                            break;
                        }
                        default:
                        {
                            if(w.keys.empty()) break;
                            auto ec = h::insert(db, key_bytes(g, w.keys[c.draw(w.keys.size())]), "x");
                            DCHECK(ec == nudb::error::key_exists, "insert of a present key while a commit is stuck gave %s", ecs(ec).c_str());
                        }
                        }
                    }
                });
            if(other)
            {
                // the other store of the context lives on
                nudb::error_code ec;
                if(! db2) { db2.reset(new Store(*w.ctx)); db2->open(g2.dat, g2.key, g2.log, ec); DCHECK(! ec, "open of another store: %s", ecs(ec).c_str()); }
                for(uint64_t n = c.range(1, 5); n; --n, ++next2)
                {
                    if(next2 >= g2.key_domain()) break;
                    auto k = key_bytes(g2, next2), v = val_bytes(g2, next2, 0, gen_len(c, g2));
                    ec = h::insert(*db2, k, v);
                    DCHECK(! ec, "insert into another store: %s", ecs(ec).c_str());
                    otherkv[k] = v;
                    auto f = h::fetch(*db2, k);
                    DCHECK(! f.ec && f.val == v, "fetch from another store: %s", ecs(f.ec).c_str());
                }
                if(c.chance(1, 2)) { db2->close(ec); DCHECK(! ec, "close of another store: %s", ecs(ec).c_str()); db2.reset(); }
            }
            for(auto& t : thr) t.join();
            if(rd)
            {
                { std::unique_lock<std::mutex> l(sm); rgo = true; cv.notify_all(); }
                rt.join();
            }
            for(auto& a : added) for(auto& e : a) w.buf[e.first] = e.second;
            for(unsigned t = 0; t < nt; ++t) for(uint64_t j = 0; j < added[t].size(); ++j) w.keys.push_back(first + t + nt * j);
            std::unique_lock<std::mutex> l(sm);
            if(stalled) { stalled = false; go = true; }
            gap = c.skew(1, 60);
            cv.notify_all();
        }
        {
            std::unique_lock<std::mutex> l(sm);
            gap = ~0ull; ended = true; cv.notify_all();
        }
        if(bg.joinable()) bg.join();
        nudb::error_code ec;
        w.ctx->stop_all();
        if(db2) { db2->close(ec); DCHECK(! ec, "close: %s", ecs(ec).c_str()); }
        db.close(ec);
        DCHECK(! ec, "close: %s", ecs(ec).c_str());
        db2.reset(); w.drop();
        w.fs.hook = nullptr;
    }
    w.disk.insert(w.buf.begin(), w.buf.end()); w.buf.clear();
    w.check_files("after the commit went on and the store was closed");
    for(auto& x : where) c.label("stuck-in-" + x.first, x.second);
    if(! otherkv.empty()) c.label("other-store");
    if(rstalls) c.label("stuck-reader", rstalls);
    if(resumed) c.label("stuck-reader-alone", resumed);
    c.nontrivial(reached && calls > 3);
}
