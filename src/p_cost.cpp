// C30 I/O cost: what every call reads and writes is bounded by what it works on,
// not by the size of the database
#include "db.hpp"
#include <algorithm>
#include <cmath>
using namespace h;
using simfs::Op;

namespace {
using U = unsigned long long;

struct File
{
    uint64_t n[simfs::NKIND] = {}, rbytes = 0, wbytes = 0;
    std::map<uint64_t, uint64_t> rat, wat;      // how often each offset was read, written
    uint64_t calls(std::initializer_list<simfs::Kind> l) const { uint64_t s = 0; for(auto k : l) s += n[k]; return s; }
    uint64_t total() const { uint64_t s = 0; for(auto k : n) s += k; return s; }
};
struct Tally
{
    World& w; Geo g;
    File dat, key, log;
    uint64_t other = 0;
    explicit Tally(World& w_) : w(w_), g(w_.g)
    {
        w.fs.after = [this](Op const& o)
        {
            if(o.kind == simfs::ADVISE) return;
            auto const& p = *o.path;
            if(p != g.dat && p != g.key && p != g.log) { ++other; return; }
            File& f = p == g.dat ? dat : p == g.key ? key : log;
            ++f.n[o.kind];
            if(o.kind == simfs::READ) { f.rbytes += o.len; ++f.rat[o.off]; }
            if(o.kind == simfs::WRITE) { f.wbytes += o.len; ++f.wat[o.off]; }
        };
    }
    ~Tally() { w.fs.after = nullptr; }
    uint64_t total() const { return dat.total() + key.total() + log.total() + other; }
    uint64_t mutating() const
    {
        uint64_t s = other;
        for(auto f : {&dat, &key, &log}) s += f->calls({simfs::WRITE, simfs::SYNC, simfs::TRUNC, simfs::CREATE, simfs::UNLINK, simfs::RENAME});
        return s;
    }
};

uint64_t chain_bytes(std::vector<ref::Bucket> const& ch)
{
    uint64_t s = 0;
    for(size_t i = 1; i < ch.size(); ++i) s += 8 + ref::bucket_bytes(ch[i].count);
    return s;
}
bool no_repeat(std::map<uint64_t, uint64_t> const& m, uint64_t& at)
{
    for(auto& e : m) if(e.second > 1) { at = e.first; return false; }
    return true;
}
ref::Db parse(World& w)
{
    ref::Db d; auto why = ref::check(w.dat(), w.key(), hash_fn(w.g.hash), d);
    CHECK(why.empty(), "files: %s", why.c_str());
    return d;
}

// One call of fetch or insert on the state d of the files
void probe(World& w, ref::Db const& d, std::string const& k, bool insert, std::string const& v)
{
    auto const& g = w.g;
    bool const buffered = w.buf.count(k), present = w.has(k);
    uint64_t const h48 = ref_hash(g.hash, g.salt, k.data(), k.size()) >> 16;
    auto const& ch = d.chains[ref::bucket_of(h48, d.kh.buckets)];
    uint64_t cand = 0, cand_bytes = 0;
    for(auto& b : ch) for(auto& e : b.e) if(e.hash == h48) { ++cand; cand_bytes += g.key_size + e.size; }
    Tally t(w);
    if(insert) w.insert_expect(k, v); else w.fetch_expect(k);
    auto const what = fmt("%s of a%s key", insert ? "insert" : "fetch", buffered ? " buffered" : present ? " committed" : "n absent");
    CHECK(t.mutating() == 0, "%s: %llu calls that write, create, sync or remove", what.c_str(), (U)t.mutating());
    uint64_t const spills = ch.size() - 1;
    // a key in memory needs no file; else one block of the key file, the chain, and the records with the same hash
    uint64_t const maxk = buffered ? 0 : 1;
    uint64_t const maxd = buffered ? 0 : 2 * spills + cand;
    uint64_t const maxb = buffered ? 0 : spills * (g.block_size + 8) + (insert ? cand * (6 + g.key_size) : cand_bytes + 6 * cand);
    CHECK(t.log.total() == 0, "%s uses the log file", what.c_str());
    CHECK(t.key.n[simfs::READ] <= maxk && t.key.rbytes <= maxk * g.block_size, "%s reads %llu bytes of the key file in %llu reads (block of %llu)", what.c_str(), (U)t.key.rbytes, (U)t.key.n[simfs::READ], (U)g.block_size);
    CHECK(t.dat.n[simfs::READ] <= maxd && t.dat.rbytes <= maxb, "%s reads %llu bytes of the data file in %llu reads; its bucket has %llu spill records, %llu entries have its hash: at most %llu bytes in %llu reads",
        what.c_str(), (U)t.dat.rbytes, (U)t.dat.n[simfs::READ], (U)spills, (U)cand, (U)maxb, (U)maxd);
    CHECK(t.total() <= t.key.n[simfs::READ] + t.dat.n[simfs::READ] + 2, "%s makes %llu system calls", what.c_str(), (U)t.total());
}

// Flush or close with w.buf in memory; d describes the files before
void commit(World& w, Case& c, ref::Db const& d, bool close)
{
    auto const& g = w.g;
    uint64_t const batch = w.buf.size();
    uint64_t datasz = 0;
    for(auto& e : w.buf) datasz += 6 + e.first.size() + e.second.size();
    uint64_t const dat0 = w.fs.file(g.dat)->size;
    std::string const what = fmt("%s of %llu items of %llu bytes, %llu buckets of %llu bytes", close ? "close" : "commit", (U)batch, (U)datasz, (U)d.kh.buckets, (U)g.block_size);
    c.note("%s", what.c_str());
    Tally t(w);
    if(close) w.close(); else w.flush();
    w.fs.after = nullptr;
    if(! batch)
    {
        CHECK(t.dat.n[simfs::READ] + t.key.n[simfs::READ] + t.log.n[simfs::READ] == 0, "%s reads the files", what.c_str());
        uint64_t const m = t.mutating();
        CHECK(m <= (close ? 2 : 0), "%s makes %llu calls that write, sync, truncate or remove", what.c_str(), (U)m);
        CHECK(t.total() <= (close ? 12 : 2), "%s makes %llu system calls", what.c_str(), (U)t.total());
        return;
    }
    uint64_t const growth = w.fs.file(g.dat)->size - dat0;
    uint64_t const nb1 = w.fs.file(g.key)->size / g.block_size - 1;
    uint64_t const splits = nb1 - d.kh.buckets;
    // spill records that splits had to read: those of the buckets split, and new ones
    uint64_t old_chain = 0, old_recs = 0, from = 0;
    for(uint64_t n2 = d.kh.buckets; n2 < nb1; ++n2)
    {
        uint64_t n1 = n2 - ref::ceil_pow2(n2 + 1) / 2;
        if(n1 < d.chains.size()) { old_chain += chain_bytes(d.chains[n1]); old_recs += d.chains[n1].size() - 1; ++from; }
    }
    uint64_t const new_spill = growth - datasz;
    uint64_t const new_recs = (new_spill + 7) / (8 + ref::bucket_bytes(d.kh.capacity));
    uint64_t at = 0;
    // data file
    CHECK(t.dat.wbytes == growth, "%s writes %llu bytes to the data file, which grew by %llu", what.c_str(), (U)t.dat.wbytes, (U)growth);
    uint64_t const maxw = 4 + growth / 16384 + 2 * (old_recs + new_recs);
    CHECK(t.dat.n[simfs::WRITE] <= maxw, "%s appends %llu bytes in %llu writes; %llu spill records were read: at most %llu", what.c_str(), (U)growth, (U)t.dat.n[simfs::WRITE], (U)(old_recs + new_recs), (U)maxw);
    CHECK(no_repeat(t.dat.rat, at), "%s reads the data file at %llu twice", what.c_str(), (U)at);
    CHECK(t.dat.rbytes <= old_chain + new_spill && t.dat.n[simfs::READ] <= 2 * (old_recs + new_recs), "%s reads %llu bytes of the data file in %llu reads; the %llu buckets split have %llu spill records of %llu bytes, %llu bytes of spill records were written",
        what.c_str(), (U)t.dat.rbytes, (U)t.dat.n[simfs::READ], (U)splits, (U)old_recs, (U)old_chain, (U)new_spill);
    // key file
    CHECK(no_repeat(t.key.rat, at), "%s reads the key file at %llu twice", what.c_str(), (U)at);
    CHECK(no_repeat(t.key.wat, at), "%s writes the key file at %llu twice", what.c_str(), (U)at);
    CHECK(t.key.rbytes <= std::min(batch + from, d.kh.buckets) * g.block_size, "%s reads %llu bytes of the key file; %llu items and %llu splits", what.c_str(), (U)t.key.rbytes, (U)batch, (U)splits);
    CHECK(t.key.wbytes <= std::min(batch + 2 * splits, nb1) * g.block_size, "%s writes %llu bytes to the key file; %llu items and %llu splits", what.c_str(), (U)t.key.wbytes, (U)batch, (U)splits);
    CHECK(t.key.n[simfs::READ] <= std::min(batch + from, d.kh.buckets) && t.key.n[simfs::WRITE] <= std::min(batch + 2 * splits, nb1), "%s makes %llu reads and %llu writes on the key file", what.c_str(), (U)t.key.n[simfs::READ], (U)t.key.n[simfs::WRITE]);
    // log file: the header, and every bucket that is changed, without its unused entries
    uint64_t maxlog = 62;
    for(auto& e : t.key.wat)
    {
        uint64_t const n = e.first / g.block_size - 1;
        if(n < d.chains.size()) maxlog += 8 + ref::bucket_bytes(d.chains[n][0].count);
    }
    CHECK(t.log.wbytes <= maxlog, "%s writes %llu bytes to the log file; its header and the changed buckets have %llu", what.c_str(), (U)t.log.wbytes, (U)maxlog);
    CHECK(t.log.n[simfs::WRITE] <= 4 + maxlog / 16384, "%s writes %llu bytes of log in %llu writes", what.c_str(), (U)t.log.wbytes, (U)t.log.n[simfs::WRITE]);
    CHECK(t.log.n[simfs::READ] == 0, "%s reads the log file", what.c_str());
    // device flushes do not depend on the batch
    CHECK(t.dat.n[simfs::SYNC] <= 2 && t.key.n[simfs::SYNC] <= 2 && t.log.n[simfs::SYNC] <= 4, "%s makes %llu, %llu and %llu device flushes on data, key and log file",
        what.c_str(), (U)t.dat.n[simfs::SYNC], (U)t.key.n[simfs::SYNC], (U)t.log.n[simfs::SYNC]);
    CHECK(t.dat.n[simfs::TRUNC] + t.key.n[simfs::TRUNC] == 0 && t.log.n[simfs::TRUNC] <= 2, "%s truncates files", what.c_str());
    uint64_t rest = t.other;
    for(auto f : {&t.dat, &t.key, &t.log}) rest += f->calls({simfs::OPEN, simfs::CREATE, simfs::STAT, simfs::UNLINK, simfs::RENAME, simfs::CLOSE});
    CHECK(rest <= 16, "%s makes %llu other system calls", what.c_str(), (U)rest);
    if(splits) c.label("splits", splits);
    if(old_recs) c.label("split-of-spilled-bucket");
    if(growth > 131072) c.label("large-commit");
}

// open and close of a database at rest cost the same whatever its size
void opening(World& w, bool recovered)
{
    Tally t(w);
    w.open();
    std::string const what = fmt("open of a database of %zu items", w.disk.size());
    if(recovered) return;
    CHECK(t.dat.rbytes + t.key.rbytes + t.log.rbytes <= 4096, "%s reads %llu bytes", what.c_str(), (U)(t.dat.rbytes + t.key.rbytes + t.log.rbytes));
    CHECK(t.dat.wbytes + t.key.wbytes + t.log.wbytes == 0, "%s writes %llu bytes", what.c_str(), (U)(t.dat.wbytes + t.key.wbytes + t.log.wbytes));
    CHECK(t.total() <= 48, "%s makes %llu system calls", what.c_str(), (U)t.total());
}

void recovering(World& w, Case& c)
{
    uint64_t const lsz = w.fs.file(w.g.log) ? w.fs.file(w.g.log)->size : 0, ksz = w.fs.file(w.g.key)->size, dsz = w.fs.file(w.g.dat)->size;
    Tally t(w);
    auto ec = do_recover(w.g);
    CHECK(! ec, "recover: %s", ecs(ec).c_str());
    std::string const what = fmt("recover with a log of %llu bytes, data file of %llu, key file of %llu", (U)lsz, (U)dsz, (U)ksz);
    c.note("%s", what.c_str());
    uint64_t const recs = lsz < 62 ? 0 : (lsz - 62) / 16;       // at most: index and an empty bucket
    CHECK(t.log.rbytes <= 2 * lsz + 4096 && t.log.n[simfs::READ] <= 6 + lsz / 16384, "%s reads %llu bytes of it in %llu reads", what.c_str(), (U)t.log.rbytes, (U)t.log.n[simfs::READ]);
    CHECK(t.key.n[simfs::WRITE] <= recs && t.key.wbytes <= recs * w.g.block_size, "%s writes the key file %llu times", what.c_str(), (U)t.key.n[simfs::WRITE]);
    uint64_t at = 0;
    CHECK(no_repeat(t.key.wat, at), "%s writes the key file at %llu twice", what.c_str(), (U)at);
    CHECK(t.dat.rbytes + t.key.rbytes <= 4096 && t.dat.wbytes + t.log.wbytes == 0, "%s reads %llu and %llu bytes of data and key file, writes %llu and %llu bytes of data and log file",
        what.c_str(), (U)t.dat.rbytes, (U)t.key.rbytes, (U)t.dat.wbytes, (U)t.log.wbytes);
    CHECK(t.dat.n[simfs::SYNC] + t.key.n[simfs::SYNC] + t.log.n[simfs::SYNC] <= 8, "%s makes %llu device flushes", what.c_str(), (U)(t.dat.n[simfs::SYNC] + t.key.n[simfs::SYNC] + t.log.n[simfs::SYNC]));
    CHECK(t.total() - t.key.n[simfs::WRITE] - t.log.n[simfs::READ] <= 48, "%s makes %llu other system calls", what.c_str(), (U)(t.total() - t.key.n[simfs::WRITE] - t.log.n[simfs::READ]));
}

// A scan of the data file in large sequential reads: each prepare of a record
// that does not fit may read again at most what is left of the buffer
uint64_t scan_reads(uint64_t bytes, uint64_t big) { return 4 + bytes / 32768 + 2 * big; }

void offline(World& w, Case& c)
{
    auto const d = parse(w);
    auto const& g = w.g;
    uint64_t const dsz = w.fs.file(g.dat)->size, ksz = w.fs.file(g.key)->size;
    uint64_t big = 0; for(auto& r : d.recs) if(r.size > 16000) ++big;
    unsigned const kind = (unsigned)c.draw(4);
    if(kind == 0)
    {
        Tally t(w);
        std::vector<std::pair<std::string, std::string>> out;
        auto ec = do_visit(g, out); CHECK(! ec, "visit: %s", ecs(ec).c_str());
        CHECK(t.mutating() == 0 && t.key.total() + t.log.total() == 0, "visit writes, or uses the key or log file");
        CHECK(t.dat.rbytes <= dsz + 1024 && t.dat.n[simfs::READ] <= scan_reads(dsz, big), "visit of a data file of %llu bytes reads %llu in %llu reads", (U)dsz, (U)t.dat.rbytes, (U)t.dat.n[simfs::READ]);
        c.label("visit");
    }
    else if(kind <= 2)
    {
        uint64_t const bs = g.block_size, nb = d.kh.buckets;
        // the buffer decides how many passes over the data file are made, or, when it is small, that each value is looked up
        uint64_t const per = 1 + c.skew(0, nb + 2);
        uint64_t const buffer = kind == 1 ? bs + per * (bs + 16) : c.draw(2 * bs);
        nudb::verify_info info;
        Tally t(w);
        auto ec = do_verify(g, buffer, info); CHECK(! ec, "verify: %s", ecs(ec).c_str());
        std::string const what = fmt("verify with a buffer of %llu (%llu items, %llu buckets of %llu, data file of %llu bytes)", (U)buffer, (U)d.kv.size(), (U)nb, (U)bs, (U)dsz);
        c.note("%s", what.c_str());
        CHECK(t.mutating() == 0 && t.log.total() == 0, "verify writes, or uses the log file");
        uint64_t const walk = d.st.spill_bytes;                     // each chain once
        uint64_t lookups = 0, lookup_bytes = 0, same = 0;           // every value looked up and checked from its entry
        for(auto& ch : d.chains)
        {
            uint64_t depth = 0, bytes = 0;
            std::map<uint64_t, uint64_t> hs;
            for(auto& b : ch)
            {
                for(auto& e : b.e) { same += hs[e.hash]++; }
                lookups += b.e.size() * (1 + 2 * depth); lookup_bytes += b.e.size() * (bs + bytes);
                ++depth; bytes += bs + 8;
            }
        }
        uint64_t const nk = d.kv.size();
        // with large buffers the data is read once per pass, the key file once, and records that share a hash are compared
        uint64_t const passes = (nb + per - 1) / per;
        uint64_t const fast = passes * (dsz + 1024) + ksz + 2048 + walk * 2 + lookup_bytes - nk * bs + 2 * same * (6 + g.key_size);
        uint64_t const slow = dsz + ksz + 4096 + lookup_bytes + nk * (6 + g.key_size) + walk + 2 * same * (6 + g.key_size);
        uint64_t const lim = kind == 1 ? fast : slow;
        uint64_t const got = t.dat.rbytes + t.key.rbytes;
        CHECK(got <= lim || got <= slow, "%s reads %llu bytes, more than %llu or %llu", what.c_str(), (U)got, (U)lim, (U)slow);
        uint64_t const calls = t.dat.n[simfs::READ] + t.key.n[simfs::READ];
        uint64_t const fastc = passes * (scan_reads(dsz, big) + 2) + 8 + 2 * d.st.spill_count + lookups - nk + same;
        uint64_t const slowc = scan_reads(dsz, big) + 8 + nb + lookups + nk + 2 * d.st.spill_count + same;
        CHECK(calls <= (kind == 1 ? fastc : slowc) || calls <= slowc, "%s makes %llu reads, more than %llu or %llu", what.c_str(), (U)calls, (U)fastc, (U)slowc);
        c.label(kind == 1 ? "verify-passes" : "verify-lookups");
    }
    else
    {
        std::string const dat = w.dat();
        uint64_t const bs = c.pick({g.block_size, g.block_size, (uint64_t)4096, (uint64_t)512});
        float const lf = c.pick({0.5f, 0.75f, 0.9f});
        uint64_t const n = d.kv.size();
        uint64_t const nb = std::max<uint64_t>(1, (uint64_t)std::ceil(n / (ref::capacity(bs) * lf)));
        uint64_t const per = 1 + c.skew(0, nb + 2), passes = (nb + per - 1) / per;
        std::string const what = fmt("rekey of %llu items, %llu bytes, %llu buckets of %llu, %llu at a time", (U)n, (U)dsz, (U)nb, (U)bs, (U)per);
        c.note("%s", what.c_str());
        w.fs.erase(g.key);
        Tally t(w);
        auto ec = do_rekey(g, bs, lf, n, per * bs); CHECK(! ec, "rekey: %s", ecs(ec).c_str());
        w.fs.after = nullptr;
        uint64_t const growth = w.fs.file(g.dat)->size - dsz;
        CHECK(t.dat.rbytes <= passes * dsz + 1024 && t.dat.n[simfs::READ] <= passes * scan_reads(dsz, big) + 2, "%s reads %llu bytes in %llu reads (%llu passes)", what.c_str(), (U)t.dat.rbytes, (U)t.dat.n[simfs::READ], (U)passes);
        CHECK(t.dat.wbytes == growth && t.dat.n[simfs::WRITE] <= 4 + growth / 8192, "%s writes %llu bytes in %llu writes to the data file, which grew by %llu", what.c_str(), (U)t.dat.wbytes, (U)t.dat.n[simfs::WRITE], (U)growth);
        CHECK(t.key.wbytes <= (nb + 2) * bs + 1024 && t.key.n[simfs::WRITE] <= passes + 6, "%s writes %llu bytes in %llu writes to the key file", what.c_str(), (U)t.key.wbytes, (U)t.key.n[simfs::WRITE]);
        CHECK(t.key.n[simfs::READ] == 0 && t.log.wbytes <= 62 && t.log.n[simfs::READ] == 0, "%s reads the key or log file, or writes more than a header to it", what.c_str());
        CHECK(t.dat.n[simfs::SYNC] + t.key.n[simfs::SYNC] + t.log.n[simfs::SYNC] <= 10, "%s makes %llu device flushes", what.c_str(), (U)(t.dat.n[simfs::SYNC] + t.key.n[simfs::SYNC] + t.log.n[simfs::SYNC]));
        c.label("rekey");
        if(passes > 1) c.label("passes", passes);
        w.g.block_size = bs; w.g.load_factor = lf;
        ref::KeyHeader kh; CHECK(ref::parse_key(w.key(), kh), "key header"); w.g.salt = kh.salt;
    }
}

} // namespace

PROPERTY(C30)
{
    Geo g = gen_geo(c, BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    unsigned const sessions = 1 + (unsigned)c.draw(3);
    unsigned commits = 0, spilled = 0; bool recovered = false;
    for(unsigned s = 0; s < sessions; ++s)
    {
        opening(w, recovered); recovered = false;
        if(! s) { w.bulk(); if(g.bulk) c.label("bulk"); }
        bool crash = false;
        for(unsigned rounds = 1 + (unsigned)c.draw(5); rounds-- && ! crash;)
        {
            auto d = parse(w);
            spilled += d.st.spill_count_tot != 0;
            uint64_t m = c.skew(0, g.val_class ? 60 : 400);
            if(g.bulk && ! w.buf.empty()) m = std::min<uint64_t>(m, 20);
            uint64_t const probes = c.draw(12);
            for(uint64_t i = 0; i < m; ++i)
            {
                auto x = w.fresh_key(); if(x == ~0ull) break;
                auto k = key_bytes(w.g, x), v = val_bytes(w.g, x, 0, gen_len(c, w.g));
                if(i < probes) probe(w, d, k, true, v); else w.insert_expect(k, v);
                w.keys.push_back(x);
            }
            for(uint64_t i = 0; i < probes && ! w.keys.empty(); ++i)
            {
                auto k = key_bytes(w.g, w.keys[c.draw(w.keys.size())]);
                if(c.chance(1, 4)) k[c.draw(k.size())] ^= 1 << c.draw(8);
                bool const ins = c.chance(1, 3) && w.has(k);
                probe(w, d, k, ins, "x");
            }
            if(! w.buf.empty()) ++commits;
            if(! rounds && c.chance(1, 2)) { commit(w, c, d, true); break; }
            if(! w.buf.empty() && c.chance(1, 8))
            {
                // the log of a commit that is interrupted
                uint64_t left = c.skew(1, 400);
                auto const buf = w.buf;
                w.fs.hook = [&](Op const& o) -> simfs::Act
                {
                    simfs::Act a; if(o.mutating() && left) --left;
                    if(! left && o.kind != simfs::CLOSE && o.kind != simfs::UNLINK) { a.t = simfs::Act::ERR; a.err = EIO; }
                    return a;
                };
                w.flush();
                w.fs.hook = nullptr; crash = ! left;
                if(! crash) continue;
                nudb::error_code ec; w.db->close(ec); w.drop();
                for(auto& e : buf) w.disk.erase(e.first);
                recovering(w, c);
                auto now = parse(w);
                if(now.kv.size() > w.disk.size()) for(auto& e : buf) w.disk.insert(e);
                auto df = kvdiff(now.kv, w.disk); CHECK(df.empty(), "contents after recovery: %s", df.c_str());
                recovered = true; c.label("recovered");
                break;
            }
            commit(w, c, d, false);
            if(c.chance(1, 4)) { auto e = parse(w); commit(w, c, e, false); c.label("idle-flush"); }
        }
        if(! crash && w.db->is_open()) { auto d = parse(w); commit(w, c, d, true); }
        if(c.chance(1, 2)) { w.drop(); offline(w, c); }
    }
    if(spilled) c.label("spills");
    c.nontrivial(commits >= 2 && w.disk.size() > g.capacity());
}
