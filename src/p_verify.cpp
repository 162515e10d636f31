// C12 verify accepts and counts, C13 verify detects, C14 visit, C15 rekey, C18 mismatched files
#include "db.hpp"
#include <cmath>
using namespace h;
using simfs::Op; using simfs::Act; using simfs::Blob;

namespace {

void batch(World& w, unsigned n) { while(n--) { if(w.c.chance(1, 12)) w.op_insert_dup(); else w.op_insert_new(); } }

// A database with a history: sessions, commits, a crash with recovery, rekeys
// with other parameters. Closed at the end.
void grow(World& w, unsigned maxn, bool rekeys)
{
    Case& c = w.c;
    unsigned const sessions = (unsigned)c.range(1, 3);
    for(unsigned s = 0; s < sessions; ++s)
    {
        w.open(); w.bulk();
        unsigned const n = (unsigned)c.draw(3) + (s == 0);
        for(unsigned i = 0; i < n; ++i) { batch(w, (unsigned)c.skew(1, maxn)); c.note("commit %zu", w.buf.size()); w.flush(); }
        if(c.chance(1, 4))
        {
            batch(w, (unsigned)c.skew(1, 20));
            KV const after = w.all();
            uint64_t at = c.skew(0, 40), k = 0; bool have = false; simfs::FS snap;
            w.fs.hook = [&](Op const& op) -> Act { if(! have && op.mutating() && k++ == at) { snap = w.fs.clone(); have = true; } return {}; };
            w.flush(); w.fs.hook = nullptr;
            if(! have) snap = w.fs.clone();
            auto img = simfs::crash_image(snap, (unsigned)c.draw(simfs::CRASH_MODES), c);
            w.drop();
            w.fs.dir.clear(); for(auto& f : img.dir) w.fs.dir[f.first] = f.second;
            auto ec = do_recover(w.g); CHECK(! ec, "recover: %s", ecs(ec).c_str());
            ref::Db rd; auto why = ref::check(w.dat(), w.key(), hash_fn(w.g.hash), rd);
            CHECK(why.empty(), "after recovery: %s", why.c_str());
            w.disk = rd.kv; w.keys.clear();
            for(uint64_t i = 0; i < w.next_key; ++i) if(w.disk.count(key_bytes(w.g, i))) w.keys.push_back(i);
            c.note("crash and recovery"); c.label("crash+recovery");
        }
        else w.close();
        if(rekeys && c.chance(1, 5))
        {
            w.fs.erase(w.g.key);
            uint64_t bs = c.chance(1, 2) ? w.g.block_size : c.range(104, 600);
            float lf = c.range(10, 90) / 100.f;
            auto ec = do_rekey(w.g, bs, lf, c.pick({0, 1, 2}) == 0 ? w.disk.size() : c.skew(1, 200), w.disk.size() > 1000 ? 100000 : c.skew(1, 50000));
            CHECK(! ec, "rekey: %s", ecs(ec).c_str());
            w.g.block_size = bs; w.g.load_factor = lf;
            c.note("rekey block_size=%llu", (unsigned long long)bs); c.label("rekey");
        }
    }
    if(w.db && w.db->is_open()) w.close();
    w.drop();
}

size_t gen_buffer(Case& c, Geo const& g, uint64_t buckets)
{
    uint64_t const bs = g.block_size, unit = bs + sizeof(nudb::nkey_t);
    switch(c.weighted({3, 2, 3, 3, 1}))
    {
    case 0: return c.pick({0, 1, 100});
    case 1: return 2 * bs + sizeof(nudb::nkey_t) - 3 + c.draw(6);
    case 2: return bs + unit * (1 + c.draw(buckets + 2)) - 3 + c.draw(6);
    case 3: return c.pick({1000000, 16000000});
    default: return c.skew(1, 100000);
    }
}
bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 * std::max(1.0, std::fabs(b)); }

} // namespace

PROPERTY(C12)
{
    Geo g = gen_geo(c, SMALL_KEYS | BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    if(! c.chance(1, 12)) grow(w, g.val_class ? 50 : 250, true);
    g = w.g;
    std::string const dat = w.dat(), key = w.key();
    ref::Db d; auto why = ref::check(dat, key, hash_fn(g.hash), d);
    CHECK(why.empty(), "files: %s", why.c_str());
    // expected fetch cost, and a bound for each value
    uint64_t fetches = 0;
    for(auto& r : d.recs)
    {
        if(r.spill) continue;
        uint64_t h48 = ref_hash(g.hash, d.kh.salt, r.key.data(), r.key.size()) >> 16;
        bool found = false;
        for(auto& b : d.chains[ref::bucket_of(h48, d.kh.buckets)])
        {
            if(found) break;
            ++fetches;
            for(auto& e : b.e) if(e.hash == h48) { if(e.offset == r.offset) { found = true; break; } ++fetches; }
        }
    }
    size_t const nfiles = w.fs.dir.size();
    unsigned const n = 6; bool alg[2] = {false, false};
    for(unsigned i = 0; i < n; ++i)
    {
        size_t const buffer = i == 0 ? 0 : i == 1 ? 100000000 : gen_buffer(c, g, d.kh.buckets);
        nudb::verify_info v; nudb::error_code ec;
        // stale contents must not leak into the report
        v.hist.fill(7); v.key_count = v.value_count = v.spill_count = 99; v.value_bytes = v.spill_bytes = v.spill_bytes_tot = v.spill_count_tot = 5; v.avg_fetch = 3;
        uint64_t last = 0, total = 0, calls = 0, mut = 0; std::string perr;
        w.fs.after = [&](Op const& op) { if(op.mutating()) ++mut; };
        use_hash(g);
        nudb::verify<DynHash>(v, g.dat, g.key, buffer, [&](uint64_t a, uint64_t t)
        {
            if(! calls++) { total = t; if(a) perr = fmt("starts at %llu", (unsigned long long)a); }
            if(t != total) perr = "total changed";
            if(a < last) perr = fmt("went back from %llu to %llu", (unsigned long long)last, (unsigned long long)a);
            last = a;
        }, ec);
        w.fs.after = nullptr;
        ++c.evals;
        auto const when = fmt("verify, buffer %zu, algorithm %d", buffer, v.algorithm);
        CHECK(! ec, "%s rejected a valid database: %s", when.c_str(), ecs(ec).c_str());
        CHECK(! mut && w.dat() == dat && w.key() == key && w.fs.dir.size() == nfiles, "%s modified a file", when.c_str());
        CHECK(w.fs.open_count() == 0, "%s left files open", when.c_str());
        CHECK(v.algorithm == 0 || v.algorithm == 1, "algorithm %d", v.algorithm);
        if(buffer < 2 * g.block_size + 4) CHECK(v.algorithm == 0, "%s: buffer too small for the buffered algorithm", when.c_str());
        if(i == 1) CHECK(v.algorithm == 1, "%s: unlimited buffer not used", when.c_str());
        alg[v.algorithm] = true;
        CHECK(perr.empty() && calls, "%s: progress %s", when.c_str(), perr.c_str());
        if(v.algorithm == 1 && d.st.value_count) CHECK(last + dat.size() + g.block_size >= total, "%s: progress ended at %llu of %llu, the data file has %zu bytes", when.c_str(), (unsigned long long)last, (unsigned long long)total, dat.size());
        if(v.algorithm == 1) CHECK(last <= total, "%s: progress %llu beyond total %llu", when.c_str(), (unsigned long long)last, (unsigned long long)total);
#define EQ(F, X) CHECK(v.F == (X), "%s: %s is %s, counted %s", when.c_str(), #F, std::to_string(v.F).c_str(), std::to_string(X).c_str())
        CHECK(v.dat_path == g.dat && v.key_path == g.key, "%s: paths", when.c_str());
        EQ(version, d.dh.version); EQ(uid, d.dh.uid); EQ(appnum, d.dh.appnum); EQ(key_size, d.dh.key_size);
        EQ(salt, d.kh.salt); EQ(pepper, d.kh.pepper); EQ(block_size, d.kh.block_size); EQ(capacity, d.kh.capacity); EQ(buckets, d.kh.buckets);
        EQ(bucket_size, ref::bucket_bytes(d.kh.capacity)); EQ(key_file_size, key.size()); EQ(dat_file_size, dat.size());
        EQ(key_count, d.st.key_count); EQ(value_count, d.st.value_count); EQ(value_bytes, d.st.value_bytes);
        EQ(spill_count, d.st.spill_count); EQ(spill_count_tot, d.st.spill_count_tot); EQ(spill_bytes, d.st.spill_bytes); EQ(spill_bytes_tot, d.st.spill_bytes_tot);
        for(unsigned k = 0; k < 10; ++k) CHECK(v.hist[k] == d.st.hist[k], "%s: hist[%u] is %llu, counted %llu", when.c_str(), k, (unsigned long long)v.hist[k], (unsigned long long)d.st.hist[k]);
        CHECK(v.load_factor == d.kh.load_factor / 65536.f, "%s: load_factor %g", when.c_str(), v.load_factor);
#define NEAR(F, X) CHECK(near(v.F, X), "%s: %s is %g, computed %g", when.c_str(), #F, (double)v.F, (double)(X))
        uint64_t const n_ = d.st.value_count;
        NEAR(avg_fetch, n_ ? double(fetches) / n_ : 0.0);
        NEAR(waste, double(d.st.spill_bytes_tot - d.st.spill_bytes) / dat.size());
        NEAR(overhead, n_ ? double(key.size() + dat.size()) / (d.st.value_bytes + n_ * (g.key_size + 6)) - 1 : 0.0);
        NEAR(actual_load, double(d.st.key_count) / (d.kh.capacity * d.kh.buckets));
    }
    CHECK(alg[0] && alg[1], "only one algorithm was used");
    c.label(d.st.max_chain > 9 ? "chain>9" : d.st.max_chain > 1 ? "chain>1" : d.st.max_chain ? "chain1" : "chain0");
    if(d.st.spill_count_tot > d.st.spill_count) c.label("wasted-spills");
    if(dat.size() > 1024 * g.block_size) c.label("data-beyond-read-buffer");
    if(d.kh.buckets > 1) c.label("buckets>1");
    c.nontrivial(d.kh.buckets > 1 && d.st.spill_count_tot > 0);
}

//------------------------------------------------------------------------------
// C13: one inconsistency of a known kind planted in a valid database

namespace {

struct Planter
{
    Case& c; Geo& g; std::string dat, key; ref::Db d; std::string what;
    bool certain = false;       // the image is inconsistent whatever the reference says
    uint64_t cap() const { return d.kh.capacity; }
    // location of bucket j of chain n
    struct Loc { bool in_key; uint64_t off; ref::Bucket* b; };
    std::vector<Loc> locs(bool nonempty)
    {
        std::vector<Loc> v;
        for(uint64_t n = 0; n < d.chains.size(); ++n)
        {
            bool ik = true; uint64_t off = (n + 1) * g.block_size;
            for(auto& b : d.chains[n])
            {
                if(! nonempty || ! b.e.empty()) v.push_back(Loc{ik, off, &b});
                off = b.spill; ik = false;
            }
        }
        return v;
    }
    std::string& f(Loc const& l) { return l.in_key ? key : dat; }
    void put(std::string& s, uint64_t off, uint64_t v, unsigned n) { std::string t; ref::put_be(t, v, n); s.replace(off, n, t); }
    // rewrite a bucket of the key file from b
    void rewrite(Loc const& l)
    {
        std::string t; ref::put_be(t, l.b->e.size(), 2); ref::put_be(t, l.b->spill, 6);
        for(auto& e : l.b->e) { ref::put_be(t, e.offset, 6); ref::put_be(t, e.size, 6); ref::put_be(t, e.hash, 6); }
        if(l.in_key) t.resize(g.block_size, 0);
        f(l).replace(l.off, t.size(), t);
    }
    std::vector<ref::Record const*> values() { std::vector<ref::Record const*> v; for(auto& r : d.recs) if(! r.spill) v.push_back(&r); return v; }
    uint64_t hash(std::string const& k) { return ref_hash(g.hash, d.kh.salt, k.data(), k.size()) >> 16; }
    void append(std::string const& k, std::string const& v) { ref::put_be(dat, v.size(), 6); dat += k; dat += v; }
    static void sorted_insert(ref::Bucket& b, ref::Entry e)
    {
        auto i = b.e.begin(); while(i != b.e.end() && i->hash < e.hash) ++i;
        b.e.insert(i, e);
    }
    Loc key_bucket(uint64_t n) { return Loc{true, (n + 1) * g.block_size, &d.chains[n][0]}; }
    bool plant();
};

bool Planter::plant()
{
    auto vals = values();
    auto nonempty = locs(true);
    switch(c.draw(26))
    {
    case 0: // an entry is gone
    {
        std::vector<Loc> k; for(auto& l : nonempty) if(l.in_key) k.push_back(l);
        if(k.empty()) return false;
        auto& l = c.pick(k); auto i = c.draw(l.b->e.size());
        what = fmt("entry %llu erased from a bucket", (unsigned long long)i);
        l.b->e.erase(l.b->e.begin() + i); rewrite(l); return true;
    }
    case 1: // an entry in another bucket
    {
        std::vector<Loc> k, room; for(auto& l : nonempty) if(l.in_key) k.push_back(l);
        for(auto& l : locs(false)) if(l.in_key && l.b->e.size() < cap()) room.push_back(l);
        if(k.empty() || room.empty()) return false;
        auto l = c.pick(k), t = c.pick(room); if(l.off == t.off) return false;
        auto i = c.draw(l.b->e.size()); auto e = l.b->e[i];
        l.b->e.erase(l.b->e.begin() + i); sorted_insert(*t.b, e); rewrite(l); rewrite(t);
        what = "entry moved to another bucket"; return true;
    }
    case 2: case 3: // offset of an entry
    {
        if(nonempty.empty()) return false;
        auto& l = c.pick(nonempty); auto i = c.draw(l.b->e.size()); auto& e = l.b->e[i];
        uint64_t o;
        switch(c.draw(6))
        {
        case 0: o = vals[c.draw(vals.size())]->offset; break;
        case 1: o = e.offset + 1 + c.draw(8); break;
        case 2: o = e.offset - 1 - c.draw(8); break;
        case 3: o = dat.size() - c.draw(20); break;
        case 4: o = c.draw(dat.size() + 100); break;
        default: o = c.u64() & ((1ull << 48) - 1); break;
        }
        if(o == e.offset) return false;
        what = fmt("entry offset %llu -> %llu", (unsigned long long)e.offset, (unsigned long long)o);
        put(f(l), l.off + 8 + 18 * i, o, 6); return true;
    }
    case 4: case 5: // size of an entry
    {
        if(nonempty.empty()) return false;
        auto& l = c.pick(nonempty); auto i = c.draw(l.b->e.size()); auto& e = l.b->e[i];
        uint64_t o = c.chance(1, 2) ? e.size ^ (1ull << c.draw(48)) : c.chance(1, 2) ? e.size + 1 : e.size - 1;
        what = fmt("entry size %llu -> %llu in %s", (unsigned long long)e.size, (unsigned long long)o, l.in_key ? "key file" : "spill");
        put(f(l), l.off + 8 + 18 * i + 6, o, 6); return true;
    }
    case 6: case 7: // hash of an entry
    {
        if(nonempty.empty()) return false;
        auto& l = c.pick(nonempty); auto i = c.draw(l.b->e.size()); auto& e = l.b->e[i];
        uint64_t o = e.hash ^ (1ull << c.draw(48));
        what = fmt("entry hash %llx -> %llx in %s", (unsigned long long)e.hash, (unsigned long long)o, l.in_key ? "key file" : "spill");
        put(f(l), l.off + 8 + 18 * i + 12, o, 6); return true;
    }
    case 8: // entry listed twice, in its own bucket
    {
        std::vector<Loc> k; for(auto& l : nonempty) if(l.in_key && l.b->e.size() < cap()) k.push_back(l);
        if(k.empty()) return false;
        auto& l = c.pick(k); auto e = c.pick(l.b->e);
        what = "an entry listed twice";
        if(c.chance(1, 3)) { e.hash ^= 1ull << (c.chance(1, 2) ? 47 - c.draw(8) : c.draw(48)); what += ", once with another hash"; }
        sorted_insert(*l.b, e); rewrite(l); return true;
    }
    case 9: // an entry for a look-alike record inside a value
    {
        // a value holding the image of a record is legal; an entry for the image is not
        std::string k2 = key_bytes(g, c.draw(g.key_domain())), v2 = "x";
        if(d.kv.count(k2)) return false;
        auto n2 = ref::bucket_of(hash(k2), d.kh.buckets);
        auto k1 = key_bytes(g, c.draw(g.key_domain()));
        if(d.kv.count(k1) || k1 == k2) return false;
        auto l2 = key_bucket(n2), l1 = key_bucket(ref::bucket_of(hash(k1), d.kh.buckets));
        if(l1.b->e.size() + 2 > cap() || l2.b->e.size() + 2 > cap()) return false;
        std::string img; ref::put_be(img, v2.size(), 6); img += k2 + v2;
        uint64_t at = dat.size();
        append(k1, img);
        sorted_insert(*l1.b, ref::Entry{at, img.size(), hash(k1)}); rewrite(l1);
        sorted_insert(*l2.b, ref::Entry{at + 6 + k1.size(), v2.size(), hash(k2)}); rewrite(l2);
        what = "entry for a record image inside a value"; return true;
    }
    case 10: case 11: // a second value for a key
    {
        if(vals.empty()) return false;
        auto r = c.pick(vals); bool with = c.chance(1, 2), same = c.chance(1, 2);
        auto k = r->key; auto v = same ? r->value : std::string("other value");
        uint64_t at = dat.size();
        append(k, v);
        what = "second value with the same key";
        if(with)
        {
            auto l = key_bucket(ref::bucket_of(hash(k), d.kh.buckets));
            if(l.b->e.size() >= cap()) return false;
            sorted_insert(*l.b, ref::Entry{at, v.size(), hash(k)}); rewrite(l);
            what += ", both in the bucket";
        }
        return true;
    }
    case 12: // a value no bucket knows
    {
        auto k = key_bytes(g, c.draw(g.key_domain()));
        if(d.kv.count(k)) return false;
        append(k, "value"); what = "value without an entry"; return true;
    }
    case 13: case 14: // size field of a value record
    {
        if(vals.empty()) return false;
        auto r = c.pick(vals);
        uint64_t o = c.chance(1, 3) ? 0 : c.chance(1, 2) ? r->size ^ (1ull << c.draw(48)) : r->size - 1 + 2 * c.draw(2);
        what = fmt("record size %llu -> %llu", (unsigned long long)r->size, (unsigned long long)o);
        put(dat, r->offset, o, 6); return true;
    }
    case 15: case 16: // the data file is cut
    {
        if(dat.size() <= ref::DAT_HEADER) return false;
        uint64_t n = c.chance(1, 2) ? 1 + c.draw(std::min<uint64_t>(dat.size() - ref::DAT_HEADER, 40)) : 1 + c.draw(dat.size() - ref::DAT_HEADER);
        dat.resize(dat.size() - n); what = fmt("data file cut by %llu", (unsigned long long)n); return true;
    }
    case 17: // bytes after the last record
    {
        uint64_t n = c.range(1, 12); std::string t(n, 0);
        if(c.chance(1, 2)) eng::fill_bytes((uint8_t*)&t[0], n, c.draw(1000));
        dat += t; what = fmt("%llu stray bytes at the end of the data file", (unsigned long long)n); return true;
    }
    case 18: // key bytes of a value
    {
        if(vals.empty()) return false;
        auto r = c.pick(vals); auto b = c.draw(r->key.size() * 8);
        dat[r->offset + 6 + b / 8] ^= 1 << (b % 8);
        what = "key of a value changed"; return true;
    }
    case 19: // spill record fields
    {
        std::vector<ref::Record const*> s; for(auto& r : d.recs) if(r.spill) s.push_back(&r);
        if(s.empty()) return false;
        auto r = c.pick(s);
        if(c.chance(1, 2)) { put(dat, r->offset + 6, r->size ^ (1ull << c.draw(16)), 2); what = "size of a spill record changed"; }
        else { put(dat, r->offset + 8, ref::be((uint8_t const*)&dat[r->offset + 8], 2) ^ (1ull << c.draw(16)), 2); what = "count of a spill record changed"; }
        return true;
    }
    case 20: case 21: // spill pointer. In a spill only towards the start of the file, so that no cycle can arise
    {
        std::vector<Loc> k; for(auto& l : locs(false)) if(l.b->spill || c.chance(1, 8)) k.push_back(l);
        if(k.empty()) return false;
        auto& l = c.pick(k); uint64_t o;
        std::vector<uint64_t> sp; for(auto& r : d.recs) if(r.spill && (l.in_key || r.offset + 8 < l.off)) sp.push_back(r.offset + 8);
        switch(c.draw(4))
        {
        case 0: o = 0; break;
        case 1: o = dat.size() - c.draw(12); break;
        case 2: if(sp.empty()) return false; o = c.pick(sp); break;
        default: o = c.draw(1ull << 48); break;
        }
        if(o == l.b->spill) return false;
        what = fmt("spill pointer %llu -> %llu", (unsigned long long)l.b->spill, (unsigned long long)o);
        put(f(l), l.off + 2, o, 6); return true;
    }
    case 22: // count of a bucket
    {
        auto k = locs(false); auto& l = c.pick(k);
        uint64_t o = c.chance(1, 2) ? l.b->count ^ (1ull << c.draw(16)) : c.chance(1, 2) ? l.b->count + 1 : l.b->count - 1;
        what = fmt("bucket count %llu -> %llu", (unsigned long long)l.b->count, (unsigned long long)(o & 0xffff));
        put(f(l), l.off, o, 2); return true;
    }
    case 23: case 24: // headers
    {
        bool k = c.chance(1, 2); auto& s = k ? key : dat;
        unsigned const n = k ? 8 : 5;
        switch(c.draw(n))
        {
        case 0: s[c.draw(8)] ^= 1 << c.draw(8); what = "type"; break;
        case 1: put(s, 8, ref::be((uint8_t const*)&s[8], 2) ^ (1ull << c.draw(16)), 2); what = "version"; break;
        case 2: s[10 + c.draw(8)] ^= 1 << c.draw(8); what = "uid"; break;
        case 3: s[18 + c.draw(8)] ^= 1 << c.draw(8); what = "appnum"; break;
        case 4: put(s, 26, c.chance(1, 2) ? 0 : ref::be((uint8_t const*)&s[26], 2) ^ (1ull << c.draw(16)), 2); what = "key size"; break;
        case 5: s[28 + c.draw(8)] ^= 1 << c.draw(8); what = "salt"; break;
        case 6: s[36 + c.draw(8)] ^= 1 << c.draw(8); what = "pepper"; break;
        default: put(s, 46, 0, 2); what = "load factor 0"; certain = true; break;
        }
        what += fmt(" of the %s header changed", k ? "key" : "data");
        // the reference also rejects what verify does not promise to
        return true;
    }
    default: // files too short for anything
    {
        bool k = c.chance(1, 2);
        if(k) { key.resize(c.chance(1, 2) ? c.draw(105) : g.block_size + c.draw(g.block_size)); what = fmt("key file of %zu bytes", key.size()); certain = true; }
        else { dat.resize(c.draw(93) % 92); what = fmt("data file of %zu bytes", dat.size()); certain = true; }
        return true;
    }
    }
}

} // namespace

PROPERTY(C13)
{
    Geo g = gen_geo(c, SMALL_KEYS | SMALL_BLOCKS | BULK);
    if(g.val_class > 1) g.val_class = 1;
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    grow(w, 60, true);
    g = w.g;
    unsigned const n = w.disk.size() > 1000 ? 3 : 10;
    for(unsigned i = 0; i < n; ++i)
    {
        Planter p{c, g, w.dat(), w.key(), {}, ""};
        auto why = ref::check(p.dat, p.key, hash_fn(g.hash), p.d);
        CHECK(why.empty(), "files: %s", why.c_str());
        if(! p.plant()) continue;
        ref::Db d2;
        auto bad = ref::check(p.dat, p.key, hash_fn(g.hash), d2);
        if(bad.empty() && ! p.certain) { c.label("no-effect"); continue; }
        // a whole trailing bucket can vanish unnoticed only if it does not matter
        if(bad.find("not a multiple") != std::string::npos && ! p.certain) continue;
        World v(c, g);
        v.fs.put(g.dat, p.dat); v.fs.put(g.key, p.key);
        auto pos = p.what.find("hash ") != std::string::npos ? p.what.find("hash ") + 4 : p.what.find_first_of("0123456789");
        c.label("kind: " + (pos == 0 ? "stray bytes" : p.what.substr(0, pos)));
        c.note("%s (%s)", p.what.c_str(), bad.c_str());
        for(unsigned k = 0; k < 4; ++k)
        {
            size_t const buffer = k == 0 ? 0 : k == 1 ? 100000000 : gen_buffer(c, g, p.d.kh.buckets);
            nudb::verify_info info;
            auto ec = do_verify(g, buffer, info);
            ++c.evals;
            CHECK(ec, "verify with buffer %zu accepted an inconsistent database: %s; reference: %s", buffer, p.what.c_str(), bad.c_str());
            CHECK(v.fs.open_count() == 0, "verify left files open");
            CHECK(v.dat() == p.dat && v.key() == p.key, "verify modified a file");
            c.label(fmt("ec %s", ec.message().c_str()));
        }
        c.nontrivial(p.d.st.value_count > 1);
    }
}

//------------------------------------------------------------------------------
// C14: visit

namespace {

// A data file written by the reference, with spill records of any block size in between
std::string synth_dat(Case& c, Geo const& g, std::vector<std::pair<std::string, std::string>>& kv, bool big, std::vector<uint64_t>& ends)
{
    std::string s = ref::make_dat({"nudb.dat", 2, g.uid, g.appnum, g.key_size, true});
    unsigned const n = big ? (unsigned)c.range(2, 9) : (unsigned)c.skew(0, 40);
    uint64_t const chunk = 4096 * 1024;         // visit reads this much at once
    for(unsigned i = 0; i < n; ++i)
    {
        if(c.chance(1, 4))
        {
            uint64_t cnt = c.skew(1, c.chance(1, 6) ? 3640 : 20);
            std::string b; ref::put_be(b, cnt, 2); ref::put_be(b, c.draw(1ull << 48), 6);
            b.resize(8 + 18 * cnt, (char)c.draw(256));
            ref::put_be(s, 0, 6); ref::put_be(s, b.size(), 2); s += b;
        }
        else
        {
            uint64_t len = gen_len(c, g);
            if(big)
                switch(c.draw(4))
                {
                case 0: len = c.skew(1, 3000000); break;
                case 1:         // ends around a read boundary
                {
                    uint64_t at = s.size() - ref::DAT_HEADER + 6 + g.key_size, to = (at / chunk + 1) * chunk;
                    len = to - at + c.draw(30); len = len > 15 ? len - 15 : 1; break;
                }
                case 2: len = chunk - 20 + c.draw(40); break;
                default: len = chunk + c.draw(2000000); break;
                }
            if(i >= g.key_domain()) continue;
            auto k = key_bytes(g, i), v = val_bytes(g, i, 0, len);
            ref::put_be(s, len, 6); s += k; s += v;
            kv.emplace_back(k, v);
        }
        ends.push_back(s.size());
        if(s.size() > 24000000) break;
    }
    return s;
}

} // namespace

PROPERTY(C14)
{
    Geo g = gen_geo(c, SMALL_KEYS | BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    std::vector<std::pair<std::string, std::string>> want;
    std::vector<uint64_t> ends;
    std::string dat;
    bool const big = c.chance(1, 30);
    bool const lib = ! big && c.chance(1, 2);
    if(lib)
    {
        w.create();
        if(! c.chance(1, 12)) grow(w, g.val_class ? 40 : 150, true);
        g = w.g;
        dat = w.dat();
        std::vector<ref::Record> recs; auto why = ref::parse_records(dat, g.key_size, recs);
        CHECK(why.empty(), "%s", why.c_str());
        for(auto& r : recs) { if(! r.spill) want.emplace_back(r.key, r.value); ends.push_back(r.offset + (r.spill ? 8 : 6 + g.key_size) + r.size); }
        KV m(want.begin(), want.end()); auto df = kvdiff(m, w.disk); CHECK(df.empty(), "%s", df.c_str());
        w.fs.erase(g.key); w.fs.erase(g.log);       // only the data file is needed
        c.label("library-made");
    }
    else { dat = synth_dat(c, g, want, big, ends); w.fs.put(g.dat, dat); c.label(big ? "large" : "synthetic"); }
    c.note("%zu bytes, %zu values, %zu records", dat.size(), want.size(), ends.size());

    // one visit; the callback fails at item `stop`
    auto run = [&](std::string const& file, size_t stop, bool cut, char const* when)
    {
        size_t n = 0; uint64_t last = 0, total = ~0ull; unsigned pcalls = 0; std::string bad;
        nudb::error_code ec; uint64_t mut = 0;
        w.fs.after = [&](Op const& op) { if(op.mutating()) ++mut; };
        // an error code of the caller's own; its contents before the call do not matter
        auto const mine = nudb::error_code(c.pick({ENOSPC, EIO, 4711}), boost::system::generic_category());
        nudb::visit(g.dat, [&](void const* k, size_t ks, void const* v, size_t vs, nudb::error_code& e)
        {
            if(n > stop) bad = "called after it had stopped the visit";
            else if(n >= want.size()) bad = "called for a value that does not exist";
            else if(ks != g.key_size) bad = fmt("key size %zu", ks);
            else if(vs != want[n].second.size()) bad = fmt("value %zu has %zu bytes, expected %zu", n, vs, want[n].second.size());
            else if(memcmp(k, want[n].first.data(), ks)) bad = fmt("value %zu has a wrong key", n);
            else if(memcmp(v, want[n].second.data(), vs)) bad = fmt("value %zu has wrong bytes", n);
            if(n++ == stop) e = mine;
        }, [&](uint64_t a, uint64_t t)
        {
            if(! pcalls++) { total = t; if(a) bad = "progress does not start at 0"; }
            if(t != total) bad = "progress total changed";
            if(a < last) bad = fmt("progress went back from %llu to %llu", (unsigned long long)last, (unsigned long long)a);
            if(a > t) bad = "progress beyond the total";
            last = a;
        }, ec);
        w.fs.after = nullptr;
        ++c.evals;
        CHECK(bad.empty(), "%s: %s", when, bad.c_str());
        CHECK(! mut && w.dat() == file, "%s: visit modified the file", when);
        CHECK(w.fs.open_count() == 0, "%s: visit left the file open", when);
        if(stop < want.size() && n > stop)
        {
            CHECK(ec == mine, "%s: the callback's error was not returned but %s", when, ecs(ec).c_str());
            CHECK(n == stop + 1, "%s: %zu calls", when, n);
        }
        else if(cut) CHECK(ec, "%s: no error (%zu of %zu values seen)", when, n, want.size());
        else
        {
            CHECK(! ec, "%s: visit gave %s", when, ecs(ec).c_str());
            CHECK(n == want.size(), "%s: %zu of %zu values seen", when, n, want.size());
            CHECK(total == file.size(), "%s: progress total %llu, file size %zu", when, (unsigned long long)total, file.size());
            if(! ends.empty()) CHECK(last == total, "%s: progress ended at %llu of %llu", when, (unsigned long long)last, (unsigned long long)total);
        }
        return n;
    };
    run(dat, ~size_t(0), false, "complete file");
    for(unsigned i = 0; i < (big ? 1 : 4) && ! want.empty(); ++i)
    {
        size_t s = c.draw(want.size());
        run(dat, s, false, fmt("callback stops at %zu", s).c_str());
    }
    // truncations
    uint64_t const steps = big ? 2 : eng::thorough ? 60 : 20;
    for(uint64_t i = 0; i < steps; ++i)
    {
        uint64_t n = i % 2 || ends.empty() ? c.draw(dat.size()) : [&] { auto e = ends[c.draw(ends.size())]; auto d = c.draw(24); return e > d ? e - d : 0; }();
        bool const whole = n == ref::DAT_HEADER || std::find(ends.begin(), ends.end(), n) != ends.end();
        auto t = dat.substr(0, n);
        auto keep = want;
        w.fs.put(g.dat, t);
        if(whole)
        {
            uint64_t off = ref::DAT_HEADER; (void)off;
            std::vector<ref::Record> recs; ref::parse_records(t, g.key_size, recs, false);
            size_t k = 0; for(auto& r : recs) k += ! r.spill;
            want.resize(k); auto ke = ends; while(! ends.empty() && ends.back() > n) ends.pop_back();
            run(t, ~size_t(0), false, fmt("cut between records at %llu", (unsigned long long)n).c_str());
            ends = ke; want = keep;
        }
        else
        {
            // values before the cut may be seen, none after it
            std::vector<ref::Record> recs; size_t k = 0;
            if(n >= ref::DAT_HEADER) { ref::parse_records(t, g.key_size, recs, false); for(auto& r : recs) k += ! r.spill; }
            want.resize(k);
            run(t, ~size_t(0), true, fmt("cut inside a record at %llu", (unsigned long long)n).c_str());
            want = keep; c.label("cut-in-record");
        }
    }
    // a size field made larger than the rest of the file
    if(! want.empty() && ! big)
    {
        std::vector<ref::Record> recs; ref::parse_records(dat, g.key_size, recs, false);
        std::vector<size_t> vi; for(size_t i = 0; i < recs.size(); ++i) if(! recs[i].spill) vi.push_back(i);
        size_t j = c.draw(vi.size());
        auto t = dat; std::string f; uint64_t room = dat.size() - recs[vi[j]].offset - 6 - g.key_size;
        uint64_t o = room + 1 + (c.chance(1, 2) ? c.draw(10) : c.draw(1ull << c.range(1, 47)));
        if(c.chance(1, 3)) o = recs[vi[j]].size | 1ull << c.range(32, 47);     // right if only 32 bits are read
        ref::put_be(f, o & ((1ull << 48) - 1), 6); t.replace(recs[vi[j]].offset, 6, f);
        auto keep = want; want.resize(j);
        w.fs.put(g.dat, t);
        run(t, ~size_t(0), true, fmt("size field %llu of value %zu", (unsigned long long)o, j).c_str());
        want = keep;
    }
    // re-inserting everything gives the same contents
    if(! big && c.chance(1, 3))
    {
        w.drop(); w.fs.dir.clear();
        w.fs.put(g.dat, dat);
        Geo g2 = g; g2.dat = "/@sim/copy.dat"; g2.key = "/@sim/copy.key"; g2.log = "/@sim/copy.log";
        g2.block_size = c.range(104, 400);
        auto ec = do_create(g2); CHECK(! ec, "create: %s", ecs(ec).c_str());
        nudb::context ctx; Store s(ctx);
        s.open(g2.dat, g2.key, g2.log, ec); CHECK(! ec, "open: %s", ecs(ec).c_str());
        nudb::visit(g.dat, [&](void const* k, size_t, void const* v, size_t vs, nudb::error_code& e) { s.insert(k, v, vs, e); }, [](uint64_t, uint64_t) {}, ec);
        CHECK(! ec, "re-inserting gave %s", ecs(ec).c_str());
        s.close(ec); CHECK(! ec, "close: %s", ecs(ec).c_str());
        ref::Db d; auto why = ref::check(w.fs.file(g2.dat)->str(), w.fs.file(g2.key)->str(), hash_fn(g.hash), d);
        CHECK(why.empty(), "copy: %s", why.c_str());
        auto df = kvdiff(d.kv, KV(want.begin(), want.end())); CHECK(df.empty(), "copy: %s", df.c_str());
        c.label("re-inserted");
    }
    c.nontrivial(want.size() > 1 && ends.size() > want.size());
}

//------------------------------------------------------------------------------
// C15: rekey

PROPERTY(C15)
{
    Geo g = gen_geo(c, SMALL_KEYS | BULK);
    c.note("%s", g.str().c_str());
    World w(c, g);
    std::string dat; bool const lib = c.chance(1, 2);
    if(lib)
    {
        w.create();
        if(! c.chance(1, 12)) grow(w, g.val_class ? 40 : 150, true);
        g = w.g; dat = w.dat();
        c.label("library-made");
    }
    else
    {
        std::vector<std::pair<std::string, std::string>> kv; std::vector<uint64_t> ends;
        dat = synth_dat(c, g, kv, false, ends);
        w.disk = KV(kv.begin(), kv.end()); w.keys.clear();
        w.next_key = std::min<uint64_t>(g.key_domain(), ends.size() + 1);
        w.fs.put(g.dat, dat);
        for(uint64_t i = 0; i < w.next_key; ++i) if(w.disk.count(key_bytes(g, i))) w.keys.push_back(i);
        c.label("synthetic");
    }
    w.fs.erase(g.log);
    if(! lib || c.chance(5, 6)) w.fs.erase(g.key);
    uint64_t const n = w.disk.size();
    unsigned const rounds = (unsigned)c.range(1, 3);
    for(unsigned r = 0; r < rounds; ++r)
    {
        Geo g2 = g;
        switch(c.draw(5)) { case 0: case 1: g2.block_size = c.range(104, 134); break; case 2: g2.block_size = c.skew(104, 2000); break; case 3: g2.block_size = c.pick({4096, 512, 65535, 32768}); break; default: break; }
        g2.load_factor = c.chance(1, 8) ? c.pick({0.999f, 0.9999f, 0.05f}) : c.range(1, 99) / 100.f;
        uint64_t items;
        switch(c.draw(5)) { case 0: items = n; break; case 1: items = 0; break; case 2: items = 1 + n / (2 + c.draw(30)); break; case 3: items = n * (1 + c.draw(8)) + c.draw(50); break; default: items = c.skew(1, 400); break; }
        double const per = (double)g2.capacity() * g2.load_factor;
        while(items / per * g2.block_size > 4e6) items /= 2;
        uint64_t const nb = std::max<uint64_t>(1, (uint64_t)std::ceil(items / per));
        size_t buffer;
        switch(c.draw(4)) { case 0: buffer = c.pick({0, 1}); break; case 1: buffer = g2.block_size * (1 + c.draw(nb + 1)) - 1 + c.draw(3); break; case 2: buffer = 10000000; break; default: buffer = c.skew(1, 20000); break; }
        if(dat.size() * (nb / std::max<uint64_t>(1, buffer / g2.block_size) + 1) > 60000000) buffer = 10000000;
        c.note("rekey of %llu: block_size=%llu load_factor=%g items=%llu buffer=%zu", (unsigned long long)n, (unsigned long long)g2.block_size, g2.load_factor, (unsigned long long)items, buffer);
        bool const have = w.fs.exists(g.key), log = c.chance(1, 12);
        if(log) w.fs.put(g.log, c.chance(1, 2) ? "" : "something");
        // parameters create refuses
        bool const inval = ! have && ! log && c.chance(1, 12);
        if(inval)
        {
            if(c.chance(1, 2)) { g2.block_size = c.pick({0, 1, 103, 65536, 65536 + 104, 70000, 1 << 20}); buffer = 100000; }
            else g2.load_factor = c.pick({0.f, -0.5f, 1.f, 1.5f, 1e-6f, NAN, INFINITY, -1e30f});
            items = c.pick({0, 1, 5, 100});
            c.note("invalid: block_size=%llu load_factor=%g", (unsigned long long)g2.block_size, g2.load_factor); c.label("invalid-parameters");
        }
        auto const before = w.fs.clone();
        nudb::error_code ec; uint64_t last = 0, total = 0; unsigned calls = 0; std::string bad;
        use_hash(g2);
        // every byte that is appended must be new
        w.fs.after = [&](Op const& op) { if(*op.path == g.dat && (op.kind == simfs::WRITE || op.kind == simfs::TRUNC) && op.off < dat.size()) bad = "wrote into the data file below its end"; };
        nudb::rekey<DynHash, nudb::native_file>(g.dat, g.key, g.log, g2.block_size, g2.load_factor, items, buffer, ec, [&](uint64_t a, uint64_t t)
        {
            if(! calls++) { total = t; if(a) bad = "progress does not start at 0"; }
            if(t != total) bad = "progress total changed";
            if(a < last) bad = "progress went back";
            if(a > t) bad = "progress beyond the total";
            last = a;
        });
        w.fs.after = nullptr;
        ++c.evals;
        CHECK(w.fs.open_count() == 0, "rekey left files open");
        if(have || log || inval)
        {
            CHECK(ec, "rekey %s succeeded", inval ? "with invalid parameters" : log ? "over an existing log file" : "over an existing key file");
            if(log) CHECK(ec == nudb::error::log_file_exists, "rekey with a log file gave %s", ecs(ec).c_str());
            for(auto& f : before.dir) CHECK(w.fs.exists(f.first) && *w.fs.file(f.first) == f.second->cur, "failed rekey changed %s", f.first.c_str());
            CHECK(w.fs.dir.size() == before.dir.size(), "failed rekey left another file");
            w.fs.erase(g.log); w.fs.erase(g.key); use_hash(g);
            c.label("refused");
            continue;
        }
        CHECK(! ec, "rekey: %s", ecs(ec).c_str());
        CHECK(bad.empty(), "rekey: %s", bad.c_str());
        CHECK(calls && (! n || last + dat.size() >= total), "rekey ended with progress %llu of %llu, the data file has %zu bytes", (unsigned long long)last, (unsigned long long)total, dat.size());
        CHECK(! w.fs.exists(g.log), "rekey left a log file");
        auto const now = w.dat();
        CHECK(now.size() >= dat.size() && ! memcmp(now.data(), dat.data(), dat.size()), "rekey changed the data file");
        w.g = g2;
        w.check_files("after rekey");
        ref::Db d; ref::check(now, w.key(), hash_fn(g.hash), d);
        // the load factor may be taken as given or as stored (1/65536 steps)
        double const x1 = items / per, x2 = d.kh.load_factor ? items / (g2.capacity() * (d.kh.load_factor / 65536.0)) : x1;
        uint64_t const lo = std::max<uint64_t>(1, (uint64_t)std::ceil(std::min(x1, x2) * (1 - 1e-5))), hi = std::max<uint64_t>(1, (uint64_t)std::ceil(std::max(x1, x2) * (1 + 1e-5)));
        CHECK(d.kh.buckets >= lo && d.kh.buckets <= hi, "rekey for %llu items made %llu buckets, expected %llu", (unsigned long long)items, (unsigned long long)d.kh.buckets, (unsigned long long)nb);
        CHECK(std::fabs(d.kh.load_factor / 65536.0 - g2.load_factor) <= 1.1 / 65536, "load factor in the key file is %g", d.kh.load_factor / 65536.0);
        nudb::verify_info info;
        ec = do_verify(g2, gen_buffer(c, g2, nb), info); CHECK(! ec, "verify after rekey: %s", ecs(ec).c_str());
        // durable at once
        {
            auto img = simfs::crash_image(w.fs, 1, c);
            for(auto& f : w.fs.dir) CHECK(img.exists(f.first) && *img.file(f.first) == f.second->cur, "rekey succeeded but %s is not durable", f.first.c_str());
        }
        w.open();
        CHECK(w.db->appnum() == g.appnum && w.db->block_size() == g2.block_size && w.db->key_size() == g.key_size, "parameters changed");
        w.check_all(200);
        w.op_fetch_absent();
        unsigned m = (unsigned)c.skew(0, 40);
        w.op_insert_dup();
        while(m--) w.op_insert_new();
        w.check_all(30);
        w.close();
        w.check_files("after inserting into the rekeyed database");
        w.drop();
        dat = w.dat(); g = g2;
        w.fs.erase(g.key);
        if(d.st.max_chain) c.label("spills");
        c.label(nb > 1 ? "buckets>1" : "one-bucket");
        if(buffer / g2.block_size && buffer / g2.block_size < nb) c.label("several-passes");
        c.nontrivial(n > 1 && nb > 1);
    }
}
