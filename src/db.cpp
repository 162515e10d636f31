#include "db.hpp"

namespace h {

unsigned hash_mode = 0;
char const* const hash_name[] = {"xxhasher", "3bit", "constant", "identity", "highbits", "10bit", "7bit"};

uint64_t ref_hash(unsigned mode, uint64_t salt, void const* p, size_t n)
{
    switch(mode)
    {
    case 2: return 0x123456789abcull << 16;
    case 3: { uint64_t v = 0; memcpy(&v, p, n < 8 ? n : 8); return (v ^ (salt & 0xff)) << 16; }
    }
    uint64_t x = ref::xxh64(p, n, salt);
    switch(mode)
    {
    case 1: return (x & 0xffff) | ((x >> 40) & 7) << 16;
    case 4: return x & 0xffff00000000ffffull;
    case 5: return (x & 0xffff) | ((x >> 40) & 1023) << 16;
    case 6: return ((x >> 40) & 127) << 16;
    default: return x;
    }
}
ref::HashFn hash_fn(unsigned mode) { return [mode](uint64_t s, void const* p, size_t n) { return ref_hash(mode, s, p, n); }; }

std::string Geo::str() const
{
    return fmt("key_size=%llu block_size=%llu(cap %llu) load_factor=%g hash=%s salt=%llx uid=%llx appnum=%llx key_pos=%u val_class=%u",
        (unsigned long long)key_size, (unsigned long long)block_size, (unsigned long long)capacity(), load_factor, hash_name[hash],
        (unsigned long long)salt, (unsigned long long)uid, (unsigned long long)appnum, key_pos, val_class);
}

Geo gen_geo(Case& c, unsigned fl)
{
    Geo g;
    switch(c.weighted({6, 3, 2, 2}))
    {
    case 0: g.key_size = c.pick({8, 4, 16, 20, 32}); break;
    case 1: g.key_size = c.range(1, 8); break;
    case 2: g.key_size = c.skew(1, 300); break;
    default: g.key_size = (fl & SMALL_KEYS) ? c.range(1, 64) : c.skew(1, 5000); break;
    }
    switch(c.weighted({5, 5, 3, 2, 2}))
    {
    case 0: g.block_size = c.range(104, 134); break;
    case 1: g.block_size = c.pick({128, 256, 152, 188, 512}); break;
    case 2: g.block_size = c.skew(104, 1024); break;
    case 3: g.block_size = (fl & SMALL_BLOCKS) ? c.range(104, 300) : c.pick({4096, 1024, 2048, 8192}); break;
    default: g.block_size = (fl & SMALL_BLOCKS) ? c.range(104, 300) : c.pick({65535, 32768, 16384, 65528, 65531, 40000}); break;
    }
    switch(c.weighted({5, 2, 1, 1, 2}))
    {
    case 0: g.load_factor = 0.5f; break;
    case 1: g.load_factor = c.pick({0.9f, 0.75f, 0.25f, 0.999f}); break;
    case 2: g.load_factor = c.pick({0.01f, 0.001f, 2.0f / 65536}); break;
    case 3: g.load_factor = 1.0f / 65536; break;
    default: g.load_factor = c.range(1, 999) / 1000.0f; break;
    }
    g.hash = (fl & GOOD_HASH) ? 0 : c.weighted({8, 2, 1, 2, 1, 2, 1});
    g.appnum = c.pick({0, 1}) ? c.u64() : 1;
    g.uid = c.pick({0, 1}) ? c.u64() : 2;
    g.salt = c.pick({0, 1}) ? c.u64() : 3;
    g.key_pos = (unsigned)c.draw(3);
    g.key_seed = c.draw(1000);
    g.val_seed = c.draw(1000);
    g.val_class = (fl & SMALL_VALUES) ? 0 : c.weighted({10, 4, 2, 1});
    if((fl & BULK) && c.chance(1, 60))
    {
        g.val_class = 0;
        if(g.key_size < 4 || g.key_size > 64) g.key_size = c.pick({4, 8, 32});
        unsigned const kind = c.weighted({4, 4, 2});
        if(kind == 2)
        {
            // a key file larger than the write buffers, rewritten almost completely by the last commit
            g.block_size = c.pick({512, 1024, 4096, 16384, 65535});
            g.load_factor = c.pick({0.99f, 0.9f, 0.999f});
            g.hash = 0;
            g.bulk = (unsigned)c.range(9000, 14000);
        }
        else if(kind == 0)
        {
            // more than 255 entries fit a bucket, and enough items to fill some
            g.block_size = c.weighted({1, 2}) ? 8 + 18 * c.range(256, 700) + c.draw(18) : c.pick({65535, 32768, 16384, 8192, 40000});
            g.load_factor = c.pick({0.99f, 0.9f, 0.999f, 0.5f});
            g.hash = c.pick({0, 5, 6});
            g.bulk = (unsigned)std::min<uint64_t>(6000, c.range(260, 260 + 3 * g.capacity()));
        }
        else
        {
            // thousands of small buckets: commits, logs and key files larger than any buffer
            g.block_size = c.range(104, 160);
            g.load_factor = c.pick({0.5f, 0.1f, 0.75f, 1.0f / 65536});
            g.hash = c.pick({0, 5});
            g.bulk = (unsigned)c.range(1500, 5000);
        }
        c.label("bulk");
    }
    return g;
}

std::string key_bytes(Geo const& g, uint64_t i)
{
    std::string k(g.key_size, 0);
    eng::fill_bytes((uint8_t*)&k[0], k.size(), g.key_seed);
    size_t const w = g.key_size < 4 ? g.key_size : 4;
    size_t at = g.key_pos == 0 ? 0 : g.key_pos == 1 ? g.key_size - w : (g.key_size - w) / 2;
    for(size_t b = 0; b < w; ++b) k[at + b] = (char)(i >> (8 * b));
    return k;
}
std::string val_bytes(Geo const& g, uint64_t i, uint64_t ver, uint64_t len)
{
    std::string v(len, 0);
    eng::fill_bytes((uint8_t*)&v[0], len, eng::mix(g.val_seed + 77 * ver, i));
    return v;
}
uint64_t gen_len(Case& c, Geo const& g)
{
    switch(g.val_class)
    {
    case 0: return c.range(1, 40);
    case 1:
        if(c.chance(1, 8)) return (1ull << c.range(1, 11)) - 1 + c.draw(3);
        return c.skew(1, 2000);
    case 2:
        if(c.chance(1, 4))
        {
            // a value, a key and value, or a whole record around a power of two
            uint64_t const p = 1ull << c.range(4, 17), less = c.pick({0, 1, 2}), d = c.draw(5);
            uint64_t const sub = less == 0 ? 0 : less == 1 ? g.key_size : g.key_size + 6;
            return p + d > sub + 2 ? p + d - sub - 2 : 1;
        }
        return c.skew(1, 70000);
    default:
        switch(c.weighted({6, 2, 2}))
        {
        case 0: return c.range(1, 64);
        // around the 32 * 4096 byte write buffer, with the record header
        case 1: return 131072 - 6 - g.key_size + c.range(0, 16) - 8 > 400000 ? 1 : 131072 - 6 - g.key_size + c.range(0, 16) - 8;
        default: return c.skew(1, 300000);
        }
    }
}

std::string ecs(nudb::error_code const& ec) { return ec ? fmt("%s:%d (%s)", ec.category().name(), ec.value(), ec.message().c_str()) : "ok"; }

nudb::error_code do_create(Geo const& g)
{
    nudb::error_code ec; use_hash(g);
    nudb::create<DynHash, nudb::native_file>(g.dat, g.key, g.log, g.appnum, g.uid, g.salt, g.key_size, g.block_size, g.load_factor, ec);
    return ec;
}
nudb::error_code do_recover(Geo const& g)
{
    nudb::error_code ec; use_hash(g);
    nudb::recover<DynHash, nudb::native_file>(g.dat, g.key, g.log, ec);
    return ec;
}
nudb::error_code do_verify(Geo const& g, size_t buffer, nudb::verify_info& info)
{
    nudb::error_code ec; use_hash(g);
    nudb::verify<DynHash>(info, g.dat, g.key, buffer, [](uint64_t, uint64_t) {}, ec);
    return ec;
}
nudb::error_code do_rekey(Geo const& g, size_t bs, float lf, uint64_t n, size_t buffer)
{
    nudb::error_code ec; use_hash(g);
    nudb::rekey<DynHash, nudb::native_file>(g.dat, g.key, g.log, bs, lf, n, buffer, ec, [](uint64_t, uint64_t) {});
    return ec;
}
nudb::error_code do_visit(Geo const& g, std::vector<std::pair<std::string, std::string>>& out)
{
    nudb::error_code ec;
    nudb::visit(g.dat, [&](void const* k, size_t ks, void const* v, size_t vs, nudb::error_code&)
        { out.emplace_back(std::string((char const*)k, ks), std::string((char const*)v, vs)); },
        [](uint64_t, uint64_t) {}, ec);
    return ec;
}
std::string kvdiff(KV const& got, KV const& want)
{
    for(auto& e : want)
    {
        auto it = got.find(e.first);
        if(it == got.end()) return "key " + eng::hex(e.first.data(), e.first.size()) + " is missing";
        if(it->second != e.second) return "key " + eng::hex(e.first.data(), e.first.size()) + " has a different value";
    }
    for(auto& e : got)
        if(! want.count(e.first)) return "unexpected key " + eng::hex(e.first.data(), e.first.size());
    return "";
}

World::World(Case& c_, Geo const& g_) : c(c_), g(g_), use(fs) { hash_mode = g.hash; }
World::~World() { fs.hook = nullptr; fs.after = nullptr; drop(); }
void World::create()
{
    auto ec = do_create(g);
    CHECK(! ec, "create failed: %s [%s]", ecs(ec).c_str(), g.str().c_str());
}
nudb::error_code World::try_open()
{
    use_hash(g);
    if(! ctx) ctx.reset(new nudb::context);
    if(! db) db.reset(new Store(*ctx));
    nudb::error_code ec;
    db->open(g.dat, g.key, g.log, ec);
    return ec;
}
void World::open()
{
    auto ec = try_open();
    CHECK(! ec, "open failed: %s", ecs(ec).c_str());
}
void World::close()
{
    nudb::error_code ec;
    db->close(ec);
    CHECK(! ec, "close failed: %s", ecs(ec).c_str());
    disk.insert(buf.begin(), buf.end()); buf.clear();
}
void World::drop() { db.reset(); ctx.reset(); }
void World::flush()
{
    ctx->flush();
    disk.insert(buf.begin(), buf.end()); buf.clear();
}
std::string const* World::get(std::string const& k) const
{
    auto i = buf.find(k); if(i != buf.end()) return &i->second;
    i = disk.find(k); if(i != disk.end()) return &i->second;
    return nullptr;
}
void World::insert_expect(std::string const& k, std::string const& v)
{
    bool const dup = has(k);
    auto ec = h::insert(*db, k, v);
    if(dup) CHECK(ec == nudb::error::key_exists, "insert of present key %s gave %s", eng::hex(k.data(), k.size()).c_str(), ecs(ec).c_str());
    else
    {
        CHECK(! ec, "insert of new key %s (%zu bytes) gave %s", eng::hex(k.data(), k.size()).c_str(), v.size(), ecs(ec).c_str());
        buf[k] = v;
    }
}
void World::fetch_expect(std::string const& k)
{
    auto w = get(k);
    auto r = h::fetch(*db, k);
    if(w)
    {
        CHECK(! r.ec, "fetch of present key %s (%s) gave %s", eng::hex(k.data(), k.size()).c_str(), buf.count(k) ? "buffered" : "committed", ecs(r.ec).c_str());
        CHECK(r.calls == 1, "fetch of present key called the callback %u times", r.calls);
        CHECK(r.val == *w, "fetch of key %s returned wrong bytes: %s, expected %s", eng::hex(k.data(), k.size()).c_str(),
            eng::hex(r.val.data(), r.val.size()).c_str(), eng::hex(w->data(), w->size()).c_str());
    }
    else
    {
        CHECK(r.calls == 0, "fetch of absent key %s called the callback", eng::hex(k.data(), k.size()).c_str());
        CHECK(r.ec == nudb::error::key_not_found, "fetch of absent key gave %s", ecs(r.ec).c_str());
    }
}
uint64_t World::fresh_key()
{
    if(next_key >= g.key_domain()) return ~0ull;
    return next_key++;
}
void World::op_insert_new()
{
    auto i = fresh_key();
    if(i == ~0ull) return;
    auto len = gen_len(c, g);
    insert_expect(key_bytes(g, i), val_bytes(g, i, 0, len));
    keys.push_back(i);
    c.note("insert #%llu %llu bytes", (unsigned long long)i, (unsigned long long)len);
}
void World::check_params()
{
    CHECK(db->is_open(), "is_open");
    CHECK(db->appnum() == g.appnum && db->key_size() == g.key_size && db->block_size() == g.block_size, "appnum, key_size or block_size of the open store");
    CHECK(db->dat_path() == g.dat && db->key_path() == g.key && db->log_path() == g.log, "paths of the open store");
}
void World::bulk()
{
    unsigned n = g.bulk; g.bulk = 0;
    if(! n) return;
    unsigned const parts = n > 8000 ? 2 : (unsigned)c.weighted({3, 2, 2}) + 1;
    uint64_t const seed = c.u64();
    c.note("bulk: %u items in %u commits", n, parts);
    unsigned const last = n > 8000 ? 1500 : n / parts;
    for(unsigned p = 0; p < parts; ++p)
    {
        for(unsigned m = p + 1 == parts ? last : parts == 1 ? n : (n - last) / (parts - 1), i = 0; i < m; ++i)
        {
            auto k = fresh_key(); if(k == ~0ull) return;
            insert_expect(key_bytes(g, k), val_bytes(g, k, 0, 1 + eng::mix(seed, k) % 12));
            keys.push_back(k);
        }
        if(p + 1 < parts || (n <= 8000 && c.chance(1, 3))) flush();
    }
}
void World::op_insert_dup()
{
    if(keys.empty()) return;
    auto i = keys[c.draw(keys.size())];
    auto k = key_bytes(g, i);
    bool same = c.chance(1, 3);
    auto v = same ? *get(k) : val_bytes(g, i, 1 + c.draw(5), gen_len(c, g));
    c.note("insert dup #%llu %s", (unsigned long long)i, buf.count(k) ? "(buffered)" : "(committed)");
    c.label(buf.count(k) ? "dup-buffered" : "dup-committed");
    insert_expect(k, v);
    fetch_expect(k);
}
void World::op_fetch_present()
{
    if(keys.empty()) return;
    auto i = keys[c.draw(keys.size())];
    c.note("fetch #%llu", (unsigned long long)i);
    fetch_expect(key_bytes(g, i));
}
void World::op_fetch_absent()
{
    std::string k;
    if(next_key < g.key_domain() && ! c.chance(1, 3)) k = key_bytes(g, std::min<uint64_t>(g.key_domain() - 1, next_key + c.draw(5)));
    else if(! keys.empty())
    {
        // one bit away from a present key, anywhere in the key
        k = key_bytes(g, keys[c.draw(keys.size())]);
        auto b = c.draw(k.size() * 8);
        k[b / 8] ^= 1 << (b % 8);
    }
    else return;
    c.note("fetch other %s", eng::hex(k.data(), k.size()).c_str());
    if(! has(k)) c.label("fetch-absent");
    fetch_expect(k);
}
void World::check_all(unsigned max)
{
    unsigned n = 0;
    for(auto& e : disk) { if(n++ >= max) break; fetch_expect(e.first); }
    n = 0;
    for(auto& e : buf) { if(n++ >= max) break; fetch_expect(e.first); }
}
void World::check_files(char const* when, bool)
{
    ref::Db d;
    auto why = ref::check(dat(), key(), hash_fn(g.hash), d);
    CHECK(why.empty(), "files %s do not conform: %s [%s]", when, why.c_str(), g.str().c_str());
    auto df = kvdiff(d.kv, disk);
    CHECK(df.empty(), "files %s hold wrong contents: %s [%s]", when, df.c_str(), g.str().c_str());
    CHECK(d.kh.block_size == g.block_size && d.kh.key_size == g.key_size && d.dh.appnum == g.appnum && d.dh.uid == g.uid,
        "header fields changed (%s)", when);
}

} // h
