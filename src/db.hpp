// Shared harness: geometry and key/value generators, a hash function whose
// strength is a parameter, and a World that drives one database on the
// simulated file system next to its reference model.
#pragma once
#include "engine.hpp"
#include "simfs.hpp"
#include "refdb.hpp"
#include <nudb/nudb.hpp>
#include <memory>
#include <set>

namespace h {
using eng::Case; using eng::fmt;

// 0 xxhasher, 1 three bits of entropy, 2 constant, 3 identity, 4 low bits of the
// stored hash all zero, 5 ten bits, 6 seven bits of which the address uses the low ones
unsigned const HASH_MODES = 7;
extern unsigned hash_mode;
extern char const* const hash_name[];
uint64_t ref_hash(unsigned mode, uint64_t salt, void const* p, size_t n);
ref::HashFn hash_fn(unsigned mode);

struct DynHash
{
    using result_type = std::uint64_t;
    uint64_t salt;
    explicit DynHash(uint64_t s) : salt(s) {}
    uint64_t operator()(void const* p, size_t n) const noexcept
    {
        eng::sched_point();
        if(hash_mode == 0) return nudb::xxhasher(salt)(p, n);
        return ref_hash(hash_mode, salt, p, n);
    }
};
using Store = nudb::basic_store<DynHash, nudb::native_file>;

struct Geo
{
    uint64_t key_size = 8, block_size = 4096, appnum = 1, uid = 2, salt = 3;
    float load_factor = 0.5f;
    unsigned hash = 0;
    std::string dat = "/@sim/db.dat", key = "/@sim/db.key", log = "/@sim/db.log";
    unsigned key_pos = 0;       // where the key index sits inside the key
    uint64_t key_seed = 0, val_seed = 0;
    unsigned val_class = 0;
    unsigned bulk = 0;          // items World::bulk inserts
    uint64_t capacity() const { return ref::capacity(block_size); }
    uint64_t key_domain() const { return key_size >= 4 ? 1ull << 32 : 1ull << (8 * key_size); }
    std::string str() const;
};
enum GeoFlags { SMALL_BLOCKS = 1, SMALL_KEYS = 2, GOOD_HASH = 4, SMALL_VALUES = 8,
    BULK = 16 };        // now and then: buckets of thousands of entries, see World::bulk
Geo gen_geo(Case& c, unsigned flags = 0);
std::string key_bytes(Geo const& g, uint64_t i);        // distinct for distinct i < key_domain
std::string val_bytes(Geo const& g, uint64_t i, uint64_t ver, uint64_t len);
uint64_t gen_len(Case& c, Geo const& g);

struct FetchResult { nudb::error_code ec; unsigned calls = 0; std::string val; };
template<class S>
FetchResult fetch(S& s, std::string const& k)
{
    FetchResult r;
    // exact-size heap copy so that any overread of the key is seen
    std::unique_ptr<char[]> kb(new char[k.size()]); memcpy(kb.get(), k.data(), k.size());
    s.fetch(kb.get(), [&](void const* p, size_t n) { ++r.calls; r.val.assign((char const*)p, n); }, r.ec);
    return r;
}
template<class S>
nudb::error_code insert(S& s, std::string const& k, std::string const& v)
{
    nudb::error_code ec;
    std::unique_ptr<char[]> kb(new char[k.size()]); memcpy(kb.get(), k.data(), k.size());
    std::unique_ptr<char[]> vb(new char[v.size()]); memcpy(vb.get(), v.data(), v.size());
    s.insert(kb.get(), vb.get(), v.size(), ec);
    return ec;
}

using KV = std::map<std::string, std::string>;

struct World
{
    Case& c;
    Geo g;
    simfs::FS fs;
    simfs::Use use;
    std::unique_ptr<nudb::context> ctx;
    std::unique_ptr<Store> db;
    KV disk, buf;           // committed, buffered
    std::vector<uint64_t> keys;     // indices inserted so far
    uint64_t next_key = 0;

    World(Case& c_, Geo const& g_);
    ~World();
    void create();
    nudb::error_code try_open();
    void open();
    void close();
    void drop();            // destroy store and context whatever the state
    void flush();           // manual commit
    bool has(std::string const& k) const { return disk.count(k) || buf.count(k); }
    std::string const* get(std::string const& k) const;
    KV all() const { KV m = disk; m.insert(buf.begin(), buf.end()); return m; }
    // generated operations, checked against the model
    void check_params();    // the accessors of the open store
    void bulk();            // g.bulk small items in a few commits, if any; the last ones stay buffered
    uint64_t fresh_key();
    void op_insert_new();
    void op_insert_dup();
    void op_fetch_present();
    void op_fetch_absent();
    void insert_expect(std::string const& k, std::string const& v);
    void fetch_expect(std::string const& k);
    void check_all(unsigned max = ~0u);
    std::string dat() const { return fs.file(g.dat)->str(); }
    std::string key() const { return fs.file(g.key)->str(); }
    void check_files(char const* when, bool want_disk = true);     // reference parser agrees with the model
};

// Contents of a database image, found by opening it with the library and
// fetching every candidate key.
std::string ecs(nudb::error_code const& ec);
nudb::error_code do_create(Geo const& g);
nudb::error_code do_recover(Geo const& g);
nudb::error_code do_verify(Geo const& g, size_t buffer, nudb::verify_info& info);
nudb::error_code do_rekey(Geo const& g, size_t bs, float lf, uint64_t n, size_t buffer);
nudb::error_code do_visit(Geo const& g, std::vector<std::pair<std::string, std::string>>& out);
std::string kvdiff(KV const& got, KV const& want);
inline void use_hash(Geo const& g) { hash_mode = g.hash; }

} // h
