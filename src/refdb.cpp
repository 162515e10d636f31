#include "refdb.hpp"
#include <algorithm>
#include <set>

namespace ref {
using eng::fmt;

static uint64_t rotl(uint64_t x, int r) { return (x << r) | (x >> (64 - r)); }
uint64_t xxh64(void const* ptr, size_t len, uint64_t seed)
{
    uint64_t const P1 = 11400714785074694791ull, P2 = 14029467366897019727ull, P3 = 1609587929392839161ull,
        P4 = 9650029242287828579ull, P5 = 2870177450012600261ull;
    auto p = (uint8_t const*)ptr; size_t n = len;
    auto r8 = [](uint8_t const* q) { uint64_t v = 0; for(int i = 7; i >= 0; --i) v = v << 8 | q[i]; return v; };
    auto r4 = [](uint8_t const* q) { uint64_t v = 0; for(int i = 3; i >= 0; --i) v = v << 8 | q[i]; return v; };
    auto round = [&](uint64_t acc, uint64_t in) { return rotl(acc + in * P2, 31) * P1; };
    uint64_t h;
    if(len >= 32)
    {
        uint64_t v1 = seed + P1 + P2, v2 = seed + P2, v3 = seed, v4 = seed - P1;
        while(n >= 32) { v1 = round(v1, r8(p)); v2 = round(v2, r8(p + 8)); v3 = round(v3, r8(p + 16)); v4 = round(v4, r8(p + 24)); p += 32; n -= 32; }
        h = rotl(v1, 1) + rotl(v2, 7) + rotl(v3, 12) + rotl(v4, 18);
        for(uint64_t v : {v1, v2, v3, v4}) h = (h ^ round(0, v)) * P1 + P4;
    }
    else h = seed + P5;
    h += len;
    while(n >= 8) { h = rotl(h ^ round(0, r8(p)), 27) * P1 + P4; p += 8; n -= 8; }
    if(n >= 4) { h = rotl(h ^ (r4(p) * P1), 23) * P2 + P3; p += 4; n -= 4; }
    while(n) { h = rotl(h ^ (*p * P5), 11) * P1; ++p; --n; }
    h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32;
    return h;
}

uint64_t be(uint8_t const* p, unsigned n) { uint64_t v = 0; while(n--) v = v << 8 | *p++; return v; }
void put_be(std::string& s, uint64_t v, unsigned n) { while(n--) s += (char)(v >> (8 * n)); }

struct Rd { uint8_t const* p; uint64_t u(unsigned n) { auto v = be(p, n); p += n; return v; } std::string s(size_t n) { std::string r((char const*)p, n); p += n; return r; } };
static bool allzero(uint8_t const* p, size_t n) { for(size_t i = 0; i < n; ++i) if(p[i]) return false; return true; }

bool parse_dat(std::string const& f, DatHeader& h)
{
    if(f.size() < DAT_HEADER) return false;
    Rd r{(uint8_t const*)f.data()};
    h.type = r.s(8); h.version = r.u(2); h.uid = r.u(8); h.appnum = r.u(8); h.key_size = r.u(2); h.zero = allzero(r.p, 64);
    return true;
}
bool parse_key(std::string const& f, KeyHeader& h)
{
    if(f.size() < KEY_HEADER) return false;
    Rd r{(uint8_t const*)f.data()};
    h.type = r.s(8); h.version = r.u(2); h.uid = r.u(8); h.appnum = r.u(8); h.key_size = r.u(2);
    h.salt = r.u(8); h.pepper = r.u(8); h.block_size = r.u(2); h.load_factor = r.u(2);
    h.zero = allzero(r.p, std::min<size_t>(f.size() - 48, h.block_size > 48 ? h.block_size - 48 : 0));
    h.capacity = capacity(h.block_size);
    h.buckets = h.block_size && f.size() > h.block_size ? f.size() / h.block_size - 1 : 0;
    return true;
}
bool parse_log(std::string const& f, LogHeader& h)
{
    if(f.size() < LOG_HEADER) return false;
    Rd r{(uint8_t const*)f.data()};
    h.type = r.s(8); h.version = r.u(2); h.uid = r.u(8); h.appnum = r.u(8); h.key_size = r.u(2);
    h.salt = r.u(8); h.pepper = r.u(8); h.block_size = r.u(2); h.key_file_size = r.u(8); h.dat_file_size = r.u(8);
    return true;
}
std::string make_dat(DatHeader const& h)
{
    std::string s = h.type; put_be(s, h.version, 2); put_be(s, h.uid, 8); put_be(s, h.appnum, 8); put_be(s, h.key_size, 2);
    s.resize(DAT_HEADER, 0); return s;
}
std::string make_key(KeyHeader const& h)
{
    std::string s = h.type; put_be(s, h.version, 2); put_be(s, h.uid, 8); put_be(s, h.appnum, 8); put_be(s, h.key_size, 2);
    put_be(s, h.salt, 8); put_be(s, h.pepper, 8); put_be(s, h.block_size, 2); put_be(s, h.load_factor, 2);
    s.resize(std::max<size_t>(KEY_HEADER, h.block_size), 0); return s;
}
std::string make_log(LogHeader const& h)
{
    std::string s = h.type; put_be(s, h.version, 2); put_be(s, h.uid, 8); put_be(s, h.appnum, 8); put_be(s, h.key_size, 2);
    put_be(s, h.salt, 8); put_be(s, h.pepper, 8); put_be(s, h.block_size, 2); put_be(s, h.key_file_size, 8); put_be(s, h.dat_file_size, 8);
    return s;
}

uint64_t ceil_pow2(uint64_t n) { uint64_t p = 1; while(p < n) p *= 2; return p; }
uint64_t bucket_of(uint64_t h, uint64_t buckets)
{
    uint64_t m = ceil_pow2(buckets), n = h % m;
    return n >= buckets ? n - m / 2 : n;
}

std::string parse_records(std::string const& d, uint64_t ks, std::vector<Record>& out, bool values)
{
    uint64_t off = DAT_HEADER;
    auto p = (uint8_t const*)d.data();
    while(off < d.size())
    {
        if(d.size() - off < 6) return fmt("short data record at %llu", (unsigned long long)off);
        Record r; r.offset = off;
        uint64_t n = be(p + off, 6);
        if(n)
        {
            if(d.size() - off < 6 + ks + n) return fmt("short value at %llu", (unsigned long long)off);
            r.spill = false; r.size = n;
            r.key.assign(d, off + 6, ks);
            if(values) r.value.assign(d, off + 6 + ks, n);
            off += 6 + ks + n;
        }
        else
        {
            if(d.size() - off < 8) return fmt("short spill at %llu", (unsigned long long)off);
            r.spill = true; r.size = be(p + off + 6, 2);
            if(d.size() - off < 8 + r.size) return fmt("short spill at %llu", (unsigned long long)off);
            off += 8 + r.size;
        }
        out.push_back(std::move(r));
    }
    return "";
}

// Reads a bucket; in the key file it must be padded with zeros.
static std::string read_bucket(std::string const& f, uint64_t off, uint64_t bs, bool in_key, Bucket& b)
{
    auto const cap = capacity(bs);
    uint64_t const need = in_key ? bs : 8;
    if(off + need > f.size()) return fmt("bucket at %llu beyond end of file", (unsigned long long)off);
    auto p = (uint8_t const*)f.data() + off;
    b.count = be(p, 2); b.spill = be(p + 2, 6);
    if(b.count > cap) return fmt("bucket at %llu has %llu entries, capacity %llu", (unsigned long long)off, (unsigned long long)b.count, (unsigned long long)cap);
    if(off + bucket_bytes(b.count) > f.size()) return "bucket entries beyond end of file";
    for(uint64_t i = 0; i < b.count; ++i)
    {
        auto q = p + 8 + 18 * i;
        b.e.push_back(Entry{be(q, 6), be(q + 6, 6), be(q + 12, 6)});
    }
    for(uint64_t i = 1; i < b.count; ++i)
        if(b.e[i - 1].hash > b.e[i].hash) return fmt("bucket at %llu not sorted by hash", (unsigned long long)off);
    if(in_key && ! allzero(p + bucket_bytes(b.count), bs - bucket_bytes(b.count)))
        return fmt("bucket at %llu not zero filled", (unsigned long long)off);
    return "";
}

std::string check(std::string const& dat, std::string const& key, HashFn const& H, Db& db)
{
    auto& dh = db.dh; auto& kh = db.kh;
    if(! parse_dat(dat, dh)) return "data file shorter than its header";
    if(dh.type != "nudb.dat") return "data file type";
    if(dh.version != 2) return "data file version";
    if(! dh.zero) return "data file header reserved bytes not zero";
    if(! parse_key(key, kh)) return "key file shorter than its header";
    if(kh.type != "nudb.key") return "key file type";
    if(kh.version != 2) return "key file version";
    if(! kh.zero) return "key file header padding not zero";
    if(kh.uid != dh.uid) return "uid differs between data and key file";
    if(kh.appnum != dh.appnum) return "appnum differs between data and key file";
    if(kh.key_size != dh.key_size || kh.key_size == 0) return "key size";
    uint8_t sl[8]; for(int i = 0; i < 8; ++i) sl[i] = (uint8_t)(kh.salt >> (8 * i));
    if(H(kh.salt, sl, 8) != kh.pepper) return "pepper is not the hash of the salt";
    if(kh.capacity < 1) return "block size too small";
    if(key.size() % kh.block_size) return fmt("key file size %zu is not a multiple of the block size %llu", key.size(), (unsigned long long)kh.block_size);
    if(kh.buckets < 1) return "no buckets";
    auto why = parse_records(dat, kh.key_size, db.recs);
    if(! why.empty()) return why;
    std::map<uint64_t, Record const*> at;
    std::map<uint64_t, Record const*> spills;       // by bucket offset
    for(auto& r : db.recs)
    {
        if(r.spill)
        {
            // A spill record holds a full bucket of its block size
            if(r.size < bucket_bytes(1) || (r.size - 8) % 18) return fmt("spill record at %llu has impossible size %llu", (unsigned long long)r.offset, (unsigned long long)r.size);
            spills[r.offset + 8] = &r;
            ++db.st.spill_count_tot; db.st.spill_bytes_tot += 8 + r.size;
            Bucket b; b.count = be((uint8_t const*)dat.data() + r.offset + 8, 2);
            if(bucket_bytes(b.count) != r.size) return fmt("spill record at %llu is not a full bucket (%llu entries in %llu bytes)", (unsigned long long)r.offset, (unsigned long long)b.count, (unsigned long long)r.size);
        }
        else
        {
            at[r.offset] = &r;
            ++db.st.value_count; db.st.value_bytes += r.size;
            if(! db.kv.emplace(r.key, r.value).second) return "duplicate key " + eng::hex(r.key.data(), r.key.size());
        }
    }
    std::set<uint64_t> seen;
    db.chains.resize(kh.buckets);
    std::set<uint64_t> used_spills;
    for(uint64_t n = 0; n < kh.buckets; ++n)
    {
        uint64_t off = (n + 1) * kh.block_size; bool in_key = true; uint64_t len = 0;
        for(;;)
        {
            Bucket b;
            why = read_bucket(in_key ? key : dat, off, kh.block_size, in_key, b);
            if(! why.empty()) return fmt("bucket %llu: ", (unsigned long long)n) + why;
            if(! in_key && b.count != kh.capacity) return fmt("bucket %llu: spilled bucket is not full", (unsigned long long)n);
            for(auto& e : b.e)
            {
                auto it = at.find(e.offset);
                if(it == at.end()) return fmt("bucket %llu: entry refers to offset %llu which is no value", (unsigned long long)n, (unsigned long long)e.offset);
                if(e.size != it->second->size) return fmt("bucket %llu: entry size %llu, value size %llu", (unsigned long long)n, (unsigned long long)e.size, (unsigned long long)it->second->size);
                uint64_t h = H(kh.salt, it->second->key.data(), kh.key_size) >> 16;
                if(h != e.hash) return fmt("bucket %llu: entry hash is not the hash of the key", (unsigned long long)n);
                if(bucket_of(h, kh.buckets) != n) return fmt("key of bucket %llu belongs into bucket %llu", (unsigned long long)n, (unsigned long long)bucket_of(h, kh.buckets));
                if(! seen.insert(e.offset).second) return "value referenced twice";
                ++db.st.key_count;
            }
            uint64_t sp = b.spill;
            db.chains[n].push_back(std::move(b));
            if(! sp) break;
            if(! spills.count(sp)) return fmt("bucket %llu: spill offset %llu is no spill record", (unsigned long long)n, (unsigned long long)sp);
            if(! used_spills.insert(sp).second) return "spill record used twice";
            if(spills[sp]->size != bucket_bytes(kh.capacity)) return "spill record of another block size in a chain";
            ++db.st.spill_count; db.st.spill_bytes += 8 + spills[sp]->size;
            off = sp; in_key = false; ++len;
        }
        db.st.max_chain = std::max(db.st.max_chain, len);
        ++db.st.hist[std::min<uint64_t>(len, 9)];
    }
    if(seen.size() != at.size()) return fmt("%zu values in the data file, %zu referenced by buckets", at.size(), seen.size());
    return "";
}

} // ref
