// Independent reference: the on-disk format of NuDB written from the published
// documentation only (README "Formats"), XXH64 from its specification, and the
// linear hashing address function. Shares no code with include/nudb.
#pragma once
#include "simfs.hpp"
#include <array>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace ref {

uint64_t xxh64(void const* p, size_t n, uint64_t seed);

using HashFn = std::function<uint64_t(uint64_t salt, void const*, size_t)>;

uint64_t be(uint8_t const* p, unsigned n);
void put_be(std::string& s, uint64_t v, unsigned n);

struct DatHeader { std::string type; uint64_t version, uid, appnum, key_size; bool zero; };
struct KeyHeader { std::string type; uint64_t version, uid, appnum, key_size, salt, pepper, block_size, load_factor; bool zero;
                   uint64_t capacity, buckets; };
struct LogHeader { std::string type; uint64_t version, uid, appnum, key_size, salt, pepper, block_size, key_file_size, dat_file_size; };
constexpr size_t DAT_HEADER = 92, KEY_HEADER = 104, LOG_HEADER = 62;

bool parse_dat(std::string const& f, DatHeader& h);
bool parse_key(std::string const& f, KeyHeader& h);
bool parse_log(std::string const& f, LogHeader& h);
std::string make_dat(DatHeader const& h);
std::string make_key(KeyHeader const& h);    // padded to the block size
std::string make_log(LogHeader const& h);

inline uint64_t capacity(uint64_t bs) { return bs < KEY_HEADER ? 0 : (bs - 8) / 18; }
inline uint64_t bucket_bytes(uint64_t n) { return 8 + 18 * n; }
uint64_t ceil_pow2(uint64_t n);
uint64_t bucket_of(uint64_t h48, uint64_t buckets);

struct Entry { uint64_t offset, size, hash; };
struct Bucket { uint64_t count, spill; std::vector<Entry> e; };

struct Record { uint64_t offset; bool spill; uint64_t size; std::string key, value; };
// Parse all data file records. Returns "" or a complaint.
std::string parse_records(std::string const& dat, uint64_t key_size, std::vector<Record>& out, bool values = true);

struct Stats
{
    uint64_t key_count = 0, value_count = 0, value_bytes = 0;
    uint64_t spill_count = 0, spill_count_tot = 0, spill_bytes = 0, spill_bytes_tot = 0;
    std::array<uint64_t, 10> hist{};
    uint64_t max_chain = 0;
};

struct Db
{
    DatHeader dh; KeyHeader kh;
    std::map<std::string, std::string> kv;
    std::vector<Record> recs;
    std::vector<std::vector<Bucket>> chains;
    Stats st;
};

// Full conformance check. strict: everything the documentation promises;
// returns "" or the first complaint. Fills db with contents and statistics.
std::string check(std::string const& dat, std::string const& key, HashFn const& h, Db& db);

} // ref
