// Property-testing engine: every random decision of a case is one integer
// drawn from a recorded choice sequence, so any case can be replayed and
// shrunk from that sequence alone.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <initializer_list>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace eng {

struct Fail : std::runtime_error { using runtime_error::runtime_error; };

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9e3779b97f4a7c15ull + b; splitmix(s); return splitmix(s); }

std::string fmt(char const* f, ...) __attribute__((format(printf, 1, 2)));

class Case
{
public:
    // ---- draws -----------------------------------------------------------
    uint64_t draw(uint64_t n);                       // [0,n), 0 is simplest
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; } // 0 => false
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size())); }
    template<class V> auto const& pick(V const& v) { return v[draw(v.size())]; }
    // weighted choice; index 0 is the simplest
    unsigned weighted(std::initializer_list<unsigned> w);
    // log-uniform-ish integer in [lo,hi]
    uint64_t skew(uint64_t lo, uint64_t hi);
    uint64_t u64() { return draw(0); }               // any 64-bit value

    // ---- reporting -------------------------------------------------------
    void note(char const* f, ...) __attribute__((format(printf, 2, 3)));
    void label(std::string const& l, uint64_t n = 1) { labels[l] += n; }
    void nontrivial(bool b = true) { if(b) nontriv = true; }
    [[noreturn]] void fail(std::string const& s) { throw Fail(s); }
    void check(bool b, std::string const& s) { if(!b) fail(s); }
    bool notes_on() const { return notes_on_; }
    // a violation that fails unless known-findings.txt lists it under this id
    void known(std::string const& id, std::string const& what)
    {
        char const* e = getenv("ENG_KNOWN");
        if(! e || (" " + std::string(e) + " ").find(" " + id + " ") == std::string::npos) fail(what);
        known_hits[id]++;
    }

    // ---- engine side -----------------------------------------------------
    bool replay = false;
    bool notes_on_ = false;
    uint64_t prng = 0;
    std::vector<uint64_t> in;       // replayed choices
    uint64_t* rec = nullptr;        // recorded choices (shared memory)
    uint64_t* nrec = nullptr;
    uint64_t cap = 0, pos = 0;
    uint64_t hash = 0;
    bool nontriv = false;
    std::map<std::string, uint64_t> labels, known_hits;
    std::string notes;
    uint64_t evals = 1;             // executions explored by this case
};

using PropFn = void(*)(Case&);
struct Reg { Reg(char const* id, PropFn fn); };
#define PROPERTY(ID) static void prop_##ID(eng::Case& c); \
    static eng::Reg reg_##ID(#ID, prop_##ID); static void prop_##ID(eng::Case& c)

// Deterministic pseudo random bytes, a pure function of (seed,n)
void fill_bytes(uint8_t* p, size_t n, uint64_t seed);
std::string hex(void const* p, size_t n, size_t max = 24);

extern bool thorough;               // VERIF_TIER
extern Case* current;

// Virtual time (see clock wrappers in engine.cpp)
extern bool virtual_time;
extern bool real_random;            // C26: do not make the random device reproducible
extern int64_t vnow;                // nanoseconds
// Set by the scheduler while it is active
extern void (*sched_hook)();
extern bool (*sleep_hook)(int64_t ns, bool absolute);
inline void sched_point() { if(sched_hook) sched_hook(); }
// Harness code whose memory accesses and allocations are not those of the code under test
struct Quiet { Quiet(); ~Quiet(); };
extern thread_local int quiet_depth;

#define CHECK(COND, ...) do { if(!(COND)) throw eng::Fail(eng::fmt(__VA_ARGS__)); } while(0)

} // eng
