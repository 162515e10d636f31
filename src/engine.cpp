#include "engine.hpp"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <set>
#include <unordered_set>
#include <fstream>
#include <iostream>
#include <memory>
#include <random>
#include <sys/random.h>

extern "C" void __tsan_ignore_thread_begin() __attribute__((weak));
extern "C" void __tsan_ignore_thread_end() __attribute__((weak));

namespace eng {

thread_local int quiet_depth = 0;
Quiet::Quiet() { ++quiet_depth; if(__tsan_ignore_thread_begin) __tsan_ignore_thread_begin(); }
Quiet::~Quiet() { --quiet_depth; if(__tsan_ignore_thread_end) __tsan_ignore_thread_end(); }


bool thorough = false;
Case* current = nullptr;
bool virtual_time = true;
int64_t vnow = 1000000000000ll;
bool real_random = false;
void (*sched_hook)() = nullptr;
bool (*sleep_hook)(int64_t, bool) = nullptr;

std::string fmt(char const* f, ...)
{
    va_list ap; va_start(ap, f);
    va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    va_end(ap);
    std::string s(n, 0);
    vsnprintf(&s[0], n + 1, f, ap2);
    va_end(ap2);
    return s;
}

static uint64_t rnd_state;
static bool rnd_drawn;
static pthread_t case_thread;

void Case::note(char const* f, ...)
{
    if(! notes_on_) return;
    Quiet q;
    size_t const lim = replay ? 60000 : 6000;
    if(notes.size() > lim) return;
    va_list ap; va_start(ap, f);
    char buf[1024];
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    notes += buf; notes += "\n";
    if(notes.size() > lim) notes += "...\n";
}

uint64_t Case::draw(uint64_t n)
{
    uint64_t v;
    if(n == 1) return 0;
    Quiet q;
    if(replay)
    {
        v = pos < in.size() ? in[pos] : 0;
        if(n && v >= n) v = n - 1;
    }
    else
    {
        v = splitmix(prng);
        if(n) v = (uint64_t)(((unsigned __int128)v * n) >> 64);
    }
    if(rec && pos < cap) { rec[pos] = v; *nrec = pos + 1; }
    ++pos;
    hash = mix(hash, v + 1);
    return v;
}

unsigned Case::weighted(std::initializer_list<unsigned> w)
{
    unsigned tot = 0; for(auto x : w) tot += x;
    uint64_t v = draw(tot);
    unsigned i = 0;
    for(auto x : w) { if(v < x) return i; v -= x; ++i; }
    return i - 1;
}

uint64_t Case::skew(uint64_t lo, uint64_t hi)
{
    uint64_t span = hi - lo;
    unsigned bits = 0; while(bits < 64 && (span >> bits)) ++bits;
    unsigned b = (unsigned)draw(bits + 1);
    if(b == 0) return lo;
    uint64_t m = b >= 64 ? 0 : (1ull << b);
    uint64_t l = 1ull << (b - 1);
    uint64_t top = (m ? m - 1 : ~0ull); if(top > span) top = span;
    if(l > top) l = top;
    return lo + l + draw(top - l + 1);
}

void fill_bytes(uint8_t* p, size_t n, uint64_t seed)
{
    uint64_t s = seed;
    while(n >= 8) { uint64_t v = splitmix(s); memcpy(p, &v, 8); p += 8; n -= 8; }
    if(n) { uint64_t v = splitmix(s); memcpy(p, &v, n); }
}

std::string hex(void const* p, size_t n, size_t max)
{
    std::string s; auto b = (uint8_t const*)p;
    for(size_t i = 0; i < n && i < max; ++i) s += fmt("%02x", b[i]);
    if(n > max) s += fmt("..(%zu)", n);
    return s;
}

static std::map<std::string, PropFn>& props() { static std::map<std::string, PropFn> m; return m; }
Reg::Reg(char const* id, PropFn fn) { props()[id] = fn; }

static std::string jstr(std::string const& s)
{
    std::string o = "\"";
    for(unsigned char ch : s)
        if(ch == '"' || ch == '\\') { o += '\\'; o += ch; }
        else if(ch == '\n') o += "\\n";
        else if(ch < 32 || ch > 126) o += fmt("\\u%04x", ch);
        else o += ch;
    return o + "\"";
}

static char const hangmsg[] = "HANG: case exceeded its CPU budget\n";
static void on_cpu(int) { (void)!::write(2, hangmsg, sizeof hangmsg - 1); _exit(98); }

static void arm(unsigned cpu_s)
{
    struct itimerval it{}; it.it_value.tv_sec = cpu_s;
    setitimer(ITIMER_PROF, &it, nullptr);
}

} // eng

#ifndef ENG_NO_CLOCK
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
    if(eng::virtual_time && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME))
    {
        eng::vnow += 1000;
        ts->tv_sec = eng::vnow / 1000000000; ts->tv_nsec = eng::vnow % 1000000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
extern "C" int __wrap_nanosleep(struct timespec const* r, struct timespec*)
{
    if(eng::sleep_hook && eng::sleep_hook(r->tv_sec * 1000000000ll + r->tv_nsec, false)) return 0;
    eng::vnow += r->tv_sec * 1000000000ll + r->tv_nsec;
    return 0;
}
extern "C" int __wrap_clock_nanosleep(clockid_t, int fl, struct timespec const* r, struct timespec*)
{
    if(eng::sleep_hook && eng::sleep_hook(r->tv_sec * 1000000000ll + r->tv_nsec, fl & TIMER_ABSTIME)) return 0;
    eng::vnow += r->tv_sec * 1000000000ll + r->tv_nsec;
    return 0;
}
#endif

// While a case runs the random device belongs to it, so that salts and ids the
// code under test chooses itself come back when the case is replayed.
unsigned std::random_device::_M_getval()
{
    using namespace eng;
    if(! current || real_random)
    {
        unsigned v = 0;
        if(getrandom(&v, sizeof v, 0) != (ssize_t)sizeof v) abort();
        return v;
    }
    Quiet q;
    if(! rnd_drawn && pthread_equal(pthread_self(), case_thread)) { rnd_drawn = true; rnd_state ^= current->draw(0); }
    return (unsigned)(splitmix(rnd_state) >> 32);
}

// Usage: bin --prop ID --seed S --from A --to B --stride K --rec FILE --stats FILE
//        bin --prop ID --replay FILE            (one case from a choice list)
int main(int ac, char** av)
{
    using namespace eng;
    std::string prop, recf, statf, replayf;
    uint64_t seed = 1, from = 0, to = 100, stride = 1; unsigned cpu = 120; int nsamp = 2;
    for(int i = 1; i + 1 < ac; i += 2)
    {
        std::string a = av[i], v = av[i + 1];
        if(a == "--prop") prop = v; else if(a == "--seed") seed = strtoull(v.c_str(), 0, 10);
        else if(a == "--from") from = strtoull(v.c_str(), 0, 10); else if(a == "--to") to = strtoull(v.c_str(), 0, 10);
        else if(a == "--stride") stride = strtoull(v.c_str(), 0, 10);
        else if(a == "--rec") recf = v; else if(a == "--stats") statf = v;
        else if(a == "--replay") replayf = v; else if(a == "--cpu") cpu = atoi(v.c_str());
        else { std::cerr << "bad arg " << a << "\n"; return 3; }
    }
    if(char const* t = getenv("VERIF_TIER")) thorough = ! strcmp(t, "thorough");
    auto it = props().find(prop);
    if(it == props().end()) { std::cerr << "no such property " << prop << "\n"; return 3; }
    signal(SIGPROF, on_cpu);

    uint64_t const CAP = 1u << 20;
    uint64_t* shm = nullptr;
    if(! recf.empty())
    {
        int fd = ::open(recf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd < 0 || ftruncate(fd, (CAP + 4) * 8) != 0) { perror("rec"); return 3; }
        shm = (uint64_t*)mmap(nullptr, (CAP + 4) * 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if(shm == MAP_FAILED) { perror("mmap"); return 3; }
        shm[0] = ~0ull;
        close(fd);
    }
    std::vector<uint64_t> priv;
    if(! shm) { priv.resize(CAP + 4); shm = priv.data(); }

    if(! replayf.empty())
    {
        Case c; c.replay = true; c.notes_on_ = true;
        std::ifstream f(replayf); std::string tok;
        while(f >> tok) { if(tok[0] == '#') { std::string l; std::getline(f, l); continue; } c.in.push_back(strtoull(tok.c_str(), 0, 10)); }
        c.rec = shm + 4; c.nrec = shm + 1; c.cap = CAP;
        current = &c; rnd_state = 1; rnd_drawn = false; case_thread = pthread_self();
        arm(cpu);
        std::string why;
        vnow = 1000000000000ll;
        try { it->second(c); }
        catch(Fail const& e) { why = e.what(); }
        catch(std::exception const& e) { why = fmt("unexpected exception: %s", e.what()); }
        arm(0);
        printf("%s", c.notes.c_str());
        for(auto& k : c.known_hits) printf("KNOWN %s\n", k.first.c_str());
        if(! why.empty()) { printf("FAIL: %s\n", why.c_str()); fflush(stdout); _exit(10); }
        printf("PASS (draws=%llu nontrivial=%d)\n", (unsigned long long)c.pos, c.nontriv);
        fflush(stdout);
        _exit(0);
    }

    uint64_t evals = 0, cases = 0, nontriv = 0; std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels, known;
    std::vector<std::string> samples;
    uint64_t ph = 0; for(char ch : prop) ph = mix(ph, ch);
    int rc = 0; std::string why; uint64_t bad = 0;
    auto cpu_ms = [] { struct timespec t; syscall(SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec * 1000ull + t.tv_nsec / 1000000; };
    uint64_t slowest = 0, slow_case = 0;
    for(uint64_t i = from; i < to; i += stride)
    {
        Case c; c.prng = mix(mix(seed, ph), i);
        c.rec = shm + 4; c.nrec = shm + 1; c.cap = CAP; shm[1] = 0; shm[0] = i;
        c.notes_on_ = (int)samples.size() < nsamp;
        current = &c; rnd_state = 1; rnd_drawn = false; case_thread = pthread_self();
        auto const t0 = cpu_ms();
        arm(cpu);
        vnow = 1000000000000ll;
        try { it->second(c); }
        catch(Fail const& e) { why = e.what(); rc = 10; }
        catch(std::exception const& e) { why = fmt("unexpected exception: %s", e.what()); rc = 10; }
        arm(0);
        if(auto const t = cpu_ms() - t0; t > slowest) { slowest = t; slow_case = i; }
        ++cases; evals += c.evals;
        for(auto& l : c.labels) labels[l.first] += l.second;
        for(auto& l : c.known_hits) known[l.first] += l.second;
        if(c.nontriv) { ++nontriv; distinct.insert(c.hash);
            if(c.notes_on_) samples.push_back(fmt("case %llu:\n", (unsigned long long)i) + c.notes); }
        if(rc) { bad = i; break; }
    }
    current = nullptr;
    if(! statf.empty())
    {
        { std::ofstream h(statf + ".h", std::ios::binary);
          for(auto x : distinct) h.write((char const*)&x, 8); }
        std::ofstream o(statf + ".tmp");
        o << "{\"cases\":" << cases << ",\"evals\":" << evals << ",\"nontrivial\":" << nontriv
          << ",\"distinct\":" << distinct.size() << ",\"labels\":{";
        bool f = true; for(auto& l : labels) { o << (f ? "" : ",") << jstr(l.first) << ":" << l.second; f = false; }
        o << "},\"known\":{"; f = true; for(auto& l : known) { o << (f ? "" : ",") << jstr(l.first) << ":" << l.second; f = false; }
        o << "},\"samples\":["; f = true; for(auto& s : samples) { o << (f ? "" : ",") << jstr(s); f = false; }
        o << "],\"fail\":" << (rc ? "true" : "false") << ",\"why\":" << jstr(why) << ",\"index\":" << bad << ",\"slowest\":[" << slowest << "," << slow_case << "]" << "}\n";
        o.close();
        // readers may kill this process at any time: never leave half a file
        rename((statf + ".tmp").c_str(), statf.c_str());
    }
    fflush(stdout);
    _exit(rc);
}
