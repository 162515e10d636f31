#include "dsched.hpp"
#include <dlfcn.h>
#include <errno.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <atomic>

extern "C" {
void __tsan_acquire(void*) __attribute__((weak));
void __tsan_release(void*) __attribute__((weak));
void __tsan_ignore_thread_begin() __attribute__((weak));
void __tsan_ignore_thread_end() __attribute__((weak));
int __interceptor_pthread_create(pthread_t*, pthread_attr_t const*, void* (*)(void*), void*) __attribute__((weak));
int __interceptor_pthread_join(pthread_t, void**) __attribute__((weak));
int __interceptor_pthread_detach(pthread_t) __attribute__((weak));
}

namespace dsched {

static unsigned const MAXT = 24;
enum St { FREE, RUN, BLOCKED, DONE };
enum Why { W_NONE, W_MUTEX, W_COND, W_JOIN, W_SLEEP, W_RW };
static char const* const why_name[] = {"", "mutex", "condition variable", "join", "sleep", "rwlock"};

struct Thr
{
    pthread_t h; void* (*fn)(void*); void* arg;
    St st; Why why; void const* on;
    bool timed, timedout, signaled, joined; int64_t deadline;
    std::atomic<uint32_t> tok;
    uint64_t prio;
};
static Thr T[MAXT];
static unsigned nT;
static std::atomic<bool> on{false};
static unsigned cur;
static thread_local int me = -1;
static eng::Case* C;
static Options opt;
static bool fair_;
static uint64_t nsteps, nswitch, ticks, gap;

// ---- objects ---------------------------------------------------------------
struct Obj { void const* a; int owner; unsigned rec, readers; bool rw; };
static unsigned const NOBJ = 1 << 14;
static Obj O[NOBJ];
static unsigned used[NOBJ]; static unsigned nused;
static Obj& obj(void const* a)
{
    uint64_t x = (uintptr_t)a; x *= 0x9e3779b97f4a7c15ull;
    unsigned i = (unsigned)(x >> 50);
    for(unsigned k = 0; k < NOBJ; ++k, i = (i + 1) % NOBJ)
    {
        if(O[i].a == a) return O[i];
        if(! O[i].a)
        {
            O[i] = Obj{a, -1, 0, 0, false}; used[nused++] = i;
            return O[i];
        }
    }
    fprintf(stderr, "dsched: too many objects\n"); _exit(3);
}
static Obj* find(void const* a)
{
    uint64_t x = (uintptr_t)a; x *= 0x9e3779b97f4a7c15ull;
    unsigned i = (unsigned)(x >> 50);
    for(unsigned k = 0; k < NOBJ; ++k, i = (i + 1) % NOBJ)
    {
        if(O[i].a == a) return &O[i];
        if(! O[i].a) return nullptr;
    }
    return nullptr;
}

static long futex(std::atomic<uint32_t>* a, int op, uint32_t v) { return syscall(SYS_futex, a, op | FUTEX_PRIVATE_FLAG, v, nullptr, nullptr, 0); }

struct Ign
{
    Ign() { if(__tsan_ignore_thread_begin) __tsan_ignore_thread_begin(); }
    ~Ign() { if(__tsan_ignore_thread_end) __tsan_ignore_thread_end(); }
};

static void flush_notes()
{
    if(C && C->notes_on_) fputs(C->notes.c_str(), stdout);
}
static void state(FILE* f)
{
    for(unsigned i = 0; i < nT; ++i)
        if(T[i].st != DONE && T[i].st != FREE)
            fprintf(f, "  thread %u: %s%s\n", i, T[i].st == RUN ? "runnable" : "blocked on ", T[i].st == RUN ? "" : why_name[T[i].why]);
}
[[noreturn]] static void die(int code, char const* msg)
{
    Ign g;
    flush_notes();
    std::string s = msg;
    for(unsigned i = 0; i < nT; ++i)
        if(T[i].st == BLOCKED) s += eng::fmt("; thread %u blocked on %s", i, why_name[T[i].why]);
    printf("%s\n", s.c_str());
    state(stdout);
    fflush(stdout);
    _exit(code);
}
void fail(std::string const& why)
{
    if(! managed()) throw eng::Fail(why);
    Ign g;
    flush_notes();
    printf("FAIL: %s\n", why.c_str());
    fflush(stdout);
    _exit(10);
}

// ---- scheduling --------------------------------------------------------------
static void new_gap()
{
    switch(opt.style)
    {
    default: case 0: gap = ~0ull; break;
    case 1: gap = C->skew(1, 400); break;
    case 2: gap = 1 + C->draw(3); break;
    case 3: gap = 1 + C->draw(40); break;
    case 4: gap = C->skew(1, 2000); break;
    }
}
static void wake(unsigned t) { T[t].st = RUN; T[t].why = W_NONE; T[t].on = nullptr; T[t].timed = false; }
static void expire()
{
    for(unsigned i = 0; i < nT; ++i)
        if(T[i].st == BLOCKED && T[i].timed && T[i].deadline <= eng::vnow)
        { T[i].timedout = true; wake(i); }
}
static int earliest()
{
    int b = -1;
    for(unsigned i = 0; i < nT; ++i)
        if(T[i].st == BLOCKED && T[i].timed && (b < 0 || T[i].deadline < T[b].deadline)) b = (int)i;
    return b;
}
static void transfer(unsigned to)
{
    unsigned const from = cur;
    if(to == from) return;
    ++nswitch;
    cur = to;
    T[to].tok.store(1, std::memory_order_release);
    futex(&T[to].tok, FUTEX_WAKE, 1);
    if(T[from].st == DONE) return;
    while(! T[from].tok.load(std::memory_order_acquire)) futex(&T[from].tok, FUTEX_WAIT, 0);
    T[from].tok.store(0, std::memory_order_relaxed);
}
// pick the next thread when the current one cannot run
static unsigned choose_other(bool include_self)
{
    unsigned r[MAXT], n = 0;
    // the current thread first, then the following ones in order
    for(unsigned k = 0; k < nT; ++k)
    {
        unsigned i = (cur + k) % nT;
        if(k == 0 && ! include_self) continue;
        if(T[i].st == RUN) r[n++] = i;
    }
    if(n == 0) return MAXT;
    if(opt.style == 4)
    {
        unsigned b = r[0];
        for(unsigned i = 1; i < n; ++i) if(T[r[i]].prio > T[b].prio) b = r[i];
        return b;
    }
    return n == 1 ? r[0] : r[C->draw(n)];
}
static void step()
{
    if(++nsteps > opt.max_steps) die(98, "HANG: scheduling step limit reached");
}
static void reschedule()        // current thread is blocked or done
{
    for(;;)
    {
        expire();
        unsigned t = choose_other(false);
        if(t != MAXT) { transfer(t); return; }
        if(T[cur].st == RUN) return;            // woken by its own timeout
        int e = earliest();
        if(e < 0)
        {
            if(T[cur].st == DONE)
            {
                bool any = false; for(unsigned i = 0; i < nT; ++i) any |= T[i].st == BLOCKED;
                if(! any) return;
            }
            die(96, "DEADLOCK: no thread can run and none is waiting for a time");
        }
        if(T[e].deadline > eng::vnow) eng::vnow = T[e].deadline;
    }
}
static void block(Why w, void const* onp, bool timed, int64_t deadline)
{
    Thr& t = T[cur];
    step();
    t.st = BLOCKED; t.why = w; t.on = onp; t.timed = timed; t.deadline = deadline; t.timedout = false; t.signaled = false;
    reschedule();
}
static void preempt_point()
{
    step();
    expire();
    if(--gap) return;
    new_gap();
    if(opt.early && ! fair_ && C->chance(1, 4))
    {
        int e = earliest();
        if(e >= 0)
        {
            if(T[e].deadline > eng::vnow) eng::vnow = T[e].deadline;
            expire();
            if(opt.style != 4) { transfer((unsigned)e); return; }
        }
    }
    if(opt.style == 4)
    {
        // change point: the running thread drops below every other
        uint64_t lo = ~0ull;
        for(unsigned i = 0; i < nT; ++i) if(T[i].st == RUN || T[i].st == BLOCKED) if(T[i].prio < lo) lo = T[i].prio;
        T[cur].prio = lo ? lo - 1 : 0;
    }
    unsigned t = choose_other(true);
    if(t != MAXT) transfer(t);
}

bool active() { return on.load(std::memory_order_relaxed); }
bool managed() { return me >= 0 && active(); }
void point() { if(managed()) { Ign g; preempt_point(); } }
void fair(bool f) { fair_ = f; }
int self() { return me; }
uint64_t tick() { return ++ticks; }
uint64_t steps() { return nsteps; }
uint64_t switches() { return nswitch; }
unsigned live() { unsigned n = 0; for(unsigned i = 0; i < nT; ++i) n += T[i].st == RUN || T[i].st == BLOCKED; return n; }

static void hook_point() { point(); }
static bool hook_sleep(int64_t ns, bool absolute)
{
    if(! managed()) return false;
    Ign g;
    block(W_SLEEP, nullptr, true, absolute ? ns : eng::vnow + ns);
    return true;
}

Options gen_options(eng::Case& c)
{
    Options o;
    o.style = c.weighted({1, 4, 2, 4, 3});
    o.early = c.chance(2, 3);
    o.spurious = c.chance(1, 3);
    return o;
}

void begin(eng::Case& c, Options const& o)
{
    Ign g;
    for(unsigned i = 0; i < nused; ++i) O[used[i]] = Obj{};
    nused = 0;
    C = &c; opt = o; fair_ = false; nsteps = nswitch = ticks = 0;
    for(auto& t : T) { t.st = FREE; t.tok.store(0); t.why = W_NONE; t.on = nullptr; t.timed = t.timedout = t.signaled = t.joined = false; }
    nT = 1; cur = 0; me = 0;
    T[0].st = RUN; T[0].h = pthread_self(); T[0].prio = 1ull << 32;
    if(o.style == 4) T[0].prio += c.draw(1024);
    new_gap();
    eng::sched_hook = hook_point; eng::sleep_hook = hook_sleep;
    on.store(true);
}
void end()
{
    Ign g;
    // let detached or unjoined threads finish
    while(live() > 1)
    {
        T[0].st = BLOCKED; T[0].why = W_JOIN; T[0].on = nullptr; T[0].timed = true; T[0].deadline = eng::vnow + 1000000; T[0].timedout = false;
        step();
        reschedule();
    }
    on.store(false);
    me = -1;
    eng::sched_hook = nullptr; eng::sleep_hook = nullptr;
    C = nullptr;
}

static void* trampoline(void* p)
{
    auto id = (unsigned)(uintptr_t)p;
    {
        Ign g;
        me = (int)id;
        while(! T[id].tok.load(std::memory_order_acquire)) futex(&T[id].tok, FUTEX_WAIT, 0);
        T[id].tok.store(0, std::memory_order_relaxed);
    }
    void* r = T[id].fn(T[id].arg);
    {
        Ign g;
        preempt_point();
        T[id].st = DONE;
        for(unsigned i = 0; i < nT; ++i)
            if(T[i].st == BLOCKED && T[i].why == W_JOIN && T[i].on == &T[id]) wake(i);
        reschedule();
        me = -1;
    }
    return r;
}

// ---- locks ---------------------------------------------------------------------
static void wake_waiters(void const* a, Why w)
{
    for(unsigned i = 0; i < nT; ++i)
        if(T[i].st == BLOCKED && T[i].why == w && T[i].on == a) wake(i);
}
static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool errcheck(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_ERRORCHECK_NP; }
static int do_lock(pthread_mutex_t* m, bool wait, bool timed, int64_t deadline)
{
    Ign g;
    preempt_point();
    for(;;)
    {
        Obj& o = obj(m);
        if(o.owner < 0) { o.owner = (int)cur; o.rec = 1; break; }
        if(o.owner == (int)cur && recursive(m)) { ++o.rec; break; }
        if(o.owner == (int)cur && errcheck(m) && wait) return EDEADLK;
        if(! wait) return EBUSY;
        block(W_MUTEX, m, timed, deadline);
        if(timed && T[cur].timedout && obj(m).owner >= 0) return ETIMEDOUT;
    }
    if(__tsan_acquire) __tsan_acquire(m);
    return 0;
}
static int release(pthread_mutex_t* m)
{
    Obj& o = obj(m);
    if(o.owner != (int)cur) { if(errcheck(m)) return EPERM; die(10, "FAIL: a mutex is unlocked by a thread that does not hold it"); }
    if(--o.rec) return 0;
    if(__tsan_release) __tsan_release(m);
    o.owner = -1;
    wake_waiters(m, W_MUTEX);
    return 0;
}
static int do_unlock(pthread_mutex_t* m)
{
    Ign g;
    int r = release(m);
    preempt_point();
    return r;
}
static int do_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int64_t deadline)
{
    Ign g;
    preempt_point();
    if(obj(m).owner != (int)cur) die(10, "FAIL: condition wait without holding the mutex");
    if(__tsan_release) __tsan_release(m);
    unsigned const rec = obj(m).rec;
    obj(m).owner = -1; obj(m).rec = 0; wake_waiters(m, W_MUTEX);
    bool to = false;
    if(timed && deadline <= eng::vnow) { to = true; preempt_point(); }
    else if(opt.spurious && C->draw(8) == 7) preempt_point();
    else
    {
        block(W_COND, c, timed, deadline);
        to = T[cur].timedout && ! T[cur].signaled;
    }
    for(;;)
    {
        Obj& o = obj(m);
        if(o.owner < 0) { o.owner = (int)cur; o.rec = rec; break; }
        block(W_MUTEX, m, false, 0);
    }
    if(__tsan_acquire) __tsan_acquire(m);
    return to ? ETIMEDOUT : 0;
}
static int do_signal(pthread_cond_t* c, bool all)
{
    Ign g;
    unsigned r[MAXT], n = 0;
    for(unsigned i = 0; i < nT; ++i)
        if(T[i].st == BLOCKED && T[i].why == W_COND && T[i].on == c) r[n++] = i;
    if(n)
    {
        if(all) for(unsigned i = 0; i < n; ++i) { T[r[i]].signaled = true; wake(r[i]); }
        else { unsigned k = n == 1 ? 0 : (unsigned)C->draw(n); T[r[k]].signaled = true; wake(r[k]); }
    }
    preempt_point();
    return 0;
}
static int do_rw(pthread_rwlock_t* l, bool write, bool wait)
{
    Ign g;
    preempt_point();
    for(;;)
    {
        Obj& o = obj(l); o.rw = true;
        if(write ? (o.owner < 0 && o.readers == 0) : o.owner < 0)
        {
            if(write) o.owner = (int)cur; else ++o.readers;
            break;
        }
        if(! wait) return EBUSY;
        block(W_RW, l, false, 0);
    }
    if(__tsan_acquire) __tsan_acquire(l);
    return 0;
}
static int64_t ns(timespec const* t) { return t->tv_sec * 1000000000ll + t->tv_nsec; }

} // dsched

using namespace dsched;

template<class F> static F real(F& f, char const* name, char const* ver = nullptr)
{
    if(! f)
    {
        void* p = ver ? dlvsym(RTLD_NEXT, name, ver) : nullptr;
        if(! p) p = dlsym(RTLD_NEXT, name);
        f = (F)p;
    }
    return f;
}
// Outside a session the calls go to the C library itself, past TSan's interceptors:
// tell it what they order.
static int acq(int r, void* m) { if((r == 0 || r == ETIMEDOUT) && __tsan_acquire) __tsan_acquire(m); return r; }
static void* rel(void* m) { if(__tsan_release) __tsan_release(m); return m; }
#define REAL(name, ...) real(real_##name, #name)(__VA_ARGS__)
#define REALV(name, ...) real(real_##name, #name, "GLIBC_2.3.2")(__VA_ARGS__)
#define DECL(ret, name, args) static ret (*real_##name) args; extern "C" ret name args

DECL(int, pthread_mutex_lock, (pthread_mutex_t* m)) { return managed() ? do_lock(m, true, false, 0) : acq(REAL(pthread_mutex_lock, m), m); }
DECL(int, pthread_mutex_trylock, (pthread_mutex_t* m)) { return managed() ? do_lock(m, false, false, 0) : acq(REAL(pthread_mutex_trylock, m), m); }
DECL(int, pthread_mutex_timedlock, (pthread_mutex_t* m, timespec const* t)) { return managed() ? do_lock(m, true, true, ns(t)) : acq(REAL(pthread_mutex_timedlock, m, t), m); }
DECL(int, pthread_mutex_clocklock, (pthread_mutex_t* m, clockid_t c, timespec const* t)) { return managed() ? do_lock(m, true, true, ns(t)) : acq(REAL(pthread_mutex_clocklock, m, c, t), m); }
DECL(int, pthread_mutex_unlock, (pthread_mutex_t* m)) { return managed() ? do_unlock(m) : (rel(m), REAL(pthread_mutex_unlock, m)); }
DECL(int, pthread_mutex_destroy, (pthread_mutex_t* m))
{
    if(managed()) { Obj* o = find(m); if(o && o->owner >= 0) die(10, "FAIL: a locked mutex is destroyed"); return 0; }
    return REAL(pthread_mutex_destroy, m);
}
DECL(int, pthread_cond_wait, (pthread_cond_t* c, pthread_mutex_t* m)) { return managed() ? do_wait(c, m, false, 0) : (rel(m), acq(REALV(pthread_cond_wait, c, m), m)); }
DECL(int, pthread_cond_timedwait, (pthread_cond_t* c, pthread_mutex_t* m, timespec const* t)) { return managed() ? do_wait(c, m, true, ns(t)) : (rel(m), acq(REALV(pthread_cond_timedwait, c, m, t), m)); }
DECL(int, pthread_cond_clockwait, (pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* t)) { return managed() ? do_wait(c, m, true, ns(t)) : (rel(m), acq(REAL(pthread_cond_clockwait, c, m, k, t), m)); }
DECL(int, pthread_cond_signal, (pthread_cond_t* c)) { return managed() ? do_signal(c, false) : REALV(pthread_cond_signal, c); }
DECL(int, pthread_cond_broadcast, (pthread_cond_t* c)) { return managed() ? do_signal(c, true) : REALV(pthread_cond_broadcast, c); }
DECL(int, pthread_cond_destroy, (pthread_cond_t* c))
{
    if(managed())
    {
        for(unsigned i = 0; i < nT; ++i)
            if(T[i].st == BLOCKED && T[i].why == W_COND && T[i].on == c) die(96, "DEADLOCK: a condition variable with a waiter is destroyed");
        return 0;
    }
    return REALV(pthread_cond_destroy, c);
}
DECL(int, pthread_rwlock_rdlock, (pthread_rwlock_t* l)) { return managed() ? do_rw(l, false, true) : acq(REAL(pthread_rwlock_rdlock, l), l); }
DECL(int, pthread_rwlock_tryrdlock, (pthread_rwlock_t* l)) { return managed() ? do_rw(l, false, false) : acq(REAL(pthread_rwlock_tryrdlock, l), l); }
DECL(int, pthread_rwlock_wrlock, (pthread_rwlock_t* l)) { return managed() ? do_rw(l, true, true) : acq(REAL(pthread_rwlock_wrlock, l), l); }
DECL(int, pthread_rwlock_trywrlock, (pthread_rwlock_t* l)) { return managed() ? do_rw(l, true, false) : acq(REAL(pthread_rwlock_trywrlock, l), l); }
DECL(int, pthread_rwlock_unlock, (pthread_rwlock_t* l))
{
    if(! managed()) { rel(l); return REAL(pthread_rwlock_unlock, l); }
    Ign g;
    Obj& o = obj(l);
    if(__tsan_release) __tsan_release(l);
    if(o.owner == (int)cur) o.owner = -1; else if(o.readers) --o.readers; else die(10, "FAIL: rwlock unlocked without being held");
    wake_waiters(l, W_RW);
    preempt_point();
    return 0;
}
DECL(int, pthread_create, (pthread_t* t, pthread_attr_t const* a, void* (*fn)(void*), void* arg))
{
    if(! managed()) return __interceptor_pthread_create ? __interceptor_pthread_create(t, a, fn, arg) : REAL(pthread_create, t, a, fn, arg);
    unsigned id = MAXT;
    {
        Ign g;
        for(unsigned i = 1; i < nT; ++i) if(T[i].st == DONE && T[i].joined) { id = i; break; }
        if(id == MAXT) { if(nT == MAXT) { fprintf(stderr, "dsched: too many threads\n"); _exit(3); } id = nT++; }
        T[id].fn = fn; T[id].arg = arg; T[id].tok.store(0); T[id].why = W_NONE; T[id].on = nullptr;
        T[id].timed = T[id].timedout = T[id].signaled = T[id].joined = false;
        T[id].prio = 1ull << 32;
        if(opt.style == 4) T[id].prio += C->draw(1024);
    }
    int r = __interceptor_pthread_create ? __interceptor_pthread_create(t, a, trampoline, (void*)(uintptr_t)id) : REAL(pthread_create, t, a, trampoline, (void*)(uintptr_t)id);
    Ign g;
    if(r) { T[id].st = DONE; T[id].joined = true; return r; }
    T[id].h = *t; T[id].st = RUN;
    preempt_point();
    return 0;
}
DECL(int, pthread_join, (pthread_t t, void** ret))
{
    if(managed())
    {
        Ign g;
        preempt_point();
        for(unsigned i = 0; i < nT; ++i)
            if((T[i].st == RUN || T[i].st == BLOCKED || (T[i].st == DONE && ! T[i].joined)) && pthread_equal(T[i].h, t))
            {
                if(i == cur) return EDEADLK;
                while(T[i].st != DONE) block(W_JOIN, &T[i], false, 0);
                T[i].joined = true;
                break;
            }
    }
    return __interceptor_pthread_join ? __interceptor_pthread_join(t, ret) : REAL(pthread_join, t, ret);
}
DECL(int, pthread_detach, (pthread_t t))
{
    if(managed())
        for(unsigned i = 0; i < nT; ++i)
            if(T[i].st != FREE && ! T[i].joined && pthread_equal(T[i].h, t)) T[i].joined = true;
    return __interceptor_pthread_detach ? __interceptor_pthread_detach(t) : REAL(pthread_detach, t);
}
DECL(int, sched_yield, (void))
{
    if(! managed()) return (int)syscall(SYS_sched_yield);
    Ign g;
    step();
    expire();
    unsigned t = choose_other(false);
    if(t != MAXT) transfer(t);
    else
    {
        // nobody else can run: let time pass
        int e = earliest();
        if(e >= 0) { if(T[e].deadline > eng::vnow) eng::vnow = T[e].deadline; expire(); }
    }
    return 0;
}
