// Deterministic scheduler: while a session is active only one of the managed
// threads runs at a time, and which one is a choice drawn from the case.
// Every pthread mutex, rwlock, condition variable, thread and sleep of the
// managed threads is modelled here; time is virtual.
#pragma once
#include "engine.hpp"

namespace dsched {

struct Options
{
    unsigned style = 0;             // 0 run to block, 1 long gaps, 2 dense, 3 medium, 4 priorities with change points
    bool early = false;             // timed waits may expire while others run (a slow machine)
    bool spurious = false;
    uint64_t max_steps = 3000000;
};
Options gen_options(eng::Case& c);

void begin(eng::Case& c, Options const& o);     // the calling thread becomes thread 0
void end();                                     // every other thread must have been joined or have finished
bool active();
bool managed();
void point();                                   // a place where another thread may run
void fair(bool on);                             // time passes only when every thread is blocked
int self();
uint64_t tick();                                // totally ordered event number
uint64_t steps();
uint64_t switches();
unsigned live();                                // managed threads that have not finished
[[noreturn]] void fail(std::string const& why); // report from any thread

struct Session
{
    Session(eng::Case& c, Options const& o) { begin(c, o); }
    ~Session() { end(); }
};

} // dsched
#define DCHECK(COND, ...) do { if(!(COND)) dsched::fail(eng::fmt(__VA_ARGS__)); } while(0)
