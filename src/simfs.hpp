// In-memory POSIX file system, interposed under the real posix_file at the
// system call boundary for every path that starts with the virtual prefix.
// Tracks which bytes are durable, clones itself at any operation, injects
// faults, short transfers and EINTR, and counts every call.
#pragma once
#include "engine.hpp"
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace simfs {

constexpr char const* PREFIX = "/@sim/";

enum Kind { OPEN, CREATE, READ, WRITE, SYNC, TRUNC, STAT, UNLINK, CLOSE, ADVISE, RENAME, NKIND };
char const* kind_name(Kind k);

struct Page { uint8_t b[4096]; };

struct Blob
{
    std::map<uint64_t, std::shared_ptr<Page>> pages;
    uint64_t size = 0;
    size_t read(uint64_t off, void* p, size_t n) const;     // clipped to size
    void write(uint64_t off, void const* p, size_t n);
    void trunc(uint64_t n);
    std::string str() const;                                // whole content (small files)
    static Blob from(std::string const& s);
    bool operator==(Blob const& o) const;
    bool prefix_equal(Blob const& o, uint64_t n) const;
};

struct PendOp { bool trunc; uint64_t off; std::string data; };

struct Inode
{
    Blob cur, dur;
    std::vector<std::shared_ptr<PendOp>> pending;
    std::string path;
};

struct Op
{
    uint64_t idx;
    Kind kind;
    std::string const* path;
    uint64_t off, len;
    int fd;
    uint64_t fsize;     // size of the file before the operation
    bool mutating() const { return kind == WRITE || kind == SYNC || kind == TRUNC || kind == CREATE || kind == UNLINK || kind == RENAME; }
};

// What to do with an operation.
struct Act { enum { GO, ERR, PARTIAL } t = GO; int err = 0; uint64_t n = 0; };

struct OpenFile { std::shared_ptr<Inode> in; int flags; uint64_t pos; };

struct FS
{
    std::map<std::string, std::shared_ptr<Inode>> dir;
    std::map<int, OpenFile> fds;
    int next_fd = 1 << 20;
    uint64_t nops = 0;
    uint64_t op_limit = 200000000;
    uint64_t counts[NKIND] = {};
    std::function<Act(Op const&)> hook;         // decides faults; sees every op before it happens
    std::function<void(Op const&)> after;       // sees every successful op
    uint64_t bytes_read = 0;
    bool lean = false;                          // do not record unsynced writes: no crash images

    FS clone() const;                           // deep copy without descriptors and hooks
    bool exists(std::string const& p) const { return dir.count(p) != 0; }
    Blob const* file(std::string const& p) const { auto it = dir.find(p); return it == dir.end() ? nullptr : &it->second->cur; }
    void put(std::string const& p, Blob b);     // durable file with this content
    void put(std::string const& p, std::string const& s) { put(p, Blob::from(s)); }
    void erase(std::string const& p) { dir.erase(p); }
    size_t open_count() const { return fds.size(); }
};

// Crash images. mode: 0 everything survives, 1 nothing unsynced survives,
// 2 a prefix per file, 3 arbitrary subset with torn writes, 4 only the process dies.
FS crash_image(FS const& at, unsigned mode, eng::Case& c);
unsigned const CRASH_MODES = 5;
char const* crash_mode_name(unsigned m);

extern FS* fs;                  // current file system
extern uint64_t real_calls;     // intercepted calls that hit non-virtual paths
extern bool trap_real;          // record calls on non-virtual paths
extern std::vector<std::string> real_log;

// Length of the first part of a transfer that other threads may see half done;
// set by concurrent harnesses, 0 for no split.
extern uint64_t (*split_hook)(uint64_t len);

struct Use                      // RAII: make a file system current
{
    FS* old;
    explicit Use(FS& f) : old(fs) { fs = &f; }
    ~Use() { fs = old; }
};

} // simfs
