#include "simfs.hpp"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>
#include <algorithm>
#include <atomic>

extern "C" {
void __tsan_ignore_thread_begin() __attribute__((weak));
void __tsan_ignore_thread_end() __attribute__((weak));
void __tsan_read_range(void*, unsigned long) __attribute__((weak));
void __tsan_write_range(void*, unsigned long) __attribute__((weak));
}

namespace simfs {

FS* fs = nullptr;
uint64_t (*split_hook)(uint64_t) = nullptr;
uint64_t real_calls = 0;
bool trap_real = false;
std::vector<std::string> real_log;

char const* kind_name(Kind k)
{
    static char const* n[] = {"open","create","read","write","sync","trunc","stat","unlink","close","advise","rename"};
    return n[k];
}

size_t Blob::read(uint64_t off, void* p, size_t n) const
{
    if(off >= size) return 0;
    n = (size_t)std::min<uint64_t>(n, size - off);
    auto d = (uint8_t*)p; size_t left = n;
    while(left)
    {
        uint64_t pg = off / 4096, o = off % 4096; size_t m = std::min<size_t>(left, 4096 - o);
        auto it = pages.find(pg);
        if(it == pages.end()) memset(d, 0, m); else memcpy(d, it->second->b + o, m);
        d += m; off += m; left -= m;
    }
    return n;
}
void Blob::write(uint64_t off, void const* p, size_t n)
{
    auto s = (uint8_t const*)p;
    while(n)
    {
        uint64_t pg = off / 4096, o = off % 4096; size_t m = std::min<size_t>(n, 4096 - o);
        static Page const zero{};
        auto it = pages.find(pg);
        if(it == pages.end())
        {
            // holes stay holes
            if(! memcmp(s, zero.b, m)) { s += m; off += m; n -= m; if(off > size) size = off; continue; }
            it = pages.emplace(pg, nullptr).first;
        }
        auto& r = it->second;
        if(! r) { r = std::make_shared<Page>(); memset(r->b, 0, 4096); }
        else if(r.use_count() > 1) r = std::make_shared<Page>(*r);
        memcpy(r->b + o, s, m);
        s += m; off += m; n -= m;
        if(off > size) size = off;
    }
}
void Blob::trunc(uint64_t n)
{
    if(n < size)
    {
        pages.erase(pages.lower_bound((n + 4095) / 4096), pages.end());
        if(n % 4096)
        {
            auto it = pages.find(n / 4096);
            if(it != pages.end())
            {
                if(it->second.use_count() > 1) it->second = std::make_shared<Page>(*it->second);
                memset(it->second->b + n % 4096, 0, 4096 - n % 4096);
            }
        }
    }
    size = n;
}
std::string Blob::str() const { std::string s(size, 0); if(size) read(0, &s[0], size); return s; }
Blob Blob::from(std::string const& s) { Blob b; b.write(0, s.data(), s.size()); b.size = s.size(); return b; }

static bool page_eq(Page const* a, Page const* b, size_t n)
{
    if(a == b) return true;
    static Page zero{};
    return ! memcmp((a ? a : &zero)->b, (b ? b : &zero)->b, n);
}
bool Blob::prefix_equal(Blob const& o, uint64_t n) const
{
    if(size < n || o.size < n) return false;
    auto chk = [&](uint64_t pg)
    {
        if(pg * 4096 >= n) return true;
        auto a = pages.find(pg), b = o.pages.find(pg);
        return page_eq(a == pages.end() ? nullptr : a->second.get(), b == o.pages.end() ? nullptr : b->second.get(),
            (size_t)std::min<uint64_t>(4096, n - pg * 4096));
    };
    for(auto& p : pages) if(! chk(p.first)) return false;
    for(auto& p : o.pages) if(! chk(p.first)) return false;
    return true;
}
bool Blob::operator==(Blob const& o) const { return size == o.size && prefix_equal(o, size); }

FS FS::clone() const
{
    FS r;
    for(auto& d : dir) r.dir[d.first] = std::make_shared<Inode>(*d.second);
    r.op_limit = op_limit;
    return r;
}
void FS::put(std::string const& p, Blob b)
{
    auto in = std::make_shared<Inode>();
    in->path = p; in->cur = b; in->dur = b;
    dir[p] = in;
}

char const* crash_mode_name(unsigned m)
{
    static char const* n[] = {"all-survive", "unsynced-lost", "prefix", "torn-subset", "process-killed"};
    return n[m];
}

static void apply(Blob& b, PendOp const& o)
{
    if(o.trunc) b.trunc(o.off); else b.write(o.off, o.data.data(), o.data.size());
}

FS crash_image(FS const& at, unsigned mode, eng::Case& c)
{
    if(mode == 4) return at.clone();        // the cache survives and is still unsynced
    FS r;
    for(auto& d : at.dir)
    {
        Inode const& s = *d.second;
        auto in = std::make_shared<Inode>();
        in->path = s.path;
        bool const log = d.first.find(".log") != std::string::npos;
        Blob b = s.dur;
        if(mode == 0) b = s.cur;
        else if(mode == 1) ;
        else
        {
            size_t const np = s.pending.size();
            if(mode == 2 || log)
            {
                size_t k = c.draw(np + 1);
                for(size_t i = 0; i < k; ++i) apply(b, *s.pending[i]);
                // torn last operation: a byte prefix of it
                if(k < np && ! s.pending[k]->trunc && ! s.pending[k]->data.empty() && c.chance(1, 2))
                {
                    PendOp o = *s.pending[k];
                    o.data.resize(c.draw(o.data.size()));
                    apply(b, o);
                }
            }
            else
            {
                for(size_t i = 0; i < np; ++i)
                {
                    PendOp const& o = *s.pending[i];
                    unsigned w = (unsigned)c.draw(3);       // keep, drop, tear
                    if(w == 0) apply(b, o);
                    else if(w == 2 && ! o.trunc)
                    {
                        // sectors of 512 bytes survive independently
                        uint64_t off = o.off, end = o.off + o.data.size();
                        uint64_t bits = 0; unsigned nb = 0;
                        while(off < end)
                        {
                            uint64_t e = std::min(end, (off / 512 + 1) * 512);
                            if(nb == 0) { bits = c.u64(); nb = 64; }
                            bool keep = ! (bits & 1); bits >>= 1; --nb;
                            if(keep) b.write(off, o.data.data() + (off - o.off), e - off);
                            off = e;
                        }
                    }
                }
            }
        }
        in->cur = b; in->dur = b;
        r.dir[d.first] = in;
    }
    r.op_limit = at.op_limit;
    return r;
}

static bool isv(char const* p) { return p && ! strncmp(p, PREFIX, strlen(PREFIX)); }
static bool isvfd(int fd) { return fd >= (1 << 20); }

static Act before(Kind k, std::string const* path, uint64_t off, uint64_t len, int fd, uint64_t fsize)
{
    if(! fs) { fprintf(stderr, "simfs: no current file system\n"); abort(); }
    ++fs->counts[k];
    Op o{fs->nops++, k, path, off, len, fd, fsize};
    if(fs->nops > fs->op_limit)
    {
        fprintf(stderr, "HANG: unbounded file I/O (%s of %s)\n", kind_name(k), path->c_str());
        _exit(98);
    }
    static bool const trace = getenv("SIM_TRACE") != nullptr;
    if(trace) fprintf(stderr, "%s %s off=%llu len=%llu size=%llu\n", kind_name(k), path->c_str(), (unsigned long long)off, (unsigned long long)len, (unsigned long long)fsize);
    if(fs->hook) return fs->hook(o);
    return {};
}
static void done(Kind k, std::string const* path, uint64_t off, uint64_t len, int fd, uint64_t fsize)
{
    if(fs->after) { Op o{fs->nops - 1, k, path, off, len, fd, fsize}; fs->after(o); }
}

// Tell the race detector which caller memory a transfer touches
static void mark(void const* p, size_t n, bool write)
{
    __tsan_ignore_thread_end();
    if(write) __tsan_write_range(const_cast<void*>(p), n); else __tsan_read_range(const_cast<void*>(p), n);
    __tsan_ignore_thread_begin();
}

static int v_open(char const* p, int flags)
{
    eng::sched_point(); eng::Quiet quiet;
    std::string path = p;
    auto it = fs->dir.find(path);
    bool const ex = it != fs->dir.end();
    bool const creating = (flags & O_CREAT) && ! ex;
    auto a = before(creating ? CREATE : OPEN, &path, 0, flags, -1, ex ? it->second->cur.size : 0);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    std::shared_ptr<Inode> in;
    if(ex)
    {
        if((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        in = it->second;
        if(flags & O_TRUNC && (flags & O_ACCMODE) != O_RDONLY)
        {
            in->pending.push_back(std::make_shared<PendOp>(PendOp{true, 0, {}}));
            in->cur.trunc(0);
        }
    }
    else
    {
        if(! (flags & O_CREAT)) { errno = ENOENT; return -1; }
        in = std::make_shared<Inode>(); in->path = path;
        fs->dir[path] = in;
    }
    int fd = fs->next_fd++;
    fs->fds[fd] = OpenFile{in, flags, 0};
    done(creating ? CREATE : OPEN, &in->path, 0, flags, fd, in->cur.size);
    return fd;
}
static OpenFile* of(int fd)
{
    eng::Quiet quiet;
    if(! fs) return nullptr;
    auto it = fs->fds.find(fd);
    if(it == fs->fds.end()) { errno = EBADF; return nullptr; }
    return &it->second;
}
static ssize_t v_pread(int fd, void* buf, size_t n, off_t off)
{
    eng::sched_point(); eng::Quiet quiet;
    auto f = of(fd); if(! f) return -1;
    if(off < 0) { errno = EINVAL; return -1; }
    auto in = f->in;
    auto a = before(READ, &in->path, off, n, fd, in->cur.size);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    if(a.t == Act::PARTIAL) n = std::min<uint64_t>(n, std::max<uint64_t>(a.n, 1));
    n = std::min<size_t>(n, 0x7ffff000);            // as Linux does
    if((f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    size_t r;
    uint64_t const first = split_hook ? split_hook(n) : 0;
    if(first && first < n)
    {
        r = in->cur.read(off, buf, first);
        eng::sched_point();
        if(r == first) r += in->cur.read(off + first, (char*)buf + first, n - first);
    }
    else r = in->cur.read(off, buf, n);
    fs->bytes_read += r;
    if(__tsan_write_range) mark(buf, r, true);
    done(READ, &in->path, off, r, fd, in->cur.size);
    return r;
}
static ssize_t v_pwrite(int fd, void const* buf, size_t n, off_t off)
{
    eng::sched_point(); eng::Quiet quiet;
    auto f = of(fd); if(! f) return -1;
    if(off < 0) { errno = EINVAL; return -1; }
    auto in = f->in;
    if(f->flags & O_APPEND) off = in->cur.size;     // Linux behaviour
    auto a = before(WRITE, &in->path, off, n, fd, in->cur.size);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    if(a.t == Act::PARTIAL) n = std::min<uint64_t>(n, std::max<uint64_t>(a.n, 1));
    n = std::min<size_t>(n, 0x7ffff000);            // as Linux does
    if((f->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    if(n == 0) return 0;
    if(fs->lean) ; else in->pending.push_back(std::make_shared<PendOp>(PendOp{false, (uint64_t)off, std::string((char const*)buf, n)}));
    uint64_t const sz = in->cur.size;
    if(__tsan_read_range) mark(buf, n, false);
    uint64_t const first = split_hook ? split_hook(n) : 0;
    if(first && first < n)
    {
        in->cur.write(off, buf, first);
        eng::sched_point();
        in->cur.write(off + first, (char const*)buf + first, n - first);
    }
    else in->cur.write(off, buf, n);
    done(WRITE, &in->path, off, n, fd, sz);
    return n;
}
static int v_sync(int fd)
{
    eng::sched_point(); eng::Quiet quiet;
    auto f = of(fd); if(! f) return -1;
    auto in = f->in;
    auto a = before(SYNC, &in->path, 0, 0, fd, in->cur.size);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    in->dur = in->cur; in->pending.clear();
    done(SYNC, &in->path, 0, 0, fd, in->cur.size);
    return 0;
}
static int v_trunc(std::shared_ptr<Inode> in, int fd, off_t len)
{
    eng::sched_point(); eng::Quiet quiet;
    auto a = before(TRUNC, &in->path, len, 0, fd, in->cur.size);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    if(len < 0) { errno = EINVAL; return -1; }
    uint64_t const sz = in->cur.size;
    in->pending.push_back(std::make_shared<PendOp>(PendOp{true, (uint64_t)len, {}}));
    in->cur.trunc(len);
    done(TRUNC, &in->path, len, 0, fd, sz);
    return 0;
}
static void fillstat(struct stat* st, Inode const& in)
{
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0644; st->st_size = in.cur.size; st->st_blksize = 4096; st->st_nlink = 1;
    st->st_blocks = (in.cur.size + 511) / 512;
}
static int v_fstat(int fd, struct stat* st)
{
    eng::sched_point(); eng::Quiet quiet;
    auto f = of(fd); if(! f) return -1;
    auto in = f->in;
    auto a = before(STAT, &in->path, 0, 0, fd, in->cur.size);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    fillstat(st, *in);
    done(STAT, &in->path, 0, 0, fd, in->cur.size);
    return 0;
}
static int v_stat(char const* p, struct stat* st)
{
    eng::sched_point(); eng::Quiet quiet;
    std::string path = p;
    auto a = before(STAT, &path, 0, 0, -1, 0);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    auto it = fs->dir.find(path);
    if(it == fs->dir.end()) { errno = ENOENT; return -1; }
    fillstat(st, *it->second);
    return 0;
}
static int v_unlink(char const* p)
{
    eng::sched_point(); eng::Quiet quiet;
    std::string path = p;
    auto a = before(UNLINK, &path, 0, 0, -1, 0);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    auto it = fs->dir.find(path);
    if(it == fs->dir.end()) { errno = ENOENT; return -1; }
    fs->dir.erase(it);
    done(UNLINK, &path, 0, 0, -1, 0);
    return 0;
}
static int v_close(int fd)
{
    eng::sched_point(); eng::Quiet quiet;
    auto f = of(fd); if(! f) return -1;
    auto in = f->in;
    auto a = before(CLOSE, &in->path, 0, 0, fd, in->cur.size);
    fs->fds.erase(fd);
    if(a.t == Act::ERR) { errno = a.err; return -1; }
    done(CLOSE, &in->path, 0, 0, fd, in->cur.size);
    return 0;
}
static int v_rename(char const* a, char const* b)
{
    eng::sched_point(); eng::Quiet quiet;
    std::string pa = a;
    auto ac = before(RENAME, &pa, 0, 0, -1, 0);
    if(ac.t == Act::ERR) { errno = ac.err; return -1; }
    auto it = fs->dir.find(pa);
    if(it == fs->dir.end()) { errno = ENOENT; return -1; }
    auto in = it->second; fs->dir.erase(it); in->path = b; fs->dir[b] = in;
    return 0;
}

static void real(char const* what, char const* p)
{
    if(! trap_real) return;
    ++real_calls;
    if(real_log.size() < 20) real_log.push_back(std::string(what) + " " + (p ? p : ""));
}

} // simfs

using namespace simfs;

extern "C" {
#define DECLV(ret, name, args) ret __real_##name args; ret __wrap_##name args
int __real_open(char const*, int, ...); int __real_open64(char const*, int, ...); int __real_openat(int, char const*, int, ...);
int __wrap_open(char const* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if(isv(p)) return v_open(p, fl);
    real("open", p);
    return __real_open(p, fl, m);
}
int __wrap_open64(char const* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if(isv(p)) return v_open(p, fl);
    real("open64", p);
    return __real_open64(p, fl, m);
}
int __wrap_openat(int d, char const* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if(isv(p)) return v_open(p, fl);
    real("openat", p);
    return __real_openat(d, p, fl, m);
}
int __real_creat(char const*, mode_t);
int __wrap_creat(char const* p, mode_t m) { if(isv(p)) return v_open(p, O_CREAT | O_WRONLY | O_TRUNC); real("creat", p); return __real_creat(p, m); }
DECLV(ssize_t, pread, (int fd, void* b, size_t n, off_t o)) { return isvfd(fd) ? v_pread(fd, b, n, o) : __real_pread(fd, b, n, o); }
DECLV(ssize_t, pread64, (int fd, void* b, size_t n, off_t o)) { return isvfd(fd) ? v_pread(fd, b, n, o) : __real_pread64(fd, b, n, o); }
DECLV(ssize_t, pwrite, (int fd, void const* b, size_t n, off_t o)) { return isvfd(fd) ? v_pwrite(fd, b, n, o) : __real_pwrite(fd, b, n, o); }
DECLV(ssize_t, pwrite64, (int fd, void const* b, size_t n, off_t o)) { return isvfd(fd) ? v_pwrite(fd, b, n, o) : __real_pwrite64(fd, b, n, o); }
DECLV(ssize_t, read, (int fd, void* b, size_t n))
{
    if(! isvfd(fd)) return __real_read(fd, b, n);
    auto f = of(fd); if(! f) return -1;
    auto r = v_pread(fd, b, n, f->pos); if(r > 0) f->pos += r; return r;
}
DECLV(ssize_t, write, (int fd, void const* b, size_t n))
{
    if(! isvfd(fd)) return __real_write(fd, b, n);
    auto f = of(fd); if(! f) return -1;
    if(f->flags & O_APPEND) f->pos = f->in->cur.size;
    auto r = v_pwrite(fd, b, n, f->pos); if(r > 0) f->pos += r; return r;
}
static ssize_t vec(int fd, struct iovec const* v, int n, off_t o, bool wr, bool adv)
{
    ssize_t t = 0;
    auto f = of(fd); if(! f) return -1;
    if(adv) o = f->pos;
    for(int i = 0; i < n; ++i)
    {
        if(! v[i].iov_len) continue;
        ssize_t r = wr ? v_pwrite(fd, v[i].iov_base, v[i].iov_len, o) : v_pread(fd, v[i].iov_base, v[i].iov_len, o);
        if(r < 0) { if(t) break; return -1; }
        t += r; o += r;
        if((size_t)r < v[i].iov_len) break;
    }
    if(adv && (f = of(fd))) f->pos = o;
    return t;
}
DECLV(ssize_t, readv, (int fd, struct iovec const* v, int n)) { return isvfd(fd) ? vec(fd, v, n, 0, false, true) : __real_readv(fd, v, n); }
DECLV(ssize_t, writev, (int fd, struct iovec const* v, int n)) { return isvfd(fd) ? vec(fd, v, n, 0, true, true) : __real_writev(fd, v, n); }
DECLV(ssize_t, preadv, (int fd, struct iovec const* v, int n, off_t o)) { return isvfd(fd) ? vec(fd, v, n, o, false, false) : __real_preadv(fd, v, n, o); }
DECLV(ssize_t, pwritev, (int fd, struct iovec const* v, int n, off_t o)) { return isvfd(fd) ? vec(fd, v, n, o, true, false) : __real_pwritev(fd, v, n, o); }
DECLV(off_t, lseek, (int fd, off_t o, int w))
{
    if(! isvfd(fd)) return __real_lseek(fd, o, w);
    auto f = of(fd); if(! f) return -1;
    if(w == SEEK_SET) f->pos = o; else if(w == SEEK_CUR) f->pos += o; else f->pos = f->in->cur.size + o;
    return f->pos;
}
DECLV(int, fsync, (int fd)) { return isvfd(fd) ? v_sync(fd) : __real_fsync(fd); }
DECLV(int, fdatasync, (int fd)) { return isvfd(fd) ? v_sync(fd) : __real_fdatasync(fd); }
DECLV(int, ftruncate, (int fd, off_t n)) { if(! isvfd(fd)) return __real_ftruncate(fd, n); auto f = of(fd); return f ? v_trunc(f->in, fd, n) : -1; }
DECLV(int, ftruncate64, (int fd, off_t n)) { if(! isvfd(fd)) return __real_ftruncate64(fd, n); auto f = of(fd); return f ? v_trunc(f->in, fd, n) : -1; }
DECLV(int, truncate, (char const* p, off_t n))
{
    if(! isv(p)) { real("truncate", p); return __real_truncate(p, n); }
    auto it = fs->dir.find(p); if(it == fs->dir.end()) { errno = ENOENT; return -1; }
    return v_trunc(it->second, -1, n);
}
DECLV(int, fallocate, (int fd, int m, off_t o, off_t n)) { if(! isvfd(fd)) return __real_fallocate(fd, m, o, n); auto f = of(fd); if(! f) return -1; if(m) { errno = EOPNOTSUPP; return -1; } return (uint64_t)(o + n) > f->in->cur.size ? v_trunc(f->in, fd, o + n) : 0; }
DECLV(int, posix_fallocate, (int fd, off_t o, off_t n)) { if(! isvfd(fd)) return __real_posix_fallocate(fd, o, n); auto f = of(fd); if(! f) return EBADF; return (uint64_t)(o + n) > f->in->cur.size ? (v_trunc(f->in, fd, o + n) ? errno : 0) : 0; }
DECLV(int, fstat, (int fd, struct stat* st)) { return isvfd(fd) ? v_fstat(fd, st) : __real_fstat(fd, st); }
DECLV(int, stat, (char const* p, struct stat* st)) { if(isv(p)) return v_stat(p, st); real("stat", p); return __real_stat(p, st); }
DECLV(int, lstat, (char const* p, struct stat* st)) { if(isv(p)) return v_stat(p, st); real("lstat", p); return __real_lstat(p, st); }
DECLV(int, access, (char const* p, int m)) { if(isv(p)) { struct stat st; return v_stat(p, &st); } real("access", p); return __real_access(p, m); }
DECLV(int, unlink, (char const* p)) { if(isv(p)) return v_unlink(p); real("unlink", p); return __real_unlink(p); }
DECLV(int, unlinkat, (int d, char const* p, int f)) { if(isv(p)) return v_unlink(p); real("unlinkat", p); return __real_unlinkat(d, p, f); }
DECLV(int, remove, (char const* p)) { if(isv(p)) return v_unlink(p); real("remove", p); return __real_remove(p); }
DECLV(int, rename, (char const* a, char const* b)) { if(isv(a)) return v_rename(a, b); real("rename", a); return __real_rename(a, b); }
DECLV(int, close, (int fd)) { return isvfd(fd) ? v_close(fd) : __real_close(fd); }
DECLV(int, posix_fadvise, (int fd, off_t o, off_t n, int adv))
{
    if(! isvfd(fd)) return __real_posix_fadvise(fd, o, n, adv);
    auto f = of(fd); if(! f) return EBADF;
    eng::Quiet quiet;
    auto a = before(ADVISE, &f->in->path, o, n, fd, f->in->cur.size);
    if(a.t == Act::ERR) return a.err;       // errno is not set
    return 0;
}
}
