// Shared by the demonstrations: an in-memory File and a few helpers.
// It never touches a real file.
#ifndef DEMO_HPP
#define DEMO_HPP

#include <nudb/nudb.hpp>
#include <cerrno>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

namespace demo {

using image = std::map<std::string, std::string>;

struct node { std::string live, durable; };

struct fs_t
{
    std::recursive_mutex m;
    std::map<std::string, std::shared_ptr<node>> dir;
    // Called before every operation without the lock held,
    // with its name, path and offset or length; nonzero is an errno.
    std::function<int(std::string const&, std::string const&, std::uint64_t, std::size_t)> hook;
    int handles = 0;

    image live()
    {
        std::lock_guard<std::recursive_mutex> l(m);
        image r;
        for(auto& e : dir) r[e.first] = e.second->live;
        return r;
    }
    // What is left when everything that was not synced is lost
    image durable()
    {
        std::lock_guard<std::recursive_mutex> l(m);
        image r;
        for(auto& e : dir) r[e.first] = e.second->durable;
        return r;
    }
    void put(image const& i)
    {
        std::lock_guard<std::recursive_mutex> l(m);
        dir.clear();
        for(auto& e : i)
        {
            auto n = std::make_shared<node>();
            n->live = n->durable = e.second;
            dir[e.first] = n;
        }
    }
    bool exists(std::string const& p)
    {
        std::lock_guard<std::recursive_mutex> l(m);
        return dir.count(p) != 0;
    }
};

inline fs_t& fs() { static fs_t f; return f; }

class file
{
    std::shared_ptr<node> n_;
    std::string path_;
    bool append_ = false;

    bool op(char const* what, std::string const& path,
        std::uint64_t off, std::size_t len, nudb::error_code& ec) const
    {
        if(fs().hook)
            if(int e = fs().hook(what, path, off, len))
            {
                ec = nudb::error_code{e, boost::system::generic_category()};
                return false;
            }
        return true;
    }

public:
    file() = default;
    file(file const&) = delete;
    file& operator=(file const&) = delete;
    file(file&& o) : n_(std::move(o.n_)), path_(std::move(o.path_)), append_(o.append_) { o.n_ = nullptr; }
    file& operator=(file&& o)
    {
        if(this != &o) { close(); n_ = std::move(o.n_); path_ = o.path_; append_ = o.append_; o.n_ = nullptr; }
        return *this;
    }
    ~file() { close(); }

    bool is_open() const { return n_ != nullptr; }

    void close()
    {
        if(n_)
        {
            std::lock_guard<std::recursive_mutex> l(fs().m);
            --fs().handles;
            n_ = nullptr;
        }
    }

    void create(nudb::file_mode mode, nudb::path_type const& path, nudb::error_code& ec)
    {
        if(! op("create", path, 0, 0, ec)) return;
        std::lock_guard<std::recursive_mutex> l(fs().m);
        if(fs().dir.count(path))
        {
            ec = nudb::error_code{EEXIST, boost::system::generic_category()};
            return;
        }
        n_ = fs().dir[path] = std::make_shared<node>();
        path_ = path;
        append_ = mode == nudb::file_mode::append;
        ++fs().handles;
    }

    void open(nudb::file_mode mode, nudb::path_type const& path, nudb::error_code& ec)
    {
        if(! op("open", path, 0, 0, ec)) return;
        std::lock_guard<std::recursive_mutex> l(fs().m);
        auto it = fs().dir.find(path);
        if(it == fs().dir.end())
        {
            ec = nudb::error_code{ENOENT, boost::system::generic_category()};
            return;
        }
        n_ = it->second;
        path_ = path;
        append_ = mode == nudb::file_mode::append;
        ++fs().handles;
    }

    static void erase(nudb::path_type const& path, nudb::error_code& ec)
    {
        if(fs().hook)
            if(int e = fs().hook("erase", path, 0, 0))
            {
                ec = nudb::error_code{e, boost::system::generic_category()};
                return;
            }
        std::lock_guard<std::recursive_mutex> l(fs().m);
        if(! fs().dir.erase(path))
            ec = nudb::error_code{ENOENT, boost::system::generic_category()};
    }

    std::uint64_t size(nudb::error_code& ec) const
    {
        if(! op("size", path_, 0, 0, ec)) return 0;
        std::lock_guard<std::recursive_mutex> l(fs().m);
        return n_->live.size();
    }

    void read(std::uint64_t offset, void* buffer, std::size_t bytes, nudb::error_code& ec)
    {
        if(! op("read", path_, offset, bytes, ec)) return;
        std::lock_guard<std::recursive_mutex> l(fs().m);
        if(offset + bytes > n_->live.size())
        {
            ec = nudb::error::short_read;
            return;
        }
        std::memcpy(buffer, n_->live.data() + offset, bytes);
    }

    void write(std::uint64_t offset, void const* buffer, std::size_t bytes, nudb::error_code& ec)
    {
        if(! op("write", path_, offset, bytes, ec)) return;
        std::lock_guard<std::recursive_mutex> l(fs().m);
        if(append_)
            offset = n_->live.size();
        if(n_->live.size() < offset + bytes)
            n_->live.resize(offset + bytes);
        std::memcpy(&n_->live[offset], buffer, bytes);
    }

    void sync(nudb::error_code& ec)
    {
        if(! op("sync", path_, 0, 0, ec)) return;
        std::lock_guard<std::recursive_mutex> l(fs().m);
        n_->durable = n_->live;
    }

    void trunc(std::uint64_t length, nudb::error_code& ec)
    {
        if(! op("trunc", path_, length, 0, ec)) return;
        std::lock_guard<std::recursive_mutex> l(fs().m);
        n_->live.resize(length);
    }
};

// The first 8 bytes of the key are its hash, so that a demonstration
// can choose the bucket of each key. The top 48 bits count.
struct key_hash
{
    std::uint64_t seed;
    explicit key_hash(std::uint64_t s) : seed(s) {}
    std::uint64_t operator()(void const* p, std::size_t n) const
    {
        std::uint64_t h = 0;
        auto b = static_cast<unsigned char const*>(p);
        for(std::size_t i = 0; i < n && i < 8; ++i)
            h = h << 8 | b[i];
        return n == 8 ? h ^ seed : h;
    }
};

using store = nudb::basic_store<nudb::xxhasher, file>;
using hstore = nudb::basic_store<key_hash, file>;

inline void fail(char const* fmt, char const* a = "", long b = 0)
{
    std::printf("FAIL: ");
    std::printf(fmt, a, b);
    std::printf("\n");
    std::fflush(stdout);
    std::_Exit(1);
}

inline void ok(nudb::error_code const& ec, char const* what)
{
    if(ec)
        fail("%s", (std::string(what) + ": " + ec.message()).c_str());
}

#define REQUIRE(x) do { if(!(x)) demo::fail("%s (line %ld)", #x, __LINE__); } while(0)

// A key of n bytes made from a number
inline std::string key(std::uint64_t i, std::size_t n = 16)
{
    std::string s(n, 0);
    std::uint64_t x = i * 0x9E3779B97F4A7C15ull + 1;
    for(std::size_t j = 0; j < n; ++j)
    {
        if(j < 8) s[j] = char(i >> (8 * (7 - j)));
        else { x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; s[j] = char(x >> 56); }
    }
    return s;
}

inline std::string val(std::uint64_t i, std::size_t n)
{
    std::string s(n, 0);
    for(std::size_t j = 0; j < n; ++j)
        s[j] = char('a' + (i * 31 + j * 7 + (j >> 8)) % 26);
    return s;
}

template<class Store>
void insert(Store& db, std::string const& k, std::string const& v, nudb::error_code& ec)
{
    ec = {};
    db.insert(k.data(), v.data(), v.size(), ec);
}

// Number of callback calls is returned in `calls`
template<class Store>
std::string fetch(Store& db, std::string const& k, nudb::error_code& ec, int* calls = nullptr)
{
    ec = {};
    std::string r;
    int n = 0;
    db.fetch(k.data(),
        [&](void const* p, std::size_t len)
        {
            r.assign(static_cast<char const*>(p), len);
            ++n;
        }, ec);
    if(calls)
        *calls = n;
    return r;
}

template<class Store>
void expect(Store& db, std::string const& k, std::string const& v, char const* what)
{
    nudb::error_code ec;
    int calls = 0;
    auto const r = fetch(db, k, ec, &calls);
    ok(ec, what);
    if(r != v || calls != 1)
        fail("%s: wrong value", what);
}

template<class Hash = nudb::xxhasher>
void make(std::size_t key_size = 16, std::size_t block = 256, float load = 0.5f,
    std::uint64_t uid = 77, std::uint64_t appnum = 5, std::uint64_t salt = 99)
{
    nudb::error_code ec;
    nudb::create<Hash, file>("d", "k", "l", appnum, uid, salt,
        key_size, block, load, ec);
    ok(ec, "create");
    ec = {};
    file::erase("l", ec);
}

template<class Store>
void open(Store& db)
{
    nudb::error_code ec;
    db.open("d", "k", "l", ec);
    ok(ec, "open");
}

template<class Store>
void close(Store& db)
{
    nudb::error_code ec;
    db.close(ec);
    ok(ec, "close");
}

// Stops the program when it hangs
inline void watchdog(int seconds)
{
    std::thread([seconds]
    {
        std::this_thread::sleep_for(std::chrono::seconds(seconds));
        std::printf("FAIL: still not finished\n");
        std::fflush(stdout);
        std::_Exit(2);
    }).detach();
}

} // demo

#endif
