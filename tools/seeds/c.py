import os
exec(open(os.path.join(os.path.dirname(__file__), "a.py")).read().split("SEEDS = [")[0])
TOOL = "tools/nudb.cpp"

SEEDS = [
dict(id="C06-stalebucket", property="C06",
 needs="a fetch that has to wait for the store's lock while the end of a commit publishes new buckets",
 what_it_breaks="the bucket index is computed before the lock is taken, so after a split the fetch looks in the old bucket and misses a present key",
 edits=[(ST, """        hash(key, s_->kh.key_size, s_->hasher);
    shared_lock_type m{m_};
    {
        auto iter""", """        hash(key, s_->kh.key_size, s_->hasher);
    auto const n = bucket_index(h, buckets_, modulus_);
    shared_lock_type m{m_};
    {
        auto iter"""), (ST, """cont:
    auto const n = bucket_index(h, buckets_, modulus_);
""", """cont:
""")],
 demo=H + r'''
#include <atomic>
#include <chrono>
static void nap(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
int main()
{
    watchdog(100);
    make<key_hash>(16, 256, 0.5f);
    nudb::context ctx;
    hstore db(ctx);
    open(db);
    nudb::error_code ec;
    // Odd hashes move from bucket 0 to bucket 1 with the first split
    auto const moved = key(std::uint64_t(1) << 16);
    insert(db, moved, val(1, 30), ec);
    ok(ec, "insert");
    ctx.flush();
    for(int i = 2; i < 40; ++i)
    {
        insert(db, key(std::uint64_t(i) << 16), val(i, 30), ec);
        ok(ec, "insert");
    }
    std::atomic<int> phase{0};
    // The reader of a buffered value keeps the lock while its callback runs
    std::thread r1([&]
    {
        nudb::error_code e;
        db.fetch(key(std::uint64_t(2) << 16).data(), [&](void const*, std::size_t)
        {
            phase = 1;
            while(phase < 3) nap(5);
        }, e);
    });
    while(phase < 1) nap(5);
    std::thread w([&] { ctx.flush(); });
    nap(400);   // the commit waits for the lock
    std::string got;
    nudb::error_code fe;
    std::thread r2([&] { got = fetch(db, moved, fe); });
    nap(400);   // and the second reader for the commit
    phase = 3;
    r1.join(); w.join(); r2.join();
    ok(fe, "fetch of a present key");
    if(got != val(1, 30))
        fail("wrong value");
    close(db);
}
'''),
dict(id="C07-when", property="C07",
 needs="an insert and the start of a commit at the same time",
 what_it_breaks="the rate of insertion is computed after the lock is released, a data race with the commit on its start time and on the buffered data",
 edits=[(ST, """    s_->p1.insert(h, key, data, size);
    auto const now""", """    s_->p1.insert(h, key, data, size);
    m.unlock();
    auto const now"""), (ST, """        s_->rate && rate > s_->rate && work > s_->burst;
    m.unlock();
""", """        s_->rate && rate > s_->rate && work > s_->burst;
""")],
 demo=H + r'''
#include <atomic>
int main()
{
    make(16, 4096, 0.5f);
    nudb::context ctx;
    store db(ctx);
    open(db);
    std::atomic<bool> done{false};
    std::thread t([&] { while(! done) ctx.flush(); });
    nudb::error_code ec;
    for(int i = 0; i < 20000; ++i)
    {
        insert(db, key(i), val(i, 20), ec);
        ok(ec, "insert");
    }
    done = true;
    t.join();
    close(db);
}
''', flags="-O1 -fsanitize=thread",
 run="TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 200 setarch -R ./demo"),
dict(id="C04-readerr", property="C04",
 needs="a read of the log file that fails during recovery of a commit which had begun to write the key file",
 what_it_breaks="an I/O error in the log file is taken for its end, so recovery reports success, discards the log and leaves buckets of the lost commit in the key file",
 edits=[(REC, """            // Log file is incomplete, so roll back.
            if(ec == error::short_read)
            {""", """            // Log file is incomplete, so roll back.
            if(ec)
            {"""), (REC, """                ec = {};
                break;
            }
            if(ec)
                return;
            nsize_t n;""", """                ec = {};
                break;
            }
            nsize_t n;""")],
 demo=H + r'''
int main()
{
    make(16, 256, 0.5f);
    image crash;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        nudb::error_code ec;
        for(int i = 0; i < 100; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        for(int i = 100; i < 200; ++i)
            insert(db, key(i), val(i, 30), ec);
        fs().hook = [&](std::string const& op, std::string const& p, std::uint64_t, std::size_t)
        {
            if(op == "trunc" && p == "l" && crash.empty())
                crash = fs().live();
            return 0;
        };
        ctx.flush();
        fs().hook = nullptr;
        close(db);
    }
    int n = 0;
    for(int at = 1; at < 30; ++at)
    {
        fs().put(crash);
        int k = 0;
        fs().hook = [&](std::string const& op, std::string const& p, std::uint64_t, std::size_t)
        {
            return op == "read" && p == "l" && ++k == at ? EIO : 0;
        };
        nudb::error_code ec;
        nudb::recover<nudb::xxhasher, file>("d", "k", "l", ec);
        fs().hook = nullptr;
        if(k < at)
            break;
        ++n;
        if(! ec)
            fail("recover did not report that the log file could not be read");
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 100; ++i)
            expect(db, key(i), val(i, 30), "fetch after recovery");
        close(db);
    }
    REQUIRE(n > 1);
}
'''),
dict(id="C03-emptybucket", property="C03",
 needs="a crash after a commit wrote the key file, where one of its buckets was empty before",
 what_it_breaks="buckets that were empty are not written to the log, so rolling back leaves entries for values that were cut off the data file",
 edits=[(ST, """            // Log Record
            auto os = w.prepare(
                field<std::uint64_t>::size +    // Index""", """            // Nothing to restore
            if(e.second.empty() && e.first >= 8)
                continue;
            // Log Record
            auto os = w.prepare(
                field<std::uint64_t>::size +    // Index""")],
 demo=H + r'''
int main()
{
    make(16, 256, 0.1f);
    image crash;
    nudb::error_code ec;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 20; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        for(int i = 20; i < 40; ++i)
            insert(db, key(i), val(i, 30), ec);
        fs().hook = [&](std::string const& op, std::string const& p, std::uint64_t, std::size_t)
        {
            if(op == "trunc" && p == "l" && crash.empty())
                crash = fs().live();
            return 0;
        };
        ctx.flush();
        fs().hook = nullptr;
        close(db);
    }
    fs().put(crash);
    nudb::context ctx;
    store db(ctx);
    open(db);
    for(int i = 0; i < 20; ++i)
        expect(db, key(i), val(i, 30), "fetch after the crash");
    for(int i = 20; i < 40; ++i)
    {
        fetch(db, key(i), ec);
        if(ec != nudb::error::key_not_found)
            fail("fetch of a key of the lost commit: %s", ec.message().c_str());
        insert(db, key(i), val(i, 40), ec);
        ok(ec, "insert of a key of the lost commit");
    }
    close(db);
}
'''),
dict(id="C27-warmcache", property="C27",
 needs="a commit after which nothing more is inserted",
 what_it_breaks="the buckets of the last commit stay in memory while the store is idle",
 edits=[(ST, """    // might get blocked longer due to the extra I/O.
    m.lock();
    s_->c1.clear();
""", """    // might get blocked longer due to the extra I/O.
    m.lock();
    if(! s_->p1.empty())
        s_->c1.clear();
""")],
 demo=r'''
#include <malloc.h>
#include <new>
#include <atomic>
#include <cstdlib>
static std::atomic<long> live_bytes{0};
void* operator new(std::size_t n) { void* p = std::malloc(n); if(! p) throw std::bad_alloc(); live_bytes += malloc_usable_size(p); return p; }
void* operator new[](std::size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { if(p) live_bytes -= malloc_usable_size(p); std::free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
#include <nudb/nudb.hpp>
#include <cstdio>
#include <cstring>
#include <unistd.h>
int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher>("d", "k", "l", 1, 2, 3, 8, 4096, 0.5f, ec);
    if(ec) return 3;
    nudb::context ctx;
    nudb::store db(ctx);
    db.open("d", "k", "l", ec);
    if(ec) return 3;
    long const before = live_bytes;
    for(std::uint64_t i = 0; i < 50000; ++i)
    {
        char v[20] = "value";
        db.insert(&i, v, sizeof v, ec);
        if(ec) return 3;
    }
    ctx.flush();
    ctx.flush();
    long const after = live_bytes;
    std::printf("%ld bytes more than before the commit\n", after - before);
    db.close(ec);
    // 50000 buckets entries in over 500 blocks of 4096 bytes
    return after - before > 1000000;
}
'''),
dict(id="C28-truncunderlock", property="C28",
 needs="a device that takes long to truncate or sync the log file while other threads use the store",
 what_it_breaks="the store's lock is held while the log file is truncated and synced, so fetches and inserts wait for the device",
 edits=[(ST, """    s_->kf.sync(ec);
    if(ec)
        return;
    s_->lf.trunc(0, ec);""", """    s_->kf.sync(ec);
    if(ec)
        return;
    m.lock();
    s_->lf.trunc(0, ec);"""), (ST, """    // might get blocked longer due to the extra I/O.
    m.lock();
""", """    // might get blocked longer due to the extra I/O.
""")],
 demo=H + r'''
#include <chrono>
int main()
{
    watchdog(100);
    make(16, 256, 0.5f);
    nudb::context ctx;
    store db(ctx);
    open(db);
    nudb::error_code ec;
    for(int i = 0; i < 50; ++i)
        insert(db, key(i), val(i, 30), ec);
    std::mutex m;
    std::condition_variable cv;
    bool slow = false, done = false, late = false;
    fs().hook = [&](std::string const& op, std::string const& p, std::uint64_t, std::size_t)
    {
        if(p == "l" && op == "trunc")
        {
            std::unique_lock<std::mutex> l(m);
            slow = true;
            cv.notify_all();
            if(! cv.wait_for(l, std::chrono::seconds(5), [&] { return done; }))
                late = true;
        }
        return 0;
    };
    std::thread w([&] { ctx.flush(); });
    {
        std::unique_lock<std::mutex> l(m);
        cv.wait(l, [&] { return slow; });
    }
    expect(db, key(7), val(7, 30), "fetch while the log file is truncated");
    nudb::error_code e2;
    insert(db, key(100), val(100, 30), e2);
    ok(e2, "insert while the log file is truncated");
    {
        std::lock_guard<std::mutex> l(m);
        done = true;
        cv.notify_all();
    }
    w.join();
    fs().hook = nullptr;
    if(late)
        fail("fetch and insert waited for the log file");
    close(db);
}
'''),
dict(id="C29-pow2", property="C29",
 needs="a key file with more than 2^31 buckets",
 what_it_breaks="the modulus computed when a database with more than 2^31 buckets is opened does not fit the type it is computed in, and every key is looked up in the wrong bucket",
 edits=[(FMT, "    return T{1}<<y;\n", "    // Bucket counts fit in 32 bits\n    std::uint32_t const one = 1;\n    return static_cast<T>(one<<(y & 31));\n")],
 demo=r'''
#include <nudb/nudb.hpp>
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <string>
// Sparse files in memory
struct node { std::map<std::uint64_t, std::string> page; std::uint64_t size = 0; };
static std::map<std::string, std::shared_ptr<node>> dir;
static std::mutex mx;
struct file
{
    std::shared_ptr<node> n;
    file() = default;
    file(file&&) = default;
    file& operator=(file&&) = default;
    bool is_open() const { return !! n; }
    void close() { n.reset(); }
    void create(nudb::file_mode, nudb::path_type const& p, nudb::error_code& ec)
    { if(dir.count(p)) { ec = nudb::error_code{EEXIST, boost::system::generic_category()}; return; } n = dir[p] = std::make_shared<node>(); }
    void open(nudb::file_mode, nudb::path_type const& p, nudb::error_code& ec)
    { if(! dir.count(p)) { ec = nudb::error_code{ENOENT, boost::system::generic_category()}; return; } n = dir[p]; }
    static void erase(nudb::path_type const& p, nudb::error_code& ec)
    { if(! dir.erase(p)) ec = nudb::error_code{ENOENT, boost::system::generic_category()}; }
    std::uint64_t size(nudb::error_code&) const { return n->size; }
    void read(std::uint64_t o, void* b, std::size_t len, nudb::error_code& ec)
    {
        if(o + len > n->size) { ec = nudb::error::short_read; return; }
        auto p = static_cast<char*>(b);
        for(; len; --len, ++o, ++p)
        {
            auto it = n->page.find(o / 4096);
            *p = it == n->page.end() ? 0 : it->second[o % 4096];
        }
    }
    void write(std::uint64_t o, void const* b, std::size_t len, nudb::error_code&)
    {
        auto p = static_cast<char const*>(b);
        for(; len; --len, ++o, ++p)
        {
            auto& s = n->page[o / 4096];
            if(s.empty()) s.assign(4096, 0);
            s[o % 4096] = *p;
            if(o >= n->size) n->size = o + 1;
        }
    }
    void sync(nudb::error_code&) {}
    void trunc(std::uint64_t len, nudb::error_code&) { n->size = len; }
};
int main()
{
    using store = nudb::basic_store<nudb::xxhasher, file>;
    nudb::error_code ec;
    nudb::create<nudb::xxhasher, file>("d", "k", "l", 1, 2, 3, 8, 128, 0.5f, ec);
    if(ec) return 3;
    // (2^31 + 10) empty buckets
    dir["k"]->size = ((1ull << 31) + 11) * 128;
    char v[20] = "a value of 20 bytes";
    nudb::context ctx;
    store db(ctx);
    db.open("d", "k", "l", ec);
    if(ec) return 3;
    for(std::uint64_t i = 0; i < 200; ++i) { db.insert(&i, v, 20, ec); if(ec) return 3; }
    ctx.flush();
    // not more than a few of 2^31 buckets hold more than one of the keys
    std::size_t used = dir["k"]->page.size();
    db.close(ec);
    db.open("d", "k", "l", ec);
    if(ec) { std::printf("FAIL: open\n"); return 1; }
    int bad = used < 150;
    for(std::uint64_t i = 0; i < 200; ++i)
    {
        bool found = false;
        db.fetch(&i, [&](void const*, std::size_t) { found = true; }, ec);
        if(ec || ! found) ++bad;
        ec = {};
    }
    db.close(ec);
    if(bad) std::printf("FAIL: %zu key file pages in use, %d problems\n", used, bad);
    return bad != 0;
}
'''),
dict(id="C13-spillentries", property="C13",
 needs="an entry with a wrong size or hash in a spill record, verified without a buffer",
 what_it_breaks="the unbuffered verify checks the entries of a bucket but not those of its spill records",
 edits=[(VF, """                for(nkey_t i = 0; i < b.size(); ++i)
                {
                    auto const e = b[i];
                    df.read(e.offset, pd, dh_len, ec);""", """                // Spills are checked with the data file
                for(nkey_t i = 0; ! spill && i < b.size(); ++i)
                {
                    auto const e = b[i];
                    df.read(e.offset, pd, dh_len, ec);""")],
 demo=H + r'''
static void save(char const* name, std::string const& s)
{
    std::FILE* f = std::fopen(name, "wb");
    if(! f || std::fwrite(s.data(), 1, s.size(), f) != s.size()) std::_Exit(3);
    std::fclose(f);
}
int main()
{
    make(16, 256, 0.99f);
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        nudb::error_code ec;
        for(int i = 0; i < 60; ++i)
        {
            insert(db, key(i), val(i, 30), ec);
            ok(ec, "insert");
            if(i % 10 == 9)
                ctx.flush();
        }
        close(db);
    }
    auto live = fs().live();
    nudb::error_code ec;
    nudb::verify_info info;
    save("d", live["d"]);
    save("k", live["k"]);
    nudb::verify<nudb::xxhasher>(info, "d", "k", 0, nudb::no_progress{}, ec);
    ok(ec, "verify of a good database");
    REQUIRE(info.spill_count > 0);
    // Each spill record in use has a size of 0, then 2 bytes, then the bucket
    auto const& d = live["d"];
    auto be = [&](std::size_t at, int n) { std::uint64_t v = 0; while(n--) v = v << 8 | (unsigned char)d[at++]; return v; };
    int caught = 0, spills = 0;
    for(std::size_t at = 92; at < d.size();)
    {
        auto const size = be(at, 6);
        if(size) { at += 6 + 16 + size; continue; }
        ++spills;
        auto bad = d;
        bad[at + 8 + 8 + 11] ^= 1;      // size in the first entry
        save("d", bad);
        ec = {};
        nudb::verify<nudb::xxhasher>(info, "d", "k", 0, nudb::no_progress{}, ec);
        if(ec)
            ++caught;
        at += 8 + be(at + 6, 2);
    }
    REQUIRE(spills > 0);
    if(! caught)
        fail("verify accepted a wrong size in a spill record");
}
'''),
dict(id="C16-order", property="C16",
 needs="a power failure between the end of a rekey's log file and the sync of its files",
 what_it_breaks="the log file is erased before the new files are synced, so after a power failure an incomplete key file is taken for a good one",
 edits=[(RK, """    lf.close();
    File::erase(log_path, ec);
    if(ec)
        return;
}""", """}"""), (RK, """    dw.flush(ec);
""", """    dw.flush(ec);
    if(ec)
        return;
    lf.close();
    File::erase(log_path, ec);
""")],
 demo=H + r'''
int main()
{
    make(16, 256, 0.5f);
    nudb::error_code ec;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 300; ++i)
            insert(db, key(i), val(i, 30), ec);
        close(db);
    }
    file::erase("k", ec);
    ok(ec, "erase");
    std::vector<image> crashes;
    fs().hook = [&](std::string const&, std::string const&, std::uint64_t, std::size_t)
    {
        crashes.push_back(fs().durable());
        return 0;
    };
    nudb::rekey<nudb::xxhasher, file>("d", "k", "l", 256, 0.5f, 300, 1 << 20, ec, nudb::no_progress{});
    ok(ec, "rekey");
    fs().hook = nullptr;
    crashes.push_back(fs().durable());
    for(auto& i : crashes)
    {
        if(i.count("l") || ! i.count("k"))
            continue;
        fs().put(i);
        ec = {};
        nudb::recover<nudb::xxhasher, file>("d", "k", "l", ec);
        if(ec == nudb::error::no_key_file)
            continue;   // begin again
        ok(ec, "recover");
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int n = 0; n < 300; ++n)
            expect(db, key(n), val(n, 30), "fetch after a power failure in rekey");
        close(db);
    }
}
'''),
dict(id="C05-transient", property="C05",
 needs="the device is full once in the middle of a large commit, and the store is used on",
 what_it_breaks="a full device is taken for transient: the failed commit is forgotten and run again by a later one, which leaves the part that was already appended in the data file",
 edits=[(ST, """            if(ec_)
            {
                ecb_.store(true);
                return;""", """            if(ec_ == boost::system::errc::no_space_on_device)
            {
                // Try again with the next flush
                ec_ = {};
                return;
            }
            if(ec_)
            {
                ecb_.store(true);
                return;""")],
 demo=H + r'''
int main()
{
    make(16, 4096, 0.5f);
    nudb::context ctx;
    store db(ctx);
    open(db);
    nudb::error_code ec;
    for(int i = 0; i < 60; ++i)
        insert(db, key(i), val(i, 5000), ec);
    int n = 0;
    fs().hook = [&](std::string const& op, std::string const& p, std::uint64_t, std::size_t)
    {
        return op == "write" && p == "d" && ++n == 2 ? ENOSPC : 0;
    };
    ctx.flush();
    fs().hook = nullptr;
    REQUIRE(n >= 2);
    ctx.flush();
    insert(db, key(60), val(60, 20), ec);
    bool const works = ! ec;
    for(int i = 0; i < 3; ++i)
        ctx.flush();
    if(works)
        for(int i = 0; i < 60; ++i)
            expect(db, key(i), val(i, 5000), "fetch after a commit failed");
    nudb::error_code cec;
    db.close(cec);
    if(! works || cec)
        return 0;   // reported
    // all went well: every value must be there, once
    auto const d = fs().live()["d"];
    std::size_t const want = 92 + 60 * (6 + 16 + 5000) + (6 + 16 + 20);
    if(d.size() != want)
        fail("the data file has %s%ld bytes", "", (long)d.size());
}
'''),
dict(id="C09-state", property="C09",
 needs="closing a store while a flush is busy with another store of the same context",
 what_it_breaks="stores moved to the list being flushed keep the state 'waiting', so closing one removes it from the wrong list and the flush goes on to use a closed store",
 edits=[(CTX, """        // Move everything in waiting_ to flushing_
        for(auto store = waiting_.head_; store;
            store = store->next_)
            store->state_ = store_base::state::flushing;
        flushing_.splice(waiting_);
    }

    // Process""", """        // Move everything in waiting_ to flushing_
        flushing_.splice(waiting_);
    }

    // Process""")],
 demo=H + r'''
static void create(std::string const& s)
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher, file>(s + "d", s + "k", s + "l", 1, 2, 3, 16, 256, 0.5f, ec);
    ok(ec, "create");
}
int main()
{
    watchdog(60);
    create("a"); create("b"); create("c");
    nudb::context ctx;
    store a(ctx), b(ctx), c(ctx);
    nudb::error_code ec;
    a.open("ad", "ak", "al", ec); ok(ec, "open");
    b.open("bd", "bk", "bl", ec); ok(ec, "open");
    c.open("cd", "ck", "cl", ec); ok(ec, "open");
    for(store* s : {&a, &b, &c})
    {
        insert(*s, key(1), val(1, 20), ec);
        ok(ec, "insert");
    }
    bool done = false;
    fs().hook = [&](std::string const& op, std::string const& p, std::uint64_t, std::size_t)
    {
        if(op == "sync" && p == "ad" && ! done)
        {
            done = true;
            // from another thread, while the first store is being flushed
            std::thread([&] { nudb::error_code e; b.close(e); ok(e, "close"); }).join();
        }
        return 0;
    };
    ctx.flush();
    fs().hook = nullptr;
    REQUIRE(done);
    auto const i = fs().durable();
    for(char const* n : {"ad", "bd", "cd"})
        if(i.at(n).size() != 92 + 6 + 16 + 20)
            fail("%s was not committed by flush", n);
    a.close(ec); ok(ec, "close");
    c.close(ec); ok(ec, "close");
}
''', flags="-O1 -fsanitize=address,undefined"),
dict(id="C24-recovermissing", property="C24",
 needs="nudb recover of a database whose data or key file is missing",
 what_it_breaks="a missing file is taken for nothing to recover, and the command reports success",
 edits=[(TOOL, """        if(ec)
        {
            std::cerr << "recover: " << ec.message() << "\\n";""", """        // Nothing to recover
        if(ec == boost::system::errc::no_such_file_or_directory)
            ec = {};
        if(ec)
        {
            std::cerr << "recover: " << ec.message() << "\\n";""")],
 demo=H + r'''
int main() {}
''', sh=r'''#!/bin/bash
# Run with the repository as the current directory.
repo=$PWD
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
g++ -std=c++14 -include stdexcept -g -I"$repo/include" "$repo/tools/nudb.cpp" -o "$out/nudb" \
    -lboost_program_options -lboost_filesystem -lboost_thread -lboost_system -pthread || exit 3
cd "$out" || exit 3
if timeout 60 ./nudb recover d k l >msg 2>&1; then echo "FAIL: recover of missing files reported success"; exit 1; fi
[ -s msg ] || { echo "FAIL: no message"; exit 1; }
exit 0
'''),
dict(id="C20-offset", property="C20",
 needs="a write that the system carries out in part",
 what_it_breaks="after a partial write the rest of the data goes to the old offset",
 edits=[(PF, """        offset += n;
        bytes -= n;
        buffer = reinterpret_cast<char const*>(buffer) + n;""", """        bytes -= n;
        buffer = reinterpret_cast<char const*>(buffer) + n;""")],
 demo=r'''
#include <unistd.h>
#include <dlfcn.h>
static bool cut = false;
extern "C" ssize_t pwrite(int fd, void const* b, size_t n, off_t o)
{
    using F = ssize_t(*)(int, void const*, size_t, off_t);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pwrite"));
    if(cut && n > 1)
        n = 1 + (o * 7 + n * 3) % (n - 1);
    return real(fd, b, n, o);
}
#include "demo.hpp"
using namespace demo;

int main()
{
    nudb::error_code ec;
    nudb::native_file f;
    f.create(nudb::file_mode::write, "f", ec);
    ok(ec, "create");
    std::string all(30000, 'z');
    f.write(0, all.data(), all.size(), ec);
    ok(ec, "write");
    cut = true;
    for(std::size_t o = 0; o < 9000; o += 501)
        for(std::size_t n = 1; n < 10000; n += 611)
        {
            auto const s = val(o + n, n);
            f.write(o, s.data(), n, ec);
            ok(ec, "write");
            all.replace(o, n, s);
        }
    std::string r(all.size(), 0);
    f.read(0, &r[0], r.size(), ec);
    ok(ec, "read");
    if(r != all)
        fail("a partial write went wrong");
}
'''),
]
