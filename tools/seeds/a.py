ST = "include/nudb/impl/basic_store.ipp"
CTX = "include/nudb/impl/context.ipp"
REC = "include/nudb/impl/recover.ipp"
RK = "include/nudb/impl/rekey.ipp"
VF = "include/nudb/impl/verify.ipp"
VI = "include/nudb/impl/visit.ipp"
CR = "include/nudb/impl/create.ipp"
PF = "include/nudb/impl/posix_file.ipp"
BK = "include/nudb/detail/bucket.hpp"
BIO = "include/nudb/detail/bulkio.hpp"
FMT = "include/nudb/detail/format.hpp"
GT = "include/nudb/detail/gentex.hpp"
XX = "include/nudb/detail/xxhash.hpp"
H = '#include "demo.hpp"\nusing namespace demo;\n'

SEEDS = [
dict(id="C01-collision", property="C01",
 needs="two different keys whose 48-bit hashes are equal, the first inserted stored before the second in the bucket",
 what_it_breaks="fetch stops at the first record with the same 48-bit hash, so a present key is reported as not found",
 edits=[(ST, """                callback(
                    buf0.get() + s_->kh.key_size, item.size);
                return;
            }
        }
        auto const spill = b.spill();
        if(! spill)
            break;
        buf1""", """                callback(
                    buf0.get() + s_->kh.key_size, item.size);
                return;
            }
            if(i + 1 == b.size())
                goto not_found;
        }
        auto const spill = b.spill();
        if(! spill)
            break;
        buf1"""), (ST, """    ec = error::key_not_found;
}""", """not_found:
    ec = error::key_not_found;
}""")],
 demo=H + r'''
int main()
{
    // The bucket is full of records with smaller hashes, which spill; the
    // last entry of the new bucket collides with a spilled record.
    make<key_hash>(16, 256, 0.9f);
    nudb::context ctx;
    hstore db(ctx);
    open(db);
    nudb::error_code ec;
    std::vector<std::string> k;
    for(int i = 0; i < 40; ++i)
    {
        auto s = key(std::uint64_t(0x100) << 16, 16);
        s[15] = char(i);
        k.push_back(s);
    }
    for(int i = 0; i < 40; ++i)
    {
        insert(db, k[i], val(i, 10 + i), ec);
        ok(ec, "insert");
        if(i % 7 == 0)
            ctx.flush();
    }
    ctx.flush();
    for(int i = 0; i < 40; ++i)
        expect(db, k[i], val(i, 10 + i), "fetch of a colliding key");
    close(db);
}
'''),
dict(id="C01-commit-dup", property="C01",
 needs="an insert of a key that a running commit is just writing to the data file, before the view of the commit is published",
 what_it_breaks="the duplicate is accepted: insert succeeds for a key that is present, and the data file gets two values for it",
 edits=[(ST, """        if(s_->p1.find(key) != s_->p1.end() ||
           s_->p0.find(key) != s_->p0.end())
        {""", """        if(s_->p1.find(key) != s_->p1.end())
        {""")],
 demo=H + r'''
int main()
{
    make();
    nudb::context ctx;
    store db(ctx);
    open(db);
    nudb::error_code ec;
    for(int i = 0; i < 20; ++i)
    {
        insert(db, key(i), val(i, 20), ec);
        ok(ec, "insert");
    }
    bool done = false;
    fs().hook = [&](std::string const& op, std::string const& path, std::uint64_t, std::size_t)
    {
        if(op == "write" && path == "d" && ! done)
        {
            done = true;
            for(int i = 0; i < 20; ++i)
            {
                nudb::error_code e;
                insert(db, key(i), val(i, 20), e);
                if(e != nudb::error::key_exists)
                    fail("an insert of a present key was accepted during a commit");
            }
        }
        return 0;
    };
    ctx.flush();
    fs().hook = nullptr;
    REQUIRE(done);
    close(db);
}
'''),
dict(id="C02-kfsync", property="C02",
 needs="a commit that adds no bucket, then loss of everything not synced right after a successful close",
 what_it_breaks="the key file is only synced by commits that grew it, so acknowledged inserts are lost after close and power loss",
 edits=[(ST, """    s_->kf.sync(ec);
    if(ec)
        return;
    s_->lf.trunc(0, ec);""", """    // Blocks are only allocated when there are more buckets
    if(s_->c1.size() > 1 || buckets_ != s_->kh.buckets)
        s_->kf.sync(ec);
    if(ec)
        return;
    s_->lf.trunc(0, ec);""")],
 demo=H + r'''
int main()
{
    make();
    nudb::error_code ec;
    for(int i = 0; i < 40; ++i)
    {
        {
            nudb::context ctx;
            store db(ctx);
            open(db);
            for(int j = 0; j <= i % 3; ++j)
            {
                insert(db, key(i * 10 + j), val(i, 30), ec);
                ok(ec, "insert");
            }
            close(db);
        }
        fs().put(fs().durable());
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int n = 0; n <= i; ++n)
            for(int j = 0; j <= n % 3; ++j)
                expect(db, key(n * 10 + j), val(n, 30), "fetch after close and power loss");
        close(db);
    }
}
'''),
dict(id="C03-logsync", property="C03",
 needs="a crash while a commit writes the key file, where the log records did not reach the disk but some buckets did",
 what_it_breaks="the bucket records of the log are never synced before the key file is overwritten, so recovery cannot restore the old buckets",
 edits=[(ST, """        w.flush(ec);
        if(ec)
            return;
        s_->lf.sync(ec);
        if(ec)
            return;
    }
    g_.finish();""", """        w.flush(ec);
        if(ec)
            return;
        // Nothing was logged if only new buckets are written
        if(! c0.empty())
            s_->lf.sync(ec);
        if(ec)
            return;
    }
    g_.finish();""")],
 demo=H + r'''
int main()
{
    make(16, 256, 0.5f);
    nudb::error_code ec;
    std::vector<image> images;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 100; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        fs().hook = [&](std::string const&, std::string const&, std::uint64_t, std::size_t)
        {
            // Power loss: writes to the key file reached the disk by
            // chance, what was not synced in the other files is lost.
            auto i = fs().durable();
            i["k"] = fs().live()["k"];
            i["d"] = fs().live()["d"];
            images.push_back(i);
            return 0;
        };
        for(int i = 100; i < 200; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        fs().hook = nullptr;
        close(db);
    }
    for(auto& i : images)
    {
        fs().put(i);
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int n = 0; n < 100; ++n)
            expect(db, key(n), val(n, 30), "fetch of committed key after a crash");
        int found = 0;
        for(int n = 100; n < 200; ++n)
        {
            auto v = fetch(db, key(n), ec);
            if(! ec)
            {
                REQUIRE(v == val(n, 30));
                ++found;
            }
            else
                REQUIRE(ec == nudb::error::key_not_found);
        }
        if(found != 0 && found != 100)
            fail("a mixture of two commits%s: %ld", "", found);
        close(db);
    }
}
'''),
dict(id="C03-headersync", property="C03",
 needs="a crash in a commit where appended data reached the disk but the log header did not",
 what_it_breaks="the checkpoint sync of the log header is missing, so values of the unfinished commit stay in the data file without bucket entries",
 edits=[(ST, """    write(s_->lf, lh, ec);
    if(ec)
        return;
    // Checkpoint
    s_->lf.sync(ec);
    if(ec)
        return;""", """    write(s_->lf, lh, ec);
    if(ec)
        return;""")],
 demo=H + r'''
int main()
{
    make(16, 256, 0.5f);
    nudb::error_code ec;
    std::vector<image> images;
    std::string before;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 100; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        before = fs().live()["d"];
        fs().hook = [&](std::string const&, std::string const&, std::uint64_t, std::size_t)
        {
            auto i = fs().durable();
            i["d"] = fs().live()["d"];
            images.push_back(i);
            return 0;
        };
        for(int i = 100; i < 200; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        fs().hook = nullptr;
        close(db);
    }
    for(auto& i : images)
    {
        fs().put(i);
        nudb::context ctx;
        store db(ctx);
        open(db);
        auto v = fetch(db, key(150), ec);
        close(db);
        if(v.empty() && fs().live()["d"] != before)
            fail("values of the unfinished commit are left in the data file");
    }
}
'''),
dict(id="C04-reckfsync", property="C04",
 needs="a crash in a commit, a recovery which restores buckets without changing the length of the key file, then power loss right after that recovery",
 what_it_breaks="recovery erases the log before the restored buckets are on disk, so a later open finds a mixture of old and new buckets",
 edits=[(REC, """        kf.trunc(lh.key_file_size, ec);
        if(ec)
            return;
        kf.sync(ec);
        if(ec)
            return;""", """        if(lh.key_file_size != keyFileSize)
        {
            kf.trunc(lh.key_file_size, ec);
            if(ec)
                return;
            kf.sync(ec);
            if(ec)
                return;
        }""")],
 demo=H + r'''
int main()
{
    make(16, 4096, 0.9f);
    nudb::error_code ec;
    std::vector<image> images;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 10; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        fs().hook = [&](std::string const&, std::string const&, std::uint64_t, std::size_t)
        {
            images.push_back(fs().live());
            return 0;
        };
        for(int i = 10; i < 20; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        fs().hook = nullptr;
        close(db);
    }
    for(auto& i : images)
    {
        fs().put(i);
        ec = {};
        nudb::recover<nudb::xxhasher, file>("d", "k", "l", ec);
        ok(ec, "recover");
        auto kept = fs().durable();
        kept.erase("l");
        auto ended = fs().live();
        REQUIRE(! ended.count("l"));
        fs().put(kept);
        nudb::context ctx;
        store db(ctx);
        open(db);
        int found = 0;
        for(int n = 0; n < 20; ++n)
        {
            auto v = fetch(db, key(n), ec);
            if(! ec)
            {
                REQUIRE(v == val(n, 30));
                ++found;
            }
            else if(n < 10 || ec != nudb::error::key_not_found)
                fail("fetch after recovery and power loss: %s", ec.message().c_str());
        }
        REQUIRE(found == 10 || found == 20);
        close(db);
    }
}
'''),
dict(id="C05-spillread", property="C05",
 needs="a read error of a spill record during a fetch",
 what_it_breaks="the error is dropped and the present key is reported as not found",
 edits=[(ST, """        b.read_spill(s_->df, spill, ec);
        if(ec)
            return;
    }
    ec = error::key_not_found;""", """        b.read_spill(s_->df, spill, ec);
        if(ec)
            break;
    }
    ec = error::key_not_found;""")],
 demo=H + r'''
int main()
{
    make<key_hash>(16, 256, 0.99f);
    nudb::context ctx;
    hstore db(ctx);
    open(db);
    nudb::error_code ec;
    for(int i = 0; i < 60; ++i)
    {
        insert(db, key(std::uint64_t(i * 4096) << 16), val(i, 20), ec);
        ok(ec, "insert");
    }
    ctx.flush();
    for(int at = 0; at < 8; ++at)
        for(int i = 0; i < 60; ++i)
        {
            int n = 0;
            fs().hook = [&](std::string const&, std::string const&, std::uint64_t, std::size_t)
            {
                return n++ == at ? EIO : 0;
            };
            auto v = fetch(db, key(std::uint64_t(i * 4096) << 16), ec);
            fs().hook = nullptr;
            if(ec == nudb::error::key_not_found)
                fail("a read error became key_not_found");
            if(! ec)
                REQUIRE(v == val(i, 20));
        }
    close(db);
}
'''),
dict(id="C05-commitec", property="C05",
 needs="an error from sizing the log file in the second half of a background commit",
 what_it_breaks="the failed commit is not reported: later calls and close succeed although the inserts are lost",
 edits=[(ST, """    // Write clean buckets to log file
    {
        auto const size = s_->lf.size(ec);
        if(ec)
            return;""", """    // Write clean buckets to log file
    {
        error_code sec;
        auto const size = s_->lf.size(sec);
        if(sec)
        {
            m.lock();
            return;
        }""")],
 demo=H + r'''
int main()
{
    for(int at = 0; at < 60; ++at)
    {
        fs().put({});
        make();
        nudb::error_code ec;
        bool reported = false;
        bool hit = false;
        {
            nudb::context ctx;
            store db(ctx);
            open(db);
            for(int i = 0; i < 30; ++i)
                insert(db, key(i), val(i, 30), ec);
            int n = 0;
            fs().hook = [&](std::string const&, std::string const&, std::uint64_t, std::size_t)
            {
                if(n++ != at)
                    return 0;
                hit = true;
                return EIO;
            };
            ctx.flush();
            fs().hook = nullptr;
            fetch(db, key(5), ec);
            if(ec)
                reported = true;
            ec = {};
            db.close(ec);
            if(ec)
                reported = true;
        }
        if(! hit)
            break;
        nudb::context ctx;
        store db(ctx);
        open(db);
        auto v = fetch(db, key(5), ec);
        if(! reported && (ec || v != val(5, 30)))
            fail("the inserts of a failed commit are lost and no error was reported");
        db.close(ec);
    }
}
'''),
dict(id="C06-genlock", property="C06",
 needs="a fetch preempted between releasing the store lock and taking the generation lock, while a commit that splits the key's bucket runs to its end",
 what_it_breaks="the fetch reads the bucket after the key moved to the new bucket and reports a present key as not found",
 edits=[(ST, """    genlock<gentex> g{g_};
    m.unlock();
    buffer buf{s_->kh.block_size};
    // b constructs""", """    m.unlock();
    genlock<gentex> g{g_};
    buffer buf{s_->kh.block_size};
    // b constructs""")],
 demo=r'''
#include <pthread.h>
#include <dlfcn.h>
#include <atomic>
#include <chrono>
#include <thread>
// The nth mutex lock of the marked thread waits until told to go on
static thread_local int locks = -1;
static std::atomic<int> stop_at{0}, state{0};
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    using F = int(*)(pthread_mutex_t*);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
    if(locks >= 0 && ++locks == stop_at.load())
    {
        locks = -1;
        state.store(1);
        auto const end = std::chrono::steady_clock::now() + std::chrono::milliseconds(400);
        while(state.load() == 1 && std::chrono::steady_clock::now() < end)
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
    }
    return real(m);
}
''' + H + r'''
int main()
{
    watchdog(150);
    for(int at = 1; at <= 6; ++at)
        for(int target = 0; target < 12; ++target)
        {
            fs().put({});
            make(16, 256, 0.5f);
            nudb::context ctx;
            store db(ctx);
            open(db);
            nudb::error_code ec;
            for(int i = 0; i < 12; ++i)
                insert(db, key(i), val(i, 30), ec);
            ctx.flush();
            for(int i = 12; i < 60; ++i)
                insert(db, key(i), val(i, 30), ec);
            stop_at.store(at);
            state.store(0);
            std::atomic<bool> end{false};
            nudb::error_code fe;
            std::string fv;
            std::thread t([&]
            {
                locks = 0;
                fv = fetch(db, key(target), fe);
                locks = -1;
                end = true;
            });
            while(! end && state.load() == 0)
                std::this_thread::yield();
            if(state.load() == 1)
            {
                ctx.flush();
                state.store(2);
            }
            t.join();
            if(fe || fv != val(target, 30))
                fail("a committed key was not found during a commit");
            close(db);
        }
}
''', flags="-O1"),
dict(id="C06-finish", property="C06",
 needs="a fetch that is between reading the bucket map and the key file while a commit splits its bucket",
 what_it_breaks="the commit overwrites buckets without waiting for the readers of the old generation, which then miss keys that moved",
 edits=[(GT, """    std::unique_lock<std::mutex> l{m_};
    prev_ += cur_;
    cur_ = 0;
    ++gen_;""", """    std::unique_lock<std::mutex> l{m_};
    prev_ = cur_ > 1 ? cur_ : 0;
    cur_ = 0;
    ++gen_;"""), (GT, """        --prev_;
        if(prev_ == 0)""", """        if(prev_ > 0)
            --prev_;
        if(prev_ == 0)""")],
 demo=H + r'''
int main()
{
    watchdog(150);
    for(int target = 0; target < 12; ++target)
    {
        fs().put({});
        make(16, 256, 0.5f);
        nudb::context ctx;
        store db(ctx);
        open(db);
        nudb::error_code ec;
        for(int i = 0; i < 12; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        for(int i = 12; i < 60; ++i)
            insert(db, key(i), val(i, 30), ec);
        static thread_local bool reader = false;
        std::atomic<int> state{0};
        fs().hook = [&](std::string const& op, std::string const& path, std::uint64_t, std::size_t)
        {
            if(reader && op == "read" && path == "k" && state == 0)
            {
                state = 1;
                for(int i = 0; i < 300 && state == 1; ++i)
                    std::this_thread::sleep_for(std::chrono::milliseconds(1));
            }
            return 0;
        };
        nudb::error_code fe;
        std::string fv;
        std::thread t([&]
        {
            reader = true;
            fv = fetch(db, key(target), fe);
            if(state == 0)
                state = 2;
        });
        while(state == 0)
            std::this_thread::yield();
        ctx.flush();
        if(state == 1)
            state = 2;
        t.join();
        fs().hook = nullptr;
        if(fe || fv != val(target, 30))
            fail("a committed key was not found during a commit");
        close(db);
    }
}
'''),
dict(id="C07-burst", property="C07",
 needs="set_burst called while another thread inserts or a commit runs",
 what_it_breaks="the burst size is written without the lock that its readers hold: a data race",
 edits=[(ST, """    detail::unique_lock_type m{m_};
    s_->burst = burst_size;""", """    s_->burst = burst_size;""")],
 flags="-O1 -fsanitize=thread",
 demo=H + r'''
int main()
{
    watchdog(120);
    make();
    nudb::context ctx;
    ctx.start();
    store db(ctx);
    open(db);
    std::atomic<bool> end{false};
    std::thread t([&]
    {
        for(int i = 0; ! end; ++i)
        {
            db.set_burst(1 + i % 100);
            std::this_thread::sleep_for(std::chrono::microseconds(200));
        }
    });
    nudb::error_code ec;
    auto const until = std::chrono::steady_clock::now() + std::chrono::seconds(5);
    for(int i = 0; std::chrono::steady_clock::now() < until; ++i)
    {
        insert(db, key(i), val(i, 300), ec);
        ok(ec, "insert");
    }
    end = true;
    t.join();
    close(db);
}
''', run="TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 200 setarch -R ./demo"),
dict(id="C08-notify", property="C08",
 needs="a store closed while a context thread commits it, with no other store to produce further notifications",
 what_it_breaks="close waits for the end of the commit and is never woken",
 edits=[(CTX, """    store->state_ = store_base::state::waiting;
    waiting_.push_back(store);
    cv_w_.notify_all();
    return true;""", """    store->state_ = store_base::state::waiting;
    bool const first = waiting_.empty();
    waiting_.push_back(store);
    // Wake up the others when the list changes from empty
    if(! first || flushing_.empty())
        return true;
    cv_w_.notify_all();
    return true;""")],
 demo=H + r'''
int main()
{
    watchdog(20);
    for(int r = 0; r < 3; ++r)
    {
        fs().put({});
        make();
        nudb::context ctx;
        ctx.start();
        store db(ctx);
        open(db);
        nudb::error_code ec;
        insert(db, key(1), val(1, 30), ec);
        std::atomic<bool> in{false};
        fs().hook = [&](std::string const& op, std::string const& path, std::uint64_t, std::size_t)
        {
            if(op == "write" && path == "k" && ! in)
            {
                in = true;
                std::this_thread::sleep_for(std::chrono::milliseconds(300));
            }
            return 0;
        };
        while(! in)
            std::this_thread::sleep_for(std::chrono::milliseconds(1));
        close(db);
        fs().hook = nullptr;
    }
    std::_Exit(0);
}
'''),
dict(id="C08-threads", property="C08",
 needs="a context run by two or more application threads",
 what_it_breaks="the thread that collects the waiting stores leaves the flushing to the others but does not wake them: inserts stay uncommitted",
 edits=[(CTX, """                    // Let other threads flush while this one splices
                    cv_f_.notify_all();
                    continue;""", """                    // Let other threads flush while this one splices
                    if(flushing_.empty())
                        cv_f_.notify_all();
                    continue;""")],
 demo=H + r'''
int main()
{
    watchdog(60);
    make();
    nudb::context ctx;
    std::thread a([&]{ ctx.run(); });
    std::thread b([&]{ ctx.run(); });
    std::this_thread::sleep_for(std::chrono::milliseconds(300));
    store db(ctx);
    open(db);
    nudb::error_code ec;
    insert(db, key(1), val(1, 30), ec);
    auto const d0 = fs().durable()["d"].size();
    for(int i = 0; i < 100 && fs().durable()["d"].size() == d0; ++i)
        std::this_thread::sleep_for(std::chrono::milliseconds(100));
    if(fs().durable()["d"].size() == d0)
        fail("an insert was not committed for 10 seconds");
    close(db);
    ctx.stop_all();
    a.join();
    b.join();
}
'''),
dict(id="C09-listerase", property="C09",
 needs="three stores on a context, the last opened closed first, then another opened",
 what_it_breaks="the tail of the list of stores goes stale, so a store opened later is never flushed",
 edits=[(CTX, """    else // node == tail_
        tail_ = node->prev_;

    if(node->prev_)
        node->prev_->next_ = node->next_;
    else // node == head_
        head_ = node->next_;
""", """    else if(! node->prev_ || node->prev_ == head_)
        tail_ = node->prev_; // node == tail_

    if(node->prev_)
        node->prev_->next_ = node->next_;
    else // node == head_
        head_ = node->next_;
""")],
 demo=H + r'''
static void make_at(std::string const& p)
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher, file>(p + "d", p + "k", p + "l", 1, 2, 3, 16, 256, 0.5f, ec);
    ok(ec, "create");
    file::erase(p + "l", ec);
}

int main()
{
    watchdog(60);
    // every order of closing and opening four stores on one context
    int perm[4] = {0, 1, 2, 3};
    std::vector<std::vector<int>> orders;
    for(int a = 0; a < 4; ++a) for(int b = 0; b < 4; ++b) for(int c = 0; c < 4; ++c)
        orders.push_back({a, b, c});
    (void)perm;
    for(auto const& o : orders)
    {
        fs().put({});
        nudb::context ctx;
        std::unique_ptr<store> db[4];
        nudb::error_code ec;
        auto open1 = [&](int i)
        {
            std::string p(1, char('A' + i));
            if(! fs().exists(p + "d"))
                make_at(p);
            db[i].reset(new store(ctx));
            db[i]->open(p + "d", p + "k", p + "l", ec);
            ok(ec, "open");
        };
        for(int i = 0; i < 3; ++i)
            open1(i);
        int n = 100;
        std::vector<std::unique_ptr<store>> closed;
        for(int const& x : o)
        {
            if(db[x])
            {
                db[x]->close(ec);
                closed.push_back(std::move(db[x]));
            }
            else
                open1(x);
            // sometimes only after several were closed and opened
            if(&x != &o.back() && (o[0] + o[1] + o[2]) % 3)
                continue;
            std::vector<std::string> keys(4);
            for(int i = 0; i < 4; ++i)
                if(db[i])
                {
                    keys[i] = key(++n);
                    insert(*db[i], keys[i], val(n, 30), ec);
                    ok(ec, "insert");
                }
            auto before = fs().durable();
            ctx.flush();
            auto after = fs().durable();
            for(int i = 0; i < 4; ++i)
                if(db[i])
                {
                    std::string d(1, char('A' + i));
                    d += "d";
                    if(after[d].size() <= before[d].size())
                        fail("flush did not commit a store");
                }
        }
        for(int i = 0; i < 4; ++i)
            if(db[i])
                db[i]->close(ec);
    }
}
'''),
dict(id="C10-pad", property="C10",
 needs="a block size that leaves bytes behind the last possible bucket entry, and memory that is not zero",
 what_it_breaks="the last bytes of key file blocks are not zero filled but hold leftover memory",
 edits=[(BK, """    auto const size = actual_size();
    std::memset(p_ + size, 0, block_size_ - size);""", """    auto const size = actual_size();
    std::memset(p_ + size, 0, bucket_size(
        bucket_capacity(block_size_)) - size);""")],
 demo='#include <malloc.h>\n' + H + r'''
int main()
{
    mallopt(M_PERTURB, 0x5a);
    for(std::size_t block : {256, 300, 511, 4096})
    {
        fs().put({});
        make(16, block, 0.5f);
        nudb::context ctx;
        store db(ctx);
        open(db);
        nudb::error_code ec;
        for(int i = 0; i < 200; ++i)
            insert(db, key(i), val(i, 30), ec);
        close(db);
        auto const k = fs().live()["k"];
        REQUIRE(k.size() % block == 0);
        for(std::size_t b = 1; b < k.size() / block; ++b)
        {
            auto const p = reinterpret_cast<unsigned char const*>(k.data()) + b * block;
            std::size_t const n = p[0] * 256 + p[1];
            for(std::size_t i = 8 + n * 18; i < block; ++i)
                if(p[i])
                    fail("a key file block is not zero filled");
        }
    }
}
'''),
]
