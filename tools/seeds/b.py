import os
exec(open(os.path.join(os.path.dirname(__file__), "a.py")).read().split("SEEDS = [")[0])
NF = '#include "demo.hpp"\nusing namespace demo;\n'
TOOL = "tools/nudb.cpp"

SEEDS = [
dict(id="C11-reuse", property="C11",
 needs="two commits in one session, the first of which writes spill records or splits that spill",
 what_it_breaks="the end of the data file is remembered before the spill records are appended, so the next commit overwrites them",
 edits=[("include/nudb/basic_store.hpp", "    nbuck_t modulus_;               // hash modulus\n",
         "    nbuck_t modulus_;               // hash modulus\n    noff_t end_ = 0;                // end of data file\n"),
        (ST, """    df.open(file_mode::append, dat_path, ec);
    if(ec)
        return;
    kf.open""", """    df.open(file_mode::write, dat_path, ec);
    if(ec)
        return;
    end_ = df.size(ec);
    if(ec)
        return;
    kf.open"""),
        (ST, """        auto const size = s_->df.size(ec);
        if(ec)
            return;
        bulk_writer<File> w{s_->df, size, dataWriteSize_};""",
         """        bulk_writer<File> w{s_->df, end_, dataWriteSize_};"""),
        (ST, """            write(os, e.first.data, e.first.size);      // Data
        }
""", """            write(os, e.first.data, e.first.size);      // Data
            end_ = w.offset();
        }
""")],
 demo=H + r'''
int main()
{
    make(16, 256, 0.9f);
    nudb::context ctx;
    store db(ctx);
    open(db);
    nudb::error_code ec;
    std::string before;
    for(int c = 0; c < 6; ++c)
    {
        for(int i = 0; i < 100; ++i)
            insert(db, key(c * 100 + i), val(i, 30), ec);
        ctx.flush();
        auto const now = fs().live()["d"];
        if(now.compare(0, before.size(), before) != 0)
            fail("a commit changed bytes which an earlier one wrote to the data file");
        before = now;
    }
    db.close(ec);
}
'''),
dict(id="C11-trunc", property="C11",
 needs="a commit that fails after it appended to the data file, then close",
 what_it_breaks="close truncates the data file to the key file's view although only recovery may shorten it, and cuts a commit that was complete",
 edits=[(ST, """        if(ecb_)
        {
            ec = ec_;""", """        if(ecb_)
        {
            // Give back the space of the failed commit
            error_code tec;
            s_->df.trunc(base_, tec);
            ec = ec_;"""),
        ("include/nudb/basic_store.hpp", "    nbuck_t modulus_;               // hash modulus\n",
         "    nbuck_t modulus_;               // hash modulus\n    noff_t base_ = 0;               // data size before commit\n"),
        (ST, """    lh.dat_file_size = s_->df.size(ec);     // Data File Size
    if(ec)
        return;""", """    lh.dat_file_size = s_->df.size(ec);     // Data File Size
    if(ec)
        return;
    base_ = lh.dat_file_size;""")],
 demo=H + r'''
int main()
{
    for(int at = 0; at < 80; ++at)
    {
        fs().put({});
        make(16, 256, 0.5f);
        nudb::error_code ec;
        bool hit = false;
        {
            nudb::context ctx;
            store db(ctx);
            open(db);
            for(int i = 0; i < 30; ++i)
                insert(db, key(i), val(i, 30), ec);
            int n = 0;
            std::size_t size = 0;
            fs().hook = [&](std::string const&, std::string const&, std::uint64_t, std::size_t)
            {
                if(n++ == at)
                    hit = true;
                return hit ? EIO : 0;
            };
            ctx.flush();
            fs().hook = nullptr;
            size = fs().live()["d"].size();
            db.close(ec);
            if(fs().live()["d"].size() < size)
                fail("close shortened the data file");
        }
        if(! hit)
            break;
    }
}
'''),
dict(id="C12-spilltot", property="C12",
 needs="a database with spill records, verified with a buffer that needs several passes",
 what_it_breaks="the total of spill records is counted once per pass",
 edits=[(VF, "                if(b0 == 0)\n", "                if(b0 == 0 || bn < chunkSize)\n")],
 demo=H + r'''
int main()
{
    // real files in a scratch directory
    nudb::error_code ec;
    nudb::create<nudb::xxhasher>("d", "k", "l", 1, 2, 3, 16, 256, 0.9f, ec);
    ok(ec, "create");
    {
        nudb::store db;
        db.open("d", "k", "l", ec);
        ok(ec, "open");
        for(int i = 0; i < 700; ++i)
            insert(db, key(i), val(i, 30), ec);
        db.close(ec);
        ok(ec, "close");
    }
    nudb::verify_info a, b;
    for(std::size_t buffer = 520; buffer < 60000; buffer += 777)
    {
        nudb::verify<nudb::xxhasher>(a, "d", "k", 0, nudb::no_progress{}, ec);
        ok(ec, "verify");
        nudb::verify<nudb::xxhasher>(b, "d", "k", buffer, nudb::no_progress{}, ec);
        ok(ec, "verify");
        if(a.spill_count_tot != b.spill_count_tot || a.waste != b.waste)
            fail("the number of spill records depends on the buffer size");
    }
}
'''),
dict(id="C12-hist", property="C12",
 needs="a bucket chain with ten or more spill records, verified without a buffer",
 what_it_breaks="the spill histogram is written behind its end (or in the wrong class) for long chains",
 edits=[(VF, "            if(nspill >= info.hist.size())\n                nspill = info.hist.size() - 1;\n            ++info.hist[nspill];\n            info.key_count += nkeys[i];",
         "            if(nspill >= info.hist.size())\n                nspill %= info.hist.size();\n            ++info.hist[nspill];\n            info.key_count += nkeys[i];")],
 demo=H + r'''
struct same
{
    explicit same(std::uint64_t) {}
    std::uint64_t operator()(void const* p, std::size_t n) const
    {
        return n == 8 ? 1 : std::uint64_t(static_cast<unsigned char const*>(p)[7]) << 16;
    }
};

int main()
{
    nudb::error_code ec;
    nudb::create<same>("d", "k", "l", 1, 2, 3, 16, 256, 0.9f, ec);
    ok(ec, "create");
    {
        nudb::basic_store<same, nudb::native_file> db;
        db.open("d", "k", "l", ec);
        ok(ec, "open");
        for(int i = 0; i < 200; ++i)
            insert(db, key(std::uint64_t(i) << 8), val(i, 30), ec);
        db.close(ec);
        ok(ec, "close");
    }
    nudb::verify_info a;
    for(std::size_t buffer : {0, 1000, 1000000})
    {
        nudb::verify<same>(a, "d", "k", buffer, nudb::no_progress{}, ec);
        ok(ec, "verify");
        if(a.hist[a.hist.size() - 1] != 1)
            fail("the longest chain is not in the last class of the histogram");
    }
}
'''),
dict(id="C13-lastbucket", property="C13",
 needs="a bucket entry without a value in the last bucket of a buffered section",
 what_it_breaks="the buffered algorithm does not report keys that no value of the data file has",
 edits=[(VF, """        for(std::size_t i = 0; i < bn; ++i)
        {
            if(nkeys[i] != 0)""", """        for(std::size_t i = 0; i + 1 < chunkSize && i < bn; ++i)
        {
            if(nkeys[i] != 0)""")],
 demo=H + r'''
#include <fstream>
#include <sstream>
static std::string slurp(char const* p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
static void spew(char const* p, std::string const& s)
{
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f << s;
}

int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher>("d", "k", "l", 1, 2, 3, 16, 256, 0.5f, ec);
    ok(ec, "create");
    {
        nudb::store db;
        db.open("d", "k", "l", ec);
        ok(ec, "open");
        for(int i = 0; i < 70; ++i)
            insert(db, key(i), val(i, 30), ec);
        db.close(ec);
        ok(ec, "close");
    }
    auto const k = slurp("k");
    auto const d = slurp("d");
    nudb::verify_info a;
    // Cut the last value off: its entry has no value any more
    std::size_t at = 92;
    for(std::size_t o = 92; o < d.size();)
    {
        at = o;
        std::size_t n = 0;
        for(int i = 0; i < 6; ++i)
            n = n << 8 | static_cast<unsigned char>(d[o + i]);
        if(n == 0)
            o += 8 + static_cast<unsigned char>(d[o + 6]) * 256 + static_cast<unsigned char>(d[o + 7]);
        else
            o += 6 + 16 + n;
    }
    spew("d", d.substr(0, at));
    for(std::size_t buffer = 520; buffer < 10000; buffer += 130)
    {
        ec = {};
        nudb::verify<nudb::xxhasher>(a, "d", "k", buffer, nudb::no_progress{}, ec);
        if(! ec)
            fail("verify accepted a key without value");
    }
}
'''),
dict(id="C13-size", property="C13",
 needs="a bucket entry whose size is smaller than that of its value, verified without buffer",
 what_it_breaks="verification without a buffer accepts entries that cut their value",
 edits=[(VF, """                    if(size != e.size)
                    {
                        ec = error::size_mismatch;""", """                    if(size < e.size)
                    {
                        ec = error::size_mismatch;""")],
 demo=H + r'''
#include <fstream>
#include <sstream>
static std::string slurp(char const* p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher>("d", "k", "l", 1, 2, 3, 16, 4096, 0.5f, ec);
    ok(ec, "create");
    {
        nudb::store db;
        db.open("d", "k", "l", ec);
        ok(ec, "open");
        for(int i = 0; i < 20; ++i)
            insert(db, key(i), val(i, 30), ec);
        db.close(ec);
        ok(ec, "close");
    }
    auto const k = slurp("k");
    for(int size : {1, 29, 31, 255})
        for(int e = 0; e < 20; ++e)
            for(std::size_t buffer : {0, 1000000})
            {
                auto b = k;
                b[4096 + 8 + e * 18 + 11] = char(size);
                std::ofstream("b", std::ios::binary | std::ios::trunc) << b;
                nudb::verify_info a;
                nudb::verify<nudb::xxhasher>(a, "d", "b", buffer, nudb::no_progress{}, ec);
                if(! ec)
                    fail("verify accepted an entry with a wrong size");
            }
}
'''),
dict(id="C14-bigvalue", property="C14",
 needs="a value larger than the 4 MiB read buffer behind other values",
 what_it_breaks="the bytes already buffered are moved from the wrong place when the reader grows its buffer, so visit and rekey see a wrong key",
 edits=[(BIO, """            std::memcpy(buf.get(),
                buf_.get() + used_, avail_);
            buf_ = std::move(buf);""", """            std::memcpy(buf.get(),
                buf_.get() + (offset_ < buf_.size() ? used_ : 0), avail_);
            buf_ = std::move(buf);""")],
 demo=H + r'''
int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher>("d", "k", "l", 1, 2, 3, 16, 4096, 0.5f, ec);
    ok(ec, "create");
    std::size_t const sizes[] = {100, 3000000, 5000000, 9000000, 12000000, 70};
    std::map<std::string, std::string> want;
    {
        nudb::context ctx;
        nudb::basic_store<nudb::xxhasher, nudb::native_file> db(ctx);
        db.open("d", "k", "l", ec);
        ok(ec, "open");
        for(int i = 0; i < 6; ++i)
        {
            want[key(i)] = val(i, sizes[i]);
            insert(db, key(i), want[key(i)], ec);
            ok(ec, "insert");
        }
        db.close(ec);
        ok(ec, "close");
    }
    std::size_t n = 0;
    nudb::visit("d",
        [&](void const* k, std::size_t ks, void const* v, std::size_t vs, nudb::error_code&)
        {
            ++n;
            auto it = want.find(std::string(static_cast<char const*>(k), ks));
            if(it == want.end() || it->second != std::string(static_cast<char const*>(v), vs))
                fail("visit gave a wrong key or value");
        }, nudb::no_progress{}, ec);
    ok(ec, "visit");
    REQUIRE(n == 6);
}
'''),
dict(id="C14-spillskip", property="C14",
 needs="a spill record larger than 32767 bytes: block sizes above 32 KiB",
 what_it_breaks="the size of a spill record is read as a signed number, so large spill records are not skipped correctly",
 edits=[(VI, """            read<std::uint16_t>(is, size);  // Size
            r.prepare(size, ec); // skip bucket""", """            read<std::uint16_t>(is, size);  // Size
            r.prepare(size & 0x7fff, ec); // skip bucket""")],
 demo=H + r'''
struct same
{
    explicit same(std::uint64_t) {}
    std::uint64_t operator()(void const*, std::size_t) const { return 1; }
};

int main()
{
    nudb::error_code ec;
    nudb::create<same>("d", "k", "l", 1, 2, 3, 16, 40000, 0.9f, ec);
    ok(ec, "create");
    int const total = 2400;
    {
        nudb::context ctx;
        nudb::basic_store<same, nudb::native_file> db(ctx);
        db.open("d", "k", "l", ec);
        ok(ec, "open");
        for(int i = 0; i < total; ++i)
            insert(db, key(i), val(i, 1), ec);
        db.close(ec);
        ok(ec, "close");
        db.open("d", "k", "l", ec);
        for(int i = total; i < total + 10; ++i)
            insert(db, key(i), val(i, 1), ec);
        db.close(ec);
    }
    int n = 0;
    nudb::visit("d",
        [&](void const*, std::size_t, void const*, std::size_t vs, nudb::error_code&)
        {
            ++n;
            REQUIRE(vs == 1);
        }, nudb::no_progress{}, ec);
    ok(ec, "visit");
    REQUIRE(n == total + 10);
}
'''),
dict(id="C15-appnum", property="C15",
 needs="rekeying a database whose appnum has more than 32 bits",
 what_it_breaks="the new key file has a cut appnum and does not open with its data file",
 edits=[(RK, "    kh.appnum = dh.appnum;", "    kh.appnum = static_cast<nsize_t>(dh.appnum & 0xffffffffffff);")],
 demo=H + r'''
int main()
{
    for(int bit = 0; bit < 64; ++bit)
    {
        fs().put({});
        make(16, 256, 0.5f, 77, 1ull << bit, 99);
        auto i = fs().live();
        i.erase("k");
        fs().put(i);
        nudb::error_code ec;
        nudb::rekey<nudb::xxhasher, file>("d", "k", "l", 256, 0.5f, 10, 10000, ec, nudb::no_progress{});
        ok(ec, "rekey");
        nudb::context ctx;
        store db(ctx);
        open(db);
        REQUIRE(db.appnum() == 1ull << bit);
        close(db);
    }
}
'''),
dict(id="C15-buckets", property="C15",
 needs="an item count that needs one more bucket than it fills completely",
 what_it_breaks="the number of buckets of the new key file is rounded instead of rounded up, so it is one less than the items need",
 edits=[(RK, """        std::ceil(itemCount /(""", """        std::round(itemCount /(""")],
 demo=H + r'''
int main()
{
    for(int count = 1; count < 60; ++count)
    {
        fs().put({});
        make(16, 256, 0.5f);
        auto i = fs().live();
        i.erase("k");
        fs().put(i);
        nudb::error_code ec;
        nudb::rekey<nudb::xxhasher, file>("d", "k", "l", 256, 0.5f, count, 100000, ec, nudb::no_progress{});
        ok(ec, "rekey");
        // 13 entries fit in a block of 256 bytes
        std::size_t const need = (2 * count + 12) / 13;
        if(fs().live()["k"].size() != (need + 1) * 256)
            fail("wrong number of buckets for %s%ld items", "", count);
    }
}
'''),
dict(id="C16-logsync", property="C16",
 needs="power loss during rekey after the key file header is complete, where the log header was not written to the disk",
 what_it_breaks="the rekey log is never synced, so after the crash the incomplete key file is taken for a complete one and data is lost",
 edits=[(RK, """        write(lf, lh, ec);
        if(ec)
            return;
        lf.sync(ec);
        if(ec)
            return;
    }""", """        write(lf, lh, ec);
        if(ec)
            return;
    }""")],
 demo=H + r'''
int main()
{
    make(16, 256, 0.5f);
    nudb::error_code ec;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 300; ++i)
            insert(db, key(i), val(i, 30), ec);
        close(db);
    }
    auto i = fs().live();
    i.erase("k");
    fs().put(i);
    std::vector<image> images;
    fs().hook = [&](std::string const&, std::string const&, std::uint64_t, std::size_t)
    {
        images.push_back(fs().durable());
        return 0;
    };
    nudb::rekey<nudb::xxhasher, file>("d", "k", "l", 256, 0.5f, 300, 100000, ec, nudb::no_progress{});
    fs().hook = nullptr;
    ok(ec, "rekey");
    for(auto& im : images)
    {
        if(! im.count("k"))
            continue;
        fs().put(im);
        ec = {};
        nudb::recover<nudb::xxhasher, file>("d", "k", "l", ec);
        if(! fs().exists("k"))
            continue;
        ok(ec, "recover");
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int n = 0; n < 300; ++n)
            expect(db, key(n), val(n, 30), "fetch after an interrupted rekey");
        close(db);
    }
}
'''),
dict(id="C17-elf", property="C17",
 needs="create called while a log file of that name exists but no data and key file",
 what_it_breaks="create fails as it should, but removes the log file that was there before",
 edits=[(CR, """        lf.create(file_mode::append, log_path, ec);
        if(ec)
            goto fail;
        elf = true;""", """        elf = true;
        lf.create(file_mode::append, log_path, ec);
        if(ec)
            goto fail;""")],
 demo=H + r'''
int main()
{
    for(std::string p : {"d", "k", "l"})
    {
        fs().put({{p, "precious"}});
        nudb::error_code ec;
        nudb::create<nudb::xxhasher, file>("d", "k", "l", 1, 2, 3, 16, 256, 0.5f, ec);
        REQUIRE(ec);
        auto const i = fs().live();
        if(i.size() != 1 || i.begin()->first != p || i.begin()->second != "precious")
            fail("a failed create changed or left files");
    }
}
'''),
dict(id="C17-kfsync", property="C17",
 needs="power loss right after create reported success",
 what_it_breaks="the bucket of the new key file may be missing: a created database does not open after a power loss",
 edits=[(CR, """        write(kf, kh, ec);
        if(ec)
            goto fail;
        buffer buf{blockSize};""", """        write(kf, kh, ec);
        if(ec)
            goto fail;
        kf.sync(ec);
        if(ec)
            goto fail;
        buffer buf{blockSize};"""), (CR, """        kf.sync(ec);
        if(ec)
            goto fail;
        lf.sync(ec);""", """        lf.sync(ec);""")],
 demo=H + r'''
int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher, file>("d", "k", "l", 1, 2, 3, 16, 256, 0.5f, ec);
    ok(ec, "create");
    fs().put(fs().durable());
    nudb::context ctx;
    store db(ctx);
    open(db);
    insert(db, key(1), val(1, 3), ec);
    ok(ec, "insert");
    close(db);
}
'''),
dict(id="C18-appnum", property="C18",
 needs="data and key files whose appnums differ only in the upper 32 bits",
 what_it_breaks="files of databases of different applications are opened together",
 edits=[(FMT, """    if(kh.appnum != dh.appnum)""", """    if(static_cast<std::uint32_t>(kh.appnum) !=
        static_cast<std::uint32_t>(dh.appnum))""")],
 demo=H + r'''
int main()
{
    for(int bit = 0; bit < 64; ++bit)
    {
        fs().put({});
        make(16, 256, 0.5f, 77, 5, 99);
        auto a = fs().live();
        fs().put({});
        make(16, 256, 0.5f, 77, 5 ^ (1ull << bit), 99);
        auto b = fs().live();
        a["k"] = b["k"];
        fs().put(a);
        nudb::error_code ec;
        nudb::context ctx;
        store db(ctx);
        db.open("d", "k", "l", ec);
        if(ec != nudb::error::appnum_mismatch)
            fail("files with different appnums were opened (bit %s%ld)", "", bit);
    }
}
'''),
dict(id="C18-logsalt", property="C18",
 needs="the log of an earlier key file of the same database (same uid, another salt) next to a rekeyed key file",
 what_it_breaks="the salt of the log is not compared, so old buckets are written over the new key file",
 edits=[(FMT, """    if(kh.salt != lh.salt)
    {
        ec = error::salt_mismatch;
        return;
    }
    if(kh.pepper != lh.pepper)
    {
        ec = error::pepper_mismatch;
        return;
    }""", """    if(kh.salt != lh.salt && kh.pepper == lh.pepper)
    {
        ec = error::salt_mismatch;
        return;
    }
    if(kh.salt == lh.salt && kh.pepper != lh.pepper)
    {
        ec = error::pepper_mismatch;
        return;
    }""")],
 demo=H + r'''
int main()
{
    make(16, 256, 0.5f, 77, 5, 99);
    nudb::error_code ec;
    image crashed;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 100; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        for(int i = 100; i < 200; ++i)
            insert(db, key(i), val(i, 30), ec);
        fs().hook = [&](std::string const& op, std::string const& path, std::uint64_t, std::size_t)
        {
            if(op == "write" && path == "k")
                crashed = fs().live();
            return 0;
        };
        ctx.flush();
        fs().hook = nullptr;
        close(db);
    }
    auto i = fs().live();
    i.erase("k");
    fs().put(i);
    nudb::rekey<nudb::xxhasher, file>("d", "k", "l", 256, 0.5f, 200, 100000, ec, nudb::no_progress{});
    ok(ec, "rekey");
    i = fs().live();
    i["l"] = crashed["l"];
    fs().put(i);
    nudb::recover<nudb::xxhasher, file>("d", "k", "l", ec);
    if(ec != nudb::error::salt_mismatch)
        fail("recover with the log of an older key file: %s", ec.message().c_str());
    REQUIRE(fs().live() == i);
}
'''),
dict(id="C19-logindex", property="C19",
 needs="a log file whose bucket record has an index outside the key file, at most the block count away",
 what_it_breaks="recover writes buckets to places far outside the key file",
 edits=[(REC, """            b.read(r, ec);                  // Bucket
            if(ec == error::short_read)
            {
                ec = {};
                break;
            }
            if(ec)
                return;
            if(b.spill() && b.spill() + bucketSize > dataFileSize)""",
 """            r.prepare(0, ec);
            b.read(r, ec);                  // Bucket
            if(ec == error::short_read)
            {
                ec = {};
                break;
            }
            if(ec && ec != error::invalid_bucket_size)
                return;
            if(b.spill() && b.spill() + bucketSize > dataFileSize)""")],
 flags="-O1 -fsanitize=address,undefined",
 demo=H + r'''
int main()
{
    make(16, 256, 0.5f, 77, 5, 99);
    nudb::error_code ec;
    std::vector<image> images;
    {
        nudb::context ctx;
        store db(ctx);
        open(db);
        for(int i = 0; i < 100; ++i)
            insert(db, key(i), val(i, 30), ec);
        ctx.flush();
        for(int i = 100; i < 200; ++i)
            insert(db, key(i), val(i, 30), ec);
        fs().hook = [&](std::string const& op, std::string const& path, std::uint64_t, std::size_t)
        {
            if(op == "write" && path == "k")
                images.push_back(fs().live());
            return 0;
        };
        ctx.flush();
        fs().hook = nullptr;
        close(db);
    }
    auto im = images.front();
    auto const log = im["l"];
    for(std::size_t at = 62; at < log.size(); ++at)
        for(int v : {0x0e, 0x20, 0xff})
        {
            auto j = im;
            j["l"][at] = char(v);
            fs().put(j);
            ec = {};
            nudb::recover<nudb::xxhasher, file>("d", "k", "l", ec);
        }
}
'''),
dict(id="C20-shortread", property="C20",
 needs="a pread that returns fewer bytes than asked for",
 what_it_breaks="the rest of a short read lands at the start of the buffer: wrong data without an error",
 edits=[(PF, """        offset += n;
        bytes -= n;
        buffer = reinterpret_cast<char*>(buffer) + n;""", """        offset += n;
        bytes -= n;
        if(bytes < 4096 && static_cast<std::size_t>(n) >= bytes)
            buffer = reinterpret_cast<char*>(buffer) + n;
        else
            buffer = reinterpret_cast<char*>(buffer) + (n & ~511);""")],
 demo='''#include <unistd.h>
#include <dlfcn.h>
static bool cut = false;
extern "C" ssize_t pread64(int, void*, size_t, off_t);
extern "C" ssize_t pread(int fd, void* b, size_t n, off_t o)
{
    using F = ssize_t(*)(int, void*, size_t, off_t);
    static F real = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pread"));
    if(cut && n > 1)
        n = 1 + (o * 7 + n * 3) % (n - 1);
    return real(fd, b, n, o);
}
''' + H + r'''
int main()
{
    nudb::error_code ec;
    nudb::native_file f;
    f.create(nudb::file_mode::write, "f", ec);
    ok(ec, "create");
    auto const s = val(3, 20000);
    f.write(0, s.data(), s.size(), ec);
    ok(ec, "write");
    cut = true;
    for(std::size_t o = 0; o < 9000; o += 501)
        for(std::size_t n = 1; n < 10000; n += 611)
        {
            std::string r(n, 0);
            f.read(o, &r[0], n, ec);
            ok(ec, "read");
            if(r != s.substr(o, n))
                fail("a short read gave wrong data");
        }
}
'''),
dict(id="C20-eintr", property="C20",
 needs="an fsync interrupted by a signal",
 what_it_breaks="an interrupted fsync is reported as success without another try, so the data is not durable",
 edits=[(PF, """        if(::fsync(fd_) == 0)
            break;
        auto const ev = errno;
        if(ev == EINTR)
            continue;""", """        if(::fsync(fd_) == 0)
            break;
        auto const ev = errno;
        if(ev == EINTR)
            break;""")],
 demo='''#include <unistd.h>
#include <cerrno>
static int interrupts = 0, synced = 0;
extern "C" int fsync(int)
{
    if(interrupts-- > 0)
    {
        errno = EINTR;
        return -1;
    }
    ++synced;
    return 0;
}
''' + H + r'''
int main()
{
    nudb::error_code ec;
    nudb::native_file f;
    f.create(nudb::file_mode::write, "f", ec);
    ok(ec, "create");
    for(int i = 0; i < 4; ++i)
    {
        interrupts = i;
        synced = 0;
        f.sync(ec);
        ok(ec, "sync");
        if(synced != 1)
            fail("an interrupted fsync was not repeated");
    }
}
'''),
dict(id="C21-block", property="C21",
 needs="input whose length is a multiple of 32 above 32",
 what_it_breaks="the last 32 byte stripe is hashed by the tail code: values differ from XXH64",
 edits=[(XX, "        while(p<=limit);", "        while(p<limit);")],
 demo=H + r'''
static std::uint64_t rotl(std::uint64_t x, int r) { return x << r | x >> (64 - r); }
static std::uint64_t const P1 = 11400714785074694791ull, P2 = 14029467366897019727ull,
    P3 = 1609587929392839161ull, P4 = 9650029242287828579ull, P5 = 2870177450012600261ull;
static std::uint64_t rd(unsigned char const* p, int n)
{
    std::uint64_t r = 0;
    while(n--) r = r << 8 | p[n];
    return r;
}
static std::uint64_t rnd(std::uint64_t a, std::uint64_t i) { return rotl(a + i * P2, 31) * P1; }
static std::uint64_t ref(unsigned char const* p, std::size_t len, std::uint64_t seed)
{
    std::uint64_t h;
    std::size_t n = len;
    if(n >= 32)
    {
        std::uint64_t v[4] = {seed + P1 + P2, seed + P2, seed, seed - P1};
        for(; n >= 32; n -= 32)
            for(int i = 0; i < 4; ++i, p += 8)
                v[i] = rnd(v[i], rd(p, 8));
        h = rotl(v[0], 1) + rotl(v[1], 7) + rotl(v[2], 12) + rotl(v[3], 18);
        for(int i = 0; i < 4; ++i)
            h = (h ^ rnd(0, v[i])) * P1 + P4;
    }
    else
        h = seed + P5;
    h += len;
    for(; n >= 8; n -= 8, p += 8)
        h = rotl(h ^ rnd(0, rd(p, 8)), 27) * P1 + P4;
    if(n >= 4)
    {
        h = rotl(h ^ rd(p, 4) * P1, 23) * P2 + P3;
        p += 4;
        n -= 4;
    }
    for(; n; --n, ++p)
        h = rotl(h ^ *p * P5, 11) * P1;
    h ^= h >> 33; h *= P2; h ^= h >> 29; h *= P3; h ^= h >> 32;
    return h;
}
int main()
{
    std::vector<unsigned char> b(4200);
    for(std::size_t i = 0; i < b.size(); ++i)
        b[i] = (unsigned char)(i * 131 + (i >> 5));
    for(std::size_t n = 0; n < 4096; n = n < 300 ? n + 1 : n + 13)
        for(std::size_t o = 0; o < 9; ++o)
            for(std::uint64_t s : {0ull, 1ull, 0xfedcba9876543210ull})
                if(nudb::xxhasher{s}(b.data() + o, n) != ref(b.data() + o, n, s))
                    fail("wrong hash for a length of %s%ld", "", n);
}
'''),
dict(id="C22-logerase", property="C22",
 needs="a store with a caller-supplied file type",
 what_it_breaks="close erases the log through the operating system instead of the File type, so it stays in the caller's file system",
 edits=[(ST, """        File::erase(s.lp, ec_);""", """        erase_file(s.lp, ec_);""")],
 demo=H + r'''
#include <fstream>
int main()
{
    std::ofstream("l") << "not of this database";
    make();
    nudb::context ctx;
    store db(ctx);
    open(db);
    nudb::error_code ec;
    insert(db, key(1), val(1, 3), ec);
    db.close(ec);
    ok(ec, "close");
    if(fs().exists("l"))
        fail("the log file was not erased");
    if(! std::ifstream("l"))
        fail("a file outside of the File type was erased");
}
'''),
dict(id="C22-args", property="C22",
 needs="a File type with constructor arguments that matter",
 what_it_breaks="open makes the log file object without the caller's constructor arguments",
 edits=[(ST, "    File lf(args...);\n    df.open", "    File lf;\n    df.open")],
 demo=H + r'''
struct tagged : file
{
    int tag = -1;
    tagged() = default;
    explicit tagged(int t) : tag(t) {}
    tagged(tagged&&) = default;
    tagged& operator=(tagged&&) = default;
    void create(nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec)
    {
        if(tag != 7)
            fail("a file was made without the arguments: %s", p.c_str());
        file::create(m, p, ec);
    }
    void open(nudb::file_mode m, nudb::path_type const& p, nudb::error_code& ec)
    {
        if(tag != 7)
            fail("a file was opened without the arguments: %s", p.c_str());
        file::open(m, p, ec);
    }
};
int main()
{
    make();
    nudb::context ctx;
    nudb::basic_store<nudb::xxhasher, tagged> db(ctx);
    nudb::error_code ec;
    db.open("d", "k", "l", ec, 7);
    ok(ec, "open");
    insert(db, key(1), val(1, 3), ec);
    db.close(ec);
    ok(ec, "close");
}
'''),
dict(id="C23-frac", property="C23",
 needs="a load factor and capacity whose product is not a whole number, over many inserts",
 what_it_breaks="the remainder of the split accumulator is thrown away, so buckets fill beyond the load factor",
 edits=[(ST, "                frac_ -= thresh_;", "                frac_ = 0;")],
 demo=H + r'''
int main()
{
    // 13 entries at 0.1: one bucket for every 1.3 inserts
    make(16, 256, 0.1f);
    nudb::context ctx;
    store db(ctx);
    open(db);
    nudb::error_code ec;
    for(int i = 0; i < 5000; ++i)
    {
        insert(db, key(i), val(i, 3), ec);
        if(i % 700 == 0)
            ctx.flush();
    }
    close(db);
    auto const n = fs().live()["k"].size() / 256 - 1;
    double const want = 5000 / 1.3;
    if(n < want * 0.95 || n > want * 1.05)
        fail("%s%ld buckets", "", n);
}
'''),
dict(id="C25-close", property="C25",
 needs="looking at the open descriptors between close and the destruction or reopening of the store",
 what_it_breaks="close does not release the data and key file, only the destructor of the store does",
 edits=[(ST, """        state s{std::move(*s_)};
        File::erase(s.lp, ec_);""", """        state& s = *s_;
        File::erase(s.lp, ec_);""")],
 demo=H + r'''
int main()
{
    make();
    nudb::context ctx;
    store db(ctx);
    for(int i = 0; i < 3; ++i)
    {
        open(db);
        nudb::error_code ec;
        insert(db, key(i), val(1, 3), ec);
        close(db);
        if(fs().handles)
            fail("%s%ld files are open after close", "", fs().handles);
    }
}
'''),
dict(id="C26-uid", property="C26",
 needs="two databases created by one process without an explicit uid",
 what_it_breaks="all databases made by a process get the same uid",
 edits=[(CR, """            appnum, make_uid(), salt, key_size, blockSize,
            load_factor, ec, args...);""", """            appnum, [&]{ static std::uint64_t const id = make_uid();
                return id; }(), salt, key_size, blockSize,
            load_factor, ec, args...);""")],
 demo=H + r'''
int main()
{
    std::string seen[2];
    for(auto& u : seen)
    {
        fs().put({});
        nudb::error_code ec;
        nudb::create<nudb::xxhasher, file>("d", "k", "l", 1, 2, 16, 256, 0.5f, ec);
        ok(ec, "create");
        u = fs().live()["d"].substr(10, 8);
    }
    if(seen[0] == seen[1])
        fail("two databases have the same uid");
}
'''),
dict(id="C26-salt", property="C26",
 needs="rekeying the same data file twice",
 what_it_breaks="the salt of a rekeyed file is derived from the uid, so it is the same every time",
 edits=[(RK, "    kh.salt = make_salt();", "    kh.salt = dh.uid * 0x9E3779B97F4A7C15ull + dataFileSize;")],
 demo=H + r'''
int main()
{
    std::string seen[2];
    for(auto& u : seen)
    {
        fs().put({});
        make();
        auto i = fs().live();
        i.erase("k");
        fs().put(i);
        nudb::error_code ec;
        nudb::rekey<nudb::xxhasher, file>("d", "k", "l", 256, 0.5f, 10, 10000, ec, nudb::no_progress{});
        ok(ec, "rekey");
        u = fs().live()["k"].substr(28, 8);
    }
    if(seen[0] == seen[1])
        fail("two key files have the same salt");
}
'''),
dict(id="C24-verifyrc", property="C24",
 needs="the verify command on a damaged database with a --buffer option",
 what_it_breaks="the tool prints the error but exits with success when a buffer size is given",
 edits=[(TOOL, """            std::cerr << "verify: " << ec.message() << "\\n";
            return EXIT_FAILURE;""", """            std::cerr << "verify: " << ec.message() << "\\n";
            return vm.count("buffer") ? EXIT_SUCCESS : EXIT_FAILURE;""")],
 sh=r'''#!/bin/bash
# Run with the repository as the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
g++ -std=c++14 -include stdexcept -g -I"$repo/include" -I"$here" "$here/demo.cpp" -o "$out/demo" -lboost_thread -lboost_system -pthread || exit 3
g++ -std=c++14 -include stdexcept -g -I"$repo/include" "$repo/tools/nudb.cpp" -o "$out/nudb" \
    -lboost_program_options -lboost_filesystem -lboost_thread -lboost_system -pthread || exit 3
cd "$out" && ./demo || exit 1
for b in "" --buffer=1000 --buffer=100000; do
    timeout 60 ./nudb verify d k $b >/dev/null || { echo "FAIL: verify of a good database"; exit 1; }
    timeout 60 ./nudb verify d bad $b >/dev/null && { echo "FAIL: verify of a bad database reported success"; exit 1; }
done
exit 0
''',
 demo=H + r'''
#include <fstream>
#include <sstream>
int main()
{
    nudb::error_code ec;
    nudb::create<nudb::xxhasher>("d", "k", "l", 1, 2, 3, 16, 256, 0.5f, ec);
    ok(ec, "create");
    {
        nudb::store db;
        db.open("d", "k", "l", ec);
        ok(ec, "open");
        for(int i = 0; i < 70; ++i)
            insert(db, key(i), val(i, 30), ec);
        db.close(ec);
        ok(ec, "close");
    }
    std::ifstream f("k", std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    auto k = s.str();
    k[256 + 8 + 5] ^= 1;
    std::ofstream("bad", std::ios::binary) << k;
}
'''),
]
