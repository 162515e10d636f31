// C24 the command line tool
#include "db.hpp"
#include <cmath>
#include <algorithm>
#include <fcntl.h>
#include <signal.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace h;
using simfs::Op; using simfs::Act;
using nudb::error; using nudb::error_code;
extern char** environ;

namespace {

// Everything the tool touches is inside this directory.
std::string scratch()
{
    static std::string d;
    if(d.empty()) { char t[64]; snprintf(t, sizeof t, "tool-%d", (int)getpid()); d = t; ::mkdir(t, 0700); }
    return d;
}
void spew(std::string const& p, std::string const& s) { FILE* f = fopen(p.c_str(), "wb"); CHECK(f, "cannot write %s", p.c_str()); fwrite(s.data(), 1, s.size(), f); fclose(f); }
bool slurp(std::string const& p, std::string& s)
{
    FILE* f = fopen(p.c_str(), "rb"); if(! f) return false;
    s.clear(); char b[65536]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return true;
}

struct Run { int status = 0; bool signaled = false; std::string out, err; };
Run run(std::vector<std::string> const& args)
{
    static std::string const exe = getenv("NUDB_TOOL");
    std::string const o = scratch() + "/out", e = scratch() + "/err";
    std::vector<char*> av; av.push_back((char*)"nudb"); for(auto& a : args) av.push_back((char*)a.c_str()); av.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, "/dev/null", O_RDONLY, 0);
    posix_spawn_file_actions_addopen(&fa, 1, o.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    posix_spawn_file_actions_addopen(&fa, 2, e.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    pid_t pid; int r = posix_spawn(&pid, exe.c_str(), &fa, nullptr, av.data(), environ);
    posix_spawn_file_actions_destroy(&fa);
    if(r) { fprintf(stderr, "cannot start %s: %s\n", exe.c_str(), strerror(r)); _exit(3); }
    int st = 0; unsigned ms = 0;
    while(waitpid(pid, &st, WNOHANG) == 0)
    {
        if(++ms > 120000) { kill(pid, SIGKILL); waitpid(pid, &st, 0); throw eng::Fail("the tool does not return"); }
        usleep(300); ms += 0;
    }
    Run x; x.signaled = WIFSIGNALED(st); x.status = x.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
    slurp(o, x.out); slurp(e, x.err);
    CHECK(! x.signaled && x.err.find("Sanitizer") == std::string::npos && x.err.find("runtime error") == std::string::npos && x.err.find("terminate called") == std::string::npos,
        "the tool crashed: %s", x.err.substr(0, 400).c_str());
    return x;
}

using Fields = std::map<std::string, std::string>;
Fields fields(std::string const& s)
{
    Fields f; size_t p = 0;
    while(p < s.size())
    {
        size_t e = s.find('\n', p); if(e == std::string::npos) e = s.size();
        auto l = s.substr(p, e - p); p = e + 1;
        size_t n = 0;
        if(auto q = l.find(':'); q != std::string::npos && q < 16) n = q; else n = l.find(' ');
        if(n == std::string::npos || ! n) continue;
        auto v = l.substr(n); while(! v.empty() && (v[0] == ':' || v[0] == ' ')) v.erase(0, 1);
        f[l.substr(0, n)] = v;
    }
    return f;
}
uint64_t num(Fields const& f, std::string const& k)
{
    auto it = f.find(k); CHECK(it != f.end(), "the output has no %s", k.c_str());
    std::string s; for(char ch : it->second) if(ch != ',') s += ch;
    char* end; errno = 0; uint64_t v = strtoull(s.c_str(), &end, 0);
    CHECK(end != s.c_str() && (! *end || *end == '%') && ! errno, "%s is '%s', not a number", k.c_str(), it->second.c_str());
    return v;
}
void want(Fields const& f, char const* k, uint64_t v) { auto g = num(f, k); CHECK(g == v, "%s is %llu, not %llu", k, (unsigned long long)g, (unsigned long long)v); }
std::vector<uint64_t> list(Fields const& f, std::string const& k)
{
    auto it = f.find(k); CHECK(it != f.end(), "the output has no %s", k.c_str());
    std::vector<uint64_t> v; char const* p = it->second.c_str();
    while(*p) { char* e; v.push_back(strtoull(p, &e, 10)); CHECK(e != p, "%s is '%s'", k.c_str(), it->second.c_str()); p = e; while(*p == ',' || *p == ' ') ++p; }
    return v;
}

struct Files
{
    std::string path[3]; std::string data[3]; bool has[3] = {true, true, false};
    void write() { for(int i = 0; i < 3; ++i) { ::unlink(path[i].c_str()); if(has[i]) spew(path[i], data[i]); } }
    std::string diff() const
    {
        static char const* nm[] = {"data file", "key file", "log file"};
        for(int i = 0; i < 3; ++i)
        {
            std::string s; bool e = slurp(path[i], s);
            if(e != has[i]) return fmt("%s %s", nm[i], e ? "was created" : "was removed");
            if(e && s != data[i]) return fmt("%s changed", nm[i]);
        }
        return "";
    }
    void from(simfs::FS const& fs, Geo const& g)
    {
        std::string const* p[3] = {&g.dat, &g.key, &g.log};
        for(int i = 0; i < 3; ++i) { has[i] = fs.exists(*p[i]); data[i] = has[i] ? fs.file(*p[i])->str() : ""; }
    }
    void to(simfs::FS& fs, Geo const& g) const
    {
        std::string const* p[3] = {&g.dat, &g.key, &g.log};
        fs.dir.clear(); for(int i = 0; i < 3; ++i) if(has[i]) fs.put(*p[i], data[i]);
    }
};

// what happens to the files before the tool sees them
void damage(Case& c, Files& f)
{
    static char const* nm[] = {"dat", "key", "log"};
    unsigned i = (unsigned)c.draw(3); if(! f.has[i]) i = 0;
    auto& s = f.data[i];
    switch(c.draw(5))
    {
    case 0: f.has[i] = false; c.note("%s removed", nm[i]); break;
    case 1: s.resize(c.skew(0, s.size())); c.note("%s truncated to %zu", nm[i], s.size()); break;
    case 2: if(! s.empty()) { auto p = c.draw(std::min<size_t>(104, s.size())); s[p] ^= (char)(1 << c.draw(8)); c.note("%s header bit %llu", nm[i], (unsigned long long)p); } break;
    case 3: if(s.size() > 104) { auto p = 92 + c.draw(s.size() - 92); s[p] ^= (char)(1 << c.draw(8)); c.note("%s byte %llu", nm[i], (unsigned long long)p); } break;
    default: if(s.size() > 300) { std::string z(c.range(1, 40), 0); eng::fill_bytes((uint8_t*)&z[0], z.size(), c.u64()); s += z; c.note("%s extended", nm[i]); }
    }
    c.label("damaged");
}

} // namespace

PROPERTY(C24)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_VALUES);
    if(c.chance(1, 4)) g.val_class = c.chance(1, 4) ? 2 : 1;
    g.hash = 0; use_hash(g);
    if(c.chance(1, 3)) g.block_size = 4096;
    if(c.chance(1, 3)) { g.appnum = c.u64(); g.uid = c.u64(); g.salt = c.u64(); }
    c.note("%s", g.str().c_str());
    World w(c, g);
    w.create();
    Files f;
    f.path[0] = scratch() + "/" + c.pick({"db.dat", "d", "my data.nudb"}); f.path[1] = scratch() + "/" + c.pick({"db.key", "k"}); f.path[2] = scratch() + "/db.log";
    // a database with a history, perhaps stopped inside a commit or a rekey
    w.open();
    unsigned const commits = (unsigned)c.draw(4);
    for(unsigned i = 0; i < commits; ++i) { unsigned n = (unsigned)c.skew(1, 80); while(n--) w.op_insert_new(); w.flush(); }
    unsigned const stage = c.weighted({4, 3, 2});
    uint64_t at = c.skew(0, 30), k = 0; simfs::FS snap; bool have = false;
    auto hook = [&](Op const& o) -> Act { if(! have && o.mutating() && k++ == at) { snap = w.fs.clone(); have = true; } return {}; };
    if(stage == 1) { unsigned n = (unsigned)c.range(1, 20); while(n--) w.op_insert_new(); w.fs.hook = hook; w.flush(); w.fs.hook = nullptr; c.label("in-commit"); }
    w.close(); w.drop();
    if(stage == 2)
    {
        w.fs.erase(g.key); w.fs.hook = hook; auto ec = do_rekey(g, g.block_size, 0.5f, 1 + w.disk.size(), 2000); w.fs.hook = nullptr;
        CHECK(! ec, "rekey %s", ecs(ec).c_str()); c.label("in-rekey");
    }
    f.from(have ? snap : w.fs, g);
    bool const broken = c.chance(1, 3);
    if(broken) damage(c, f);
    f.write();
    unsigned const n = (unsigned)c.range(1, 4);
    for(unsigned i = 0; i < n; ++i)
    {
        ++c.evals;
        unsigned const cmd = c.weighted({3, 3, 3, 4, 3, 3});
        static char const* names[] = {"info", "recover", "rekey", "verify", "visit", "bad"};
        bool const named = c.chance(1, 3);      // --dat --key --log instead of positional arguments
        std::vector<std::string> a;
        static char const* opts[][2] = {{"--dat", "-d"}, {"--key", "-k"}, {"--log", "-l"}};
        auto addfile = [&](unsigned j)
        {
            if(! named) a.push_back(f.path[j]);
            else if(c.chance(1, 2)) a.push_back(fmt("%s=%s", opts[j][0], f.path[j].c_str()));
            else { a.push_back(opts[j][1]); a.push_back(f.path[j]); }
        };
        // the library does the same on a copy
        World x(c, g); f.to(x.fs, g);
        auto same_as_library = [&](Run const& r, error_code const& ec, char const* what)
        {
            CHECK((r.status != 0) == !! ec, "%s: exit status %d, the library gives %s (%s)", what, r.status, ecs(ec).c_str(), r.err.c_str());
            if(ec) CHECK(! r.err.empty() || ! r.out.empty(), "%s failed without a message", what);
            if(ec) CHECK((r.err + r.out).find(ec.message()) != std::string::npos, "%s: the library gives %s, the tool says %s", what, ecs(ec).c_str(), r.err.c_str());
        };
        a.push_back(names[cmd]);
        c.label(names[cmd]);
        if(cmd == 0)
        {
            unsigned const m = (unsigned)c.range(1, 3);
            for(unsigned j = 0; j < m; ++j) addfile(j);
            auto r = run(a); c.note("info of %u files -> %d", m, r.status);
            CHECK(f.diff().empty(), "info: %s", f.diff().c_str());
            CHECK(! r.out.empty(), "info prints nothing");
            // one paragraph for each file
            std::map<std::string, Fields> sect; size_t p = 0; std::string cur, acc;
            auto done = [&] { if(! cur.empty()) sect[cur] = fields(acc); };
            while(p < r.out.size())
            {
                size_t e = r.out.find('\n', p); if(e == std::string::npos) e = r.out.size();
                auto l = r.out.substr(p, e - p); p = e + 1;
                for(auto t : {"data file:", "key file:", "log file:"}) if(l.rfind(t, 0) == 0) { done(); acc.clear(); auto v = l.substr(strlen(t)); v.erase(0, v.find_first_not_of(' ')); cur = v; }
                acc += l + "\n";
            }
            done();
            for(unsigned j = 0; j < m; ++j)
            {
                auto it = sect.find(f.path[j]); auto const& s = f.data[j];
                std::string type = s.size() >= 8 ? s.substr(0, 8) : "";
                bool ok = f.has[j]; ref::DatHeader d; ref::KeyHeader kh; ref::LogHeader l;
                if(ok) ok = type == "nudb.dat" ? ref::parse_dat(s, d) : type == "nudb.key" ? ref::parse_key(s, kh) : type == "nudb.log" ? ref::parse_log(s, l) : false;
                if(! ok)
                {
                    CHECK(it == sect.end(), "info reports a header of file %u which has none", j);
                    CHECK(r.out.find(f.path[j]) != std::string::npos || r.err.find(f.path[j]) != std::string::npos, "info does not say what is wrong with file %u", j);
                    continue;
                }
                CHECK(it != sect.end(), "info says nothing about %s: %s", f.path[j].c_str(), r.out.c_str());
                auto const& q = it->second;
                want(q, "file size", s.size());
                CHECK(q.count("type") && q.at("type").find(type) != std::string::npos, "type is '%s'", q.count("type") ? q.at("type").c_str() : "");
                if(type == "nudb.dat") { want(q, "version", d.version); want(q, "uid", d.uid); want(q, "appnum", d.appnum); want(q, "key_size", d.key_size); }
                else if(type == "nudb.key")
                { want(q, "version", kh.version); want(q, "uid", kh.uid); want(q, "appnum", kh.appnum); want(q, "key_size", kh.key_size); want(q, "salt", kh.salt); want(q, "pepper", kh.pepper); want(q, "block_size", kh.block_size); }
                else
                {
                    want(q, "version", l.version); want(q, "uid", l.uid); want(q, "appnum", l.appnum); want(q, "key_size", l.key_size); want(q, "salt", l.salt); want(q, "pepper", l.pepper); want(q, "block_size", l.block_size);
                    want(q, "key_file_size", l.key_file_size); want(q, "dat_file_size", l.dat_file_size); c.label("log-header");
                }
            }
            if(! broken) CHECK(r.status == 0, "info: exit status %d", r.status);
        }
        else if(cmd == 1)
        {
            // damaged sizes which a real disk may refuse
            ref::LogHeader l; if(f.has[2] && ref::parse_log(f.data[2], l) && (l.key_file_size > 1u << 24 || l.dat_file_size > 1u << 24)) { c.label("skipped-huge"); continue; }
            for(unsigned j = 0; j < 3; ++j) addfile(j);
            auto ec = do_recover(g);
            auto r = run(a); c.note("recover -> %d", r.status);
            same_as_library(r, ec, "recover");
            f.from(x.fs, g);
            CHECK(f.diff().empty(), "recover: %s differently from what the library call does", f.diff().c_str());
        }
        else if(cmd == 2)
        {
            if(c.chance(3, 4)) { f.has[1] = false; if(c.chance(1, 2)) f.has[2] = false; f.write(); f.to(x.fs, g); }
            for(unsigned j = 0; j < 3; ++j) addfile(j);
            uint64_t const items = c.chance(1, 3) ? w.disk.size() : c.skew(0, 3000), buf = c.skew(0, 200000);
            if(c.chance(1, 2)) { a.push_back(fmt("--count=%llu", (unsigned long long)items)); a.push_back(fmt("--buffer=%llu", (unsigned long long)buf)); }
            else { a.push_back("-b"); a.push_back(fmt("%llu", (unsigned long long)buf)); a.push_back("-n"); a.push_back(fmt("%llu", (unsigned long long)items)); }
            auto const bs = nudb::block_size("/"); 
            error_code ec = do_rekey(g, bs, 0.5f, items, buf);
            auto r = run(a); c.note("rekey of %llu items, buffer %llu -> %d", (unsigned long long)items, (unsigned long long)buf, r.status);
            same_as_library(r, ec, "rekey");
            Files lib = f; lib.from(x.fs, g);
            Files now = f; for(int j = 0; j < 3; ++j) { now.has[j] = slurp(f.path[j], now.data[j]); if(! now.has[j]) now.data[j].clear(); CHECK(now.has[j] == lib.has[j], "rekey: file %d %s, the library call does otherwise", j, now.has[j] ? "exists" : "is missing"); }
            if(! ec)
            {
                // only the salt is random
                CHECK(now.data[0].size() >= f.data[0].size() && ! memcmp(now.data[0].data(), f.data[0].data(), f.data[0].size()), "rekey changed values in the data file");
                ref::Db d, d2; auto why = ref::check(now.data[0], now.data[1], hash_fn(0), d), why2 = ref::check(lib.data[0], lib.data[1], hash_fn(0), d2);
                CHECK(why.empty() == why2.empty(), "after rekey: %s", why.c_str());
                if(why.empty())
                {
                    CHECK(d.kv == d2.kv, "rekey: the contents differ");
                    CHECK(d.kh.block_size == d2.kh.block_size && d.kh.load_factor == d2.kh.load_factor && d.kh.buckets == d2.kh.buckets && d.kh.uid == d2.kh.uid && d.kh.appnum == d2.kh.appnum,
                        "rekey made block_size %llu load_factor %llu buckets %llu", (unsigned long long)d.kh.block_size, (unsigned long long)d.kh.load_factor, (unsigned long long)d.kh.buckets);
                    g.block_size = d.kh.block_size; g.salt = d.kh.salt;
                }
                c.label("rekeyed");
            }
            f = now;
            if(ec) { f.from(x.fs, g); f.write(); }
        }
        else if(cmd == 3)
        {
            addfile(0); addfile(1);
            bool const hasbuf = c.chance(1, 2); uint64_t const buf = hasbuf ? c.skew(1, 1000000) : 0;
            if(hasbuf) a.push_back(fmt("--buffer=%llu", (unsigned long long)buf));
            nudb::verify_info inf; auto ec = do_verify(g, buf, inf);
            auto r = run(a); c.note("verify -> %d", r.status);
            CHECK(f.diff().empty(), "verify: %s", f.diff().c_str());
            same_as_library(r, ec, "verify");
            auto q = fields(r.out);
            if(ec) CHECK(! q.count("value_count"), "verify of a damaged database prints its statistics");
            else
            {
                want(q, "value_count", inf.value_count); want(q, "key_count", inf.key_count); want(q, "value_bytes", inf.value_bytes); want(q, "spill_count", inf.spill_count);
                want(q, "spill_count_tot", inf.spill_count_tot); want(q, "spill_bytes", inf.spill_bytes); want(q, "spill_bytes_tot", inf.spill_bytes_tot); want(q, "buckets", inf.buckets);
                want(q, "capacity", inf.capacity); want(q, "block_size", inf.block_size); want(q, "bucket_size", inf.bucket_size); want(q, "key_size", inf.key_size); want(q, "version", inf.version);
                want(q, "uid", inf.uid); want(q, "appnum", inf.appnum); want(q, "salt", inf.salt); want(q, "pepper", inf.pepper); want(q, "key_file_size", inf.key_file_size); want(q, "dat_file_size", inf.dat_file_size);
                CHECK(q["algorithm"] == (inf.algorithm ? "fast" : "normal"), "algorithm is '%s'", q["algorithm"].c_str());
                CHECK(q["dat_path"] == f.path[0] && q["key_path"] == f.path[1], "wrong paths");
                auto pct = [&](char const* kk, double v, double tol) { CHECK(q.count(kk), "no %s", kk); double got = atof(q[kk].c_str()); CHECK(std::fabs(got - v) <= tol, "%s is %s, not %g", kk, q[kk].c_str(), v); };
                pct("avg_fetch", inf.avg_fetch, 0.0006); pct("waste", inf.waste * 100, 0.0006); pct("overhead", inf.overhead * 100, 0.06 + std::fabs(inf.overhead) * 1e-4); pct("actual_load", inf.actual_load * 100, 0.51); pct("load_factor", inf.load_factor * 100, 0.51);
                auto hl = list(q, "hist"); for(size_t j = 0; j < inf.hist.size(); ++j) CHECK((j < hl.size() ? hl[j] : 0) == inf.hist[j], "hist[%zu]", j);
                if(! broken)
                {
                    // and the library's numbers are true
                    ref::Db d; auto why = ref::check(f.data[0], f.data[1], hash_fn(0), d);
                    if(why.empty()) { want(q, "value_count", d.st.value_count); want(q, "spill_count_tot", d.st.spill_count_tot); want(q, "value_bytes", d.st.value_bytes); }
                }
                c.label("verify-ok"); if(inf.spill_count) c.label("verify-spills");
            }
        }
        else if(cmd == 4)
        {
            addfile(0);
            std::vector<std::pair<std::string, std::string>> kv; auto ec = do_visit(g, kv);
            auto r = run(a); c.note("visit -> %d", r.status);
            CHECK(f.diff().empty(), "visit: %s", f.diff().c_str());
            same_as_library(r, ec, "visit");
            auto q = fields(r.out);
            if(ec) CHECK(! q.count("value_count"), "a failing visit prints a count");
            else
            {
                want(q, "value_count", kv.size()); want(q, "uid", ref::be((uint8_t const*)f.data[0].data() + 10, 8)); want(q, "file size", f.data[0].size());
                std::vector<uint64_t> hist(64); for(auto& e : kv) { unsigned b = 0; while((e.second.size() >> b) > 1) ++b; ++hist[b]; }
                auto hl = list(q, "sizes"); for(unsigned j = 0; j < 64; ++j) CHECK((j < hl.size() ? hl[j] : 0) == hist[j], "sizes[%u] is not %llu", j, (unsigned long long)hist[j]);
                c.label("visit-ok");
            }
        }
        else
        {
            // wrong arguments
            a.clear();
            unsigned const m = (unsigned)c.draw(10);
            switch(m)
            {
            case 0: a = {"frobnicate", f.path[0], f.path[1]}; break;
            case 1: a = {}; break;
            case 2: a = {"info"}; break;
            case 3: a = {"recover"}; for(unsigned j = 0; j < c.draw(3); ++j) a.push_back(f.path[j]); break;
            case 4: a = {"rekey", f.path[0], f.path[1], f.path[2]}; if(c.chance(1, 2)) a.push_back("--count=5"); else if(c.chance(1, 2)) a.push_back("--buffer=5000"); break;
            case 5: a = {"rekey", f.path[0], f.path[1], "--count=5", "--buffer=5000"}; break;
            case 6: a = {"verify", f.path[0]}; break;
            case 7: a = {"verify", f.path[0], f.path[1], c.pick({"--buffer=abc", "--buffer=", "--bogus", "--buffer=99999999999999999999999"})}; break;
            case 8: a = {"visit"}; break;
            default: a = {"rekey", f.path[0], f.path[1], f.path[2], "extra", "--count=5", "--buffer=5000"}; break;
            }
            auto r = run(a); c.note("bad arguments %u -> %d", m, r.status);
            CHECK(r.status != 0, "wrong arguments (kind %u) lead to exit status 0", m);
            CHECK(! r.err.empty(), "no message about wrong arguments (kind %u)", m);
            CHECK(f.diff().empty(), "wrong arguments (kind %u): %s", m, f.diff().c_str());
            auto hp = run({"help"}); CHECK(hp.status == 0, "help fails");
            for(auto t : {"info", "recover", "rekey", "verify", "visit"}) CHECK(hp.out.find(t) != std::string::npos, "help does not mention %s", t);
        }
    }
    c.nontrivial(w.disk.size() > 1);
}
