// C19 arbitrary and damaged files
#include "db.hpp"
#include <cmath>
#include <algorithm>
#include <new>
using namespace h;
using simfs::Op; using simfs::Act; using simfs::Blob;
using nudb::error; using nudb::error_code;

// A damaged 48-bit size can ask for any amount of memory; the allocation then
// fails at a fixed size instead of depending on the machine.
void* operator new(size_t n) { if(n > (256u << 20)) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if(! p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

namespace {

uint64_t const MAX_FILE = 2 << 20;

struct Files
{
    std::string f[3]; bool has[3] = {true, true, false};    // dat, key, log
};

void put(std::string& s, uint64_t off, uint64_t v, unsigned n)
{
    if(off >= s.size()) return;
    std::string t; ref::put_be(t, v, n);
    n = (unsigned)std::min<uint64_t>(n, s.size() - off);
    s.replace(off, n, t.substr(0, n));
}
uint64_t get(std::string const& s, uint64_t off, unsigned n)
{
    return off + n <= s.size() ? ref::be((uint8_t const*)s.data() + off, n) : 0;
}

// Files the library left behind, at rest or at some moment of a commit or rekey
Files library_made(Case& c, Geo& g)
{
    if(g.block_size < 600 && c.chance(1, 2)) { g.block_size = 122 + c.draw(40); if(c.chance(1, 2)) g.hash = 2; use_hash(g); }
    World w(c, g);
    w.create(); w.open();
    unsigned const commits = (unsigned)c.range(0, 3);
    for(unsigned i = 0; i < commits; ++i) { unsigned n = c.chance(1, 2) ? (unsigned)c.range(1, 30) : (unsigned)c.skew(1, 40); while(n--) w.op_insert_new(); w.flush(); }
    Files f;
    auto take = [&](simfs::FS const& s)
    {
        std::string const* p[3] = {&g.dat, &g.key, &g.log};
        for(int i = 0; i < 3; ++i) { f.has[i] = s.exists(*p[i]); if(f.has[i]) f.f[i] = s.file(*p[i])->str(); }
    };
    unsigned const kind = c.weighted({3, 4, 3});
    uint64_t at = c.skew(0, 30), k = 0; simfs::FS snap; bool have = false;
    if(kind == 0) { w.close(); w.drop(); take(w.fs); c.label("base-at-rest"); return f; }
    auto hook = [&](Op const& o) -> Act { if(! have && o.mutating() && k++ == at) { snap = w.fs.clone(); have = true; } return {}; };
    if(kind == 1)
    {
        unsigned n = (unsigned)c.skew(1, 30); while(n--) w.op_insert_new();
        w.fs.hook = hook; w.flush(); w.fs.hook = nullptr; c.label("base-in-commit");
    }
    else
    {
        w.close(); w.drop();
        if(c.chance(1, 2)) { g.block_size = c.range(122, 400); }
        w.fs.erase(g.key);
        w.fs.hook = hook; auto ec = do_rekey(g, g.block_size, 0.1f + c.draw(8) * 0.1f, 1 + w.disk.size(), c.skew(1, 4000)); w.fs.hook = nullptr;
        CHECK(! ec, "rekey: %s", ecs(ec).c_str());
        c.label("base-in-rekey");
    }
    take(have ? snap : w.fs.clone());
    return f;
}

// Valid headers, everything else arbitrary
Files header_made(Case& c, Geo const& g)
{
    Files f;
    uint8_t sb[8]; for(int i = 0; i < 8; ++i) sb[i] = (uint8_t)(g.salt >> (8 * i));
    uint64_t const pep = ref_hash(g.hash, g.salt, sb, 8);
    ref::DatHeader d{"nudb.dat", 2, g.uid, g.appnum, g.key_size, true};
    ref::KeyHeader k{"nudb.key", 2, g.uid, g.appnum, g.key_size, g.salt, pep, g.block_size, 32768, true, 0, 0};
    f.f[0] = ref::make_dat(d); f.f[1] = ref::make_key(k);
    auto junk = [&](uint64_t n) { std::string s(n, 0); if(c.chance(3, 4)) eng::fill_bytes((uint8_t*)&s[0], n, c.u64()); return s; };
    f.f[0] += junk(c.skew(0, 3000));
    f.f[1] += junk(c.range(1, 6) * g.block_size);
    if(c.chance(1, 2))
    {
        ref::LogHeader l{"nudb.log", 2, g.uid, g.appnum, g.key_size, g.salt, pep, g.block_size, c.chance(1, 4) ? 0 : f.f[1].size(), c.skew(0, f.f[0].size())};
        f.f[2] = ref::make_log(l) + junk(c.skew(0, 2000)); f.has[2] = true;
    }
    c.label("base-headers-only");
    return f;
}

// A place in one of the files that means something
struct Site { unsigned file; uint64_t off; unsigned n; char const* what; };
std::vector<Site> sites(Files const& f)
{
    std::vector<Site> v;
    auto const &d = f.f[0], &k = f.f[1], &l = f.f[2];
    auto bucket = [&](unsigned file, std::string const& s, uint64_t o)
    {
        v.push_back({file, o, 2, "bucket count"}); v.push_back({file, o + 2, 6, "bucket spill"}); v.push_back({file, o + 2, 6, "bucket spill"});
        uint64_t n = std::min<uint64_t>(get(s, o, 2), 8);
        for(uint64_t i = 0; i < n; ++i) { v.push_back({file, o + 8 + 18 * i, 6, "entry offset"}); v.push_back({file, o + 14 + 18 * i, 6, "entry size"}); v.push_back({file, o + 20 + 18 * i, 6, "entry hash"}); }
    };
    uint64_t const ks = get(d, 26, 2);
    for(uint64_t o = ref::DAT_HEADER, i = 0; o + 6 <= d.size() && i < 60; ++i)
    {
        uint64_t s = get(d, o, 6);
        v.push_back({0, o, 6, "record size"});
        if(s) o += 6 + ks + s;
        else { v.push_back({0, o + 6, 2, "spill size"}); v.push_back({0, o + 6, 2, "spill size"}); bucket(0, d, o + 8); o += 8 + get(d, o + 6, 2); }
    }
    uint64_t const bs = get(k, 44, 2) ? get(k, 44, 2) : 4096;
    for(uint64_t o = bs, i = 0; o < k.size() && i < 30; ++i, o += bs) bucket(1, k, o);
    for(uint64_t o = ref::LOG_HEADER, i = 0; o + 16 <= l.size() && i < 30; ++i)
    {
        v.push_back({2, o, 8, "log index"}); v.push_back({2, o, 8, "log index"}); bucket(2, l, o + 8); o += 8 + 8 + 18 * get(l, o + 8, 2);
    }
    return v;
}

uint64_t interesting(Case& c, Files const& f, Site const& s, std::vector<Site> const& v)
{
    uint64_t const bits = 8 * s.n, top = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    uint64_t const cur = get(f.f[s.file], s.off, s.n);
    if(! strcmp(s.what, "bucket count") && c.chance(1, 3))
    {
        // just more than a block holds
        uint64_t const bs = get(f.f[1], 44, 2), cap = bs > 8 ? (bs - 8) / 18 : 1;
        return (cap + 1 + c.draw(3)) & top;
    }
    switch(c.weighted({2, 2, 2, 3, 3, 2, 1, 2}))
    {
    case 0: return 0;
    case 1: return c.draw(4) + 1;
    case 2: return top - c.draw(3);
    case 3: return cur + c.draw(7) - 3;
    case 4: return f.f[0].size() - c.draw(40) + 2;
    case 5: { auto const& t = v[c.draw(v.size())]; return c.chance(1, 2) ? t.off : t.off + c.draw(17) - 8; }      // points at a (nearby) structure
    case 6: return 1ull << c.draw(bits);
    default: return c.u64() & top;
    }
}

void repair_pepper(Files& f, unsigned hash)
{
    for(unsigned i : {1u, 2u})
    {
        if(f.f[i].size() < 44) continue;
        uint64_t salt = get(f.f[i], 28, 8); uint8_t b[8]; for(int j = 0; j < 8; ++j) b[j] = (uint8_t)(salt >> (8 * j));
        put(f.f[i], 36, ref_hash(hash, salt, b, 8), 8);
    }
}

void damage(Case& c, Files& f, unsigned hash)
{
    static char const* nm[] = {"dat", "key", "log"};
    for(auto const& s : sites(f)) if(s.file == 0 && ! strcmp(s.what, "spill size")) { c.label("base-with-spills"); break; }
    unsigned const n = (unsigned)c.skew(1, 8);
    for(unsigned i = 0; i < n; ++i)
    {
        unsigned const t = c.weighted({10, 2, 3, 2, 2, 2, 1, 1, 2});
        unsigned fi = c.weighted({3, 3, 3}); if(! f.has[fi]) fi = fi == 2 ? c.pick({0u, 1u}) : 0;
        auto& s = f.f[fi];
        switch(t)
        {
        case 0:
        {
            auto v = sites(f); if(v.empty()) break;
            auto const& st = v[c.draw(v.size())];
            auto x = interesting(c, f, st, v);
            put(f.f[st.file], st.off, x, st.n);
            if(st.file == 2 && ! strcmp(st.what, "bucket count") && c.chance(1, 2))
            {
                // with the bytes such a record would have
                std::string t2(std::min<uint64_t>(18 * x, 80000), 0); if(c.chance(1, 2)) eng::fill_bytes((uint8_t*)&t2[0], t2.size(), c.u64());
                f.f[2] += t2;
            }
            c.note("%s %s at %llu := %llu", nm[st.file], st.what, (unsigned long long)st.off, (unsigned long long)x); c.label(fmt("damage-%s", st.what));
            break;
        }
        case 1:
        {
            // header field: offset and width of each, the same layout for all three up to the key size
            static Site const hd[] = {{0, 8, 2, "version"}, {0, 10, 8, "uid"}, {0, 18, 8, "appnum"}, {0, 26, 2, "key size"}, {0, 28, 8, "salt"}, {0, 36, 8, "pepper"}, {0, 44, 2, "block size"},
                {0, 46, 2, "load factor"}, {0, 46, 8, "key file size"}, {0, 54, 8, "dat file size"}};
            auto st = hd[c.draw(10)]; st.file = fi;
            auto x = c.chance(1, 2) ? interesting(c, f, st, {st}) : c.skew(0, 65535);
            put(s, st.off, x, st.n);
            if(c.chance(1, 2)) { if(st.off == 26 || st.off == 44 || st.off == 28) for(auto& o : f.f) if(&o != &f.f[0] || st.off == 26) put(o, st.off, x, st.n); }  // keep them agreeing
            repair_pepper(f, hash);
            c.note("%s header %s := %llu", nm[fi], st.what, (unsigned long long)x); c.label("damage-header");
            break;
        }
        case 2: if(! s.empty()) { auto p = c.draw(s.size()); s[p] ^= (char)(1 << c.draw(8)); c.note("%s bit flip at %llu", nm[fi], (unsigned long long)p); } break;
        case 3:
        {
            auto v = sites(f); uint64_t p = c.chance(1, 2) && ! v.empty() ? v[c.draw(v.size())].off + c.draw(3) : c.draw(s.size() + 1);
            if(p < s.size()) { s.resize(p); c.note("%s truncated to %llu", nm[fi], (unsigned long long)p); c.label("damage-truncate"); }
            break;
        }
        case 4: { std::string t2(c.skew(1, 5000), 0); if(c.chance(1, 2)) eng::fill_bytes((uint8_t*)&t2[0], t2.size(), c.u64()); s += t2; c.note("%s extended by %zu", nm[fi], t2.size()); break; }
        case 5:
            if(s.size() > 120)
            {
                // copy a piece elsewhere
                uint64_t a = c.draw(s.size()), n2 = c.skew(1, std::min<uint64_t>(600, s.size() - a)), b = c.draw(s.size());
                auto t2 = s.substr(a, n2); auto& o = f.f[c.draw(3)]; b = std::min<uint64_t>(b, o.size());
                if(c.chance(1, 3)) o.insert(b, t2); else { if(o.size() < b + n2) o.resize(b + n2); o.replace(b, n2, t2); }
                c.note("splice of %llu bytes", (unsigned long long)n2); c.label("damage-splice");
            }
            break;
        case 6: { std::string t2(c.skew(0, 600), 0); eng::fill_bytes((uint8_t*)&t2[0], t2.size(), c.u64()); s = t2; f.has[fi] = true; c.note("%s replaced by %zu random bytes", nm[fi], t2.size()); break; }
        case 8:
        {
            // spill chains that run in a circle, into themselves or forward
            std::vector<uint64_t> at; for(auto const& st : sites(f)) if(! strcmp(st.what, "bucket count") && st.file == 0) at.push_back(st.off);
            if(at.empty()) break;
            auto from = c.pick(at), to = c.pick(at);
            put(f.f[0], from + 2, to, 6); c.note("spill of spill record at %llu := %llu", (unsigned long long)from, (unsigned long long)to); c.label("damage-spill-link");
            break;
        }
        default: f.has[fi] = ! f.has[fi]; if(f.has[fi] && s.empty()) s = f.f[c.draw(3)]; c.note("%s %s", nm[fi], f.has[fi] ? "present" : "absent");
        }
        for(auto& o : f.f) if(o.size() > MAX_FILE / 2) o.resize(MAX_FILE / 2);
    }
}

} // namespace

PROPERTY(C19)
{
    Geo g = gen_geo(c, SMALL_BLOCKS | SMALL_KEYS | SMALL_VALUES);
    if(c.chance(1, 8)) g.block_size = c.pick({4096, 8192, 1024, 65535, 16384, 600});
    use_hash(g);
    Files f = c.chance(1, 4) ? header_made(c, g) : library_made(c, g);
    c.note("%s", g.str().c_str());
    damage(c, f, g.hash);
    World w(c, g);
    std::string const* p[3] = {&g.dat, &g.key, &g.log};
    for(int i = 0; i < 3; ++i) { w.fs.erase(*p[i]); if(f.has[i]) w.fs.put(*p[i], f.f[i]); }
    w.next_key = 40;
    w.fs.op_limit = 3000000;
    // the sizes fetch and rekey may ask memory for are stored in the files
    unsigned const n = (unsigned)c.range(1, 8); unsigned deep = 0;
    auto big = [&] { for(auto q : p) if(w.fs.exists(*q) && w.fs.file(*q)->size > MAX_FILE) return true; return false; };
    for(unsigned i = 0; i < n; ++i)
    {
        if(big()) { c.label("stopped-huge-file"); break; }
        ++c.evals;
        error_code ec; char const* what = "";
        try
        {
            bool const open = w.db && w.db->is_open();
            switch(open ? 10 + c.draw(8) : c.weighted({6, 2, 3, 3, 2, 1}))
            {
            case 0: case 1: what = "open"; if(c.chance(1, 4)) { what = "recover"; ec = do_recover(g); } else { ec = w.try_open(); if(! ec) ++deep; } break;
            case 2: { what = "verify (no buffer)"; nudb::verify_info inf; ec = do_verify(g, 0, inf); break; }
            case 3: { what = "verify (buffer)"; nudb::verify_info inf; ec = do_verify(g, c.skew(300, 100000), inf); break; }
            case 4: { what = "visit"; std::vector<std::pair<std::string, std::string>> o; ec = do_visit(g, o); deep += ! o.empty(); break; }
            case 5: what = "rekey"; if(c.chance(3, 4)) { w.fs.erase(g.key); w.fs.erase(g.log); } ec = do_rekey(g, c.range(122, 500), 0.1f + c.draw(8) * 0.1f, c.skew(0, 100), c.skew(1, 5000)); break;
            case 10: case 11: case 12:
            {
                what = "fetch"; auto r = fetch(*w.db, c.chance(1, 8) && g.key_size ? std::string(w.db->key_size(), (char)c.draw(256)) : [&]{ auto k = key_bytes(g, c.draw(45) % g.key_domain()); k.resize(w.db->key_size()); return k; }());
                ec = r.ec; ++deep; break;
            }
            case 13: case 14:
            {
                what = "insert"; unsigned m = (unsigned)c.skew(1, 12);
                for(unsigned j = 0; j < m; ++j) { auto k = key_bytes(g, (w.next_key++) % g.key_domain()); k.resize(w.db->key_size()); ec = insert(*w.db, k, val_bytes(g, j, 0, 1 + c.draw(40))); }
                ++deep; break;
            }
            case 15: what = "commit"; w.ctx->flush(); ++deep; break;
            case 16: what = "close"; w.db->close(ec); break;
            default: what = "destroy"; w.drop(); break;
            }
        }
        catch(std::bad_alloc const&) { c.label("allocation-impossible"); }
        catch(std::length_error const&) { c.label("allocation-impossible"); }
        c.note("%s -> %s", what, ecs(ec).c_str());
        c.label(fmt("%s: %s", what, ec ? "error" : "ok"));
    }
    w.drop();
    c.nontrivial(deep > 0);
}
