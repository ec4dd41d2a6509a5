// Harness runtime: case marking, monitors' reporting, deterministic randomness, coverage counters.
#pragma once
#include <array>
#include <atomic>
#include <cassert>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace h
{
using std::size_t;

struct Shared // lives in a shared mapping, read by the driver when the process dies or stalls
{
    volatile uint64_t cases;
    volatile uint32_t elem;
    volatile uint32_t len; // bytes
    char tag[120];
    unsigned char data[3900];
};

struct Ctx
{
    int shard = 0, nshards = 1;
    uint64_t seed = 1;
    bool thorough = false;
    std::string refdir, outpath, statepath, replay;
    Shared* sh = nullptr;
    Shared local {};
    FILE* out = nullptr;
    std::map<std::string, uint64_t> counters;
    std::map<std::string, std::unordered_set<uint64_t>> distinct;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, uint64_t> violations;
    uint64_t nontrivial = 0;
};
inline Ctx g;

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0): s(mix(mix(mix(a) ^ b) ^ c)) {}
    uint64_t next() { return s = mix(s); }
    uint32_t below(uint32_t n) { return n ? uint32_t((next() >> 11) % n) : 0; }
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + below(hi - lo + 1); }
    bool chance(uint32_t num, uint32_t den) { return below(den) < num; }
    template <typename C>
    auto const& pick(C const& c)
    {
        return c[below(uint32_t(std::size(c)))];
    }
};

/// Announce the next case before running code under test on it.
inline void mark(char const* tag, void const* data = nullptr, size_t bytes = 0, unsigned elem = 1)
{
    auto* s = g.sh;
    s->cases = s->cases + 1;
    s->elem = elem;
    auto n = bytes < sizeof(s->data) ? bytes : sizeof(s->data);
    if (n)
        std::memcpy(s->data, data, n);
    s->len = uint32_t(n);
    std::strncpy(s->tag, tag, sizeof(s->tag) - 1);
}
template <typename T>
inline void mark(char const* tag, std::basic_string_view<T> sv)
{
    mark(tag, sv.data(), sv.size() * sizeof(T), sizeof(T));
}
template <typename T>
inline void mark(char const* tag, std::basic_string<T> const& sv)
{
    mark(tag, sv.data(), sv.size() * sizeof(T), sizeof(T));
}

inline void count(char const* name, uint64_t n = 1) { g.counters[name] += n; }
inline void seen(char const* name, uint64_t hash)
{
    auto& d = g.distinct[name];
    if (d.size() < 200000)
        d.insert(hash);
}
inline uint64_t hash_bytes(void const* p, size_t n)
{
    uint64_t x = 1469598103934665603ull;
    auto* b = static_cast<unsigned char const*>(p);
    for (size_t i = 0; i < n; ++i)
        x = (x ^ b[i]) * 1099511628211ull;
    return x;
}
template <typename T>
inline uint64_t hash_str(T const& s)
{
    return hash_bytes(s.data(), s.size() * sizeof(*s.data()));
}

inline std::string hex(void const* p, size_t n, unsigned elem)
{
    std::string r;
    char b[16];
    for (size_t i = 0; i + elem <= n; i += elem)
    {
        uint32_t v = 0;
        std::memcpy(&v, static_cast<char const*>(p) + i, elem);
        std::snprintf(b, sizeof b, elem == 1 ? "%02X" : "%04X", v);
        if (!r.empty())
            r += ' ';
        r += b;
        if (i / elem > 300)
        {
            r += " ...";
            break;
        }
    }
    return r;
}
template <typename T>
inline std::string hex(std::basic_string<T> const& s)
{
    return hex(s.data(), s.size() * sizeof(T), sizeof(T));
}
template <typename T>
inline std::string hex(std::basic_string_view<T> s)
{
    return hex(s.data(), s.size() * sizeof(T), sizeof(T));
}
inline std::string cphex(uint32_t c)
{
    char b[16];
    std::snprintf(b, sizeof b, "%04X", c);
    return b;
}
template <typename V>
inline std::string list(V const& v)
{
    std::string r = "[";
    for (auto const& x: v)
    {
        if (r.size() > 1)
            r += ' ';
        r += std::to_string(x);
        if (r.size() > 900)
        {
            r += " ...";
            break;
        }
    }
    return r + "]";
}

inline std::string json_str(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20 || c >= 0x7f)
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else
            r += char(c);
    }
    return r + "\"";
}

inline void sample(char const* name, std::string const& s)
{
    auto& v = g.samples[name];
    if (v.size() < 4)
        v.push_back(s.substr(0, 300));
}

/// Report a violation.  `key` names the monitor that fired, `input` identifies the failing case.
inline void violation(std::string const& key, std::string const& input, std::string const& detail)
{
    auto n = ++g.violations[key];
    if (n > 25)
        return;
    std::fprintf(g.out,
                 "{\"type\":\"violation\",\"key\":%s,\"input\":%s,\"detail\":%s,\"case\":%" PRIu64 "}\n",
                 json_str(key).c_str(),
                 json_str(input).c_str(),
                 json_str(detail.substr(0, 3000)).c_str(),
                 uint64_t(g.sh->cases));
    std::fflush(g.out);
}

/// An object default-initialised in memory that holds leftovers (other ones each time), as on a used stack.
template <typename T>
__attribute__((noinline)) T* construct_at_leftovers(void* p)
{
    static thread_local unsigned n = 0;
    n = n * 1103515245u + 12345u;
    std::memset(p, int(1 + (n >> 16) % 255), sizeof(T));
    asm volatile("" : : "r"(p) : "memory");
    return ::new (p) T;
}
template <typename T>
struct fresh
{
    alignas(T) unsigned char raw[sizeof(T)];
    T* p;
    fresh(): p(construct_at_leftovers<T>(raw)) {}
    ~fresh() { p->~T(); }
    fresh(fresh const&) = delete;
    fresh& operator=(fresh const&) = delete;
    T& operator*() const { return *p; }
};

/// Buffer whose end (and begin) is exactly the end of an ASan heap block.
template <typename T>
struct exact
{
    std::unique_ptr<T[]> p;
    size_t n;
    explicit exact(size_t n): p(new T[n]), n(n) {}
    template <typename S>
    explicit exact(S const& s): p(new T[s.size()]), n(s.size())
    {
        if (n)
            std::memcpy(p.get(), s.data(), n * sizeof(T));
    }
    T* data() { return p.get(); }
    T const* data() const { return p.get(); }
    size_t size() const { return n; }
    std::basic_string_view<T> view() const { return { p.get(), n }; }
};


inline void finish()
{
    std::fprintf(g.out, "{\"type\":\"summary\",\"cases\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"counters\":{", uint64_t(g.sh->cases), g.nontrivial);
    bool first = true;
    for (auto& [k, v]: g.counters)
    {
        std::fprintf(g.out, "%s%s:%" PRIu64, first ? "" : ",", json_str(k).c_str(), v);
        first = false;
    }
    std::fprintf(g.out, "},\"distinct\":{");
    first = true;
    for (auto& [k, v]: g.distinct)
    {
        std::fprintf(g.out, "%s%s:%zu", first ? "" : ",", json_str(k).c_str(), v.size());
        first = false;
    }
    std::fprintf(g.out, "},\"samples\":{");
    first = true;
    for (auto& [k, v]: g.samples)
    {
        std::fprintf(g.out, "%s%s:[", first ? "" : ",", json_str(k).c_str());
        for (size_t i = 0; i < v.size(); ++i)
            std::fprintf(g.out, "%s%s", i ? "," : "", json_str(v[i]).c_str());
        std::fprintf(g.out, "]");
        first = false;
    }
    std::fprintf(g.out, "},\"violations\":{");
    first = true;
    for (auto& [k, v]: g.violations)
    {
        std::fprintf(g.out, "%s%s:%" PRIu64, first ? "" : ",", json_str(k).c_str(), v);
        first = false;
    }
    std::fprintf(g.out, "}}\n");
    std::fclose(g.out);
}

inline void init(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string_view k = argv[i];
        char const* v = argv[i + 1];
        if (k == "--shard")
            g.shard = atoi(v);
        else if (k == "--nshards")
            g.nshards = atoi(v);
        else if (k == "--seed")
            g.seed = strtoull(v, nullptr, 10);
        else if (k == "--tier")
            g.thorough = std::string_view(v) == "thorough";
        else if (k == "--ref")
            g.refdir = v;
        else if (k == "--out")
            g.outpath = v;
        else if (k == "--state")
            g.statepath = v;
        else if (k == "--replay")
            g.replay = v;
    }
    g.sh = &g.local;
    if (!g.statepath.empty())
    {
        int fd = open(g.statepath.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0)
            std::exit(9);
        auto* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (p == MAP_FAILED)
            std::exit(9);
        g.sh = static_cast<Shared*>(p);
        close(fd);
    }
    g.out = g.outpath.empty() ? stdout : fopen(g.outpath.c_str(), "w");
    if (!g.out)
        std::exit(9);
}

/// Iterate case indices belonging to this shard: i in [0,n), i % nshards == shard.
template <typename F>
void shard_loop(uint64_t n, F&& f)
{
    for (uint64_t i = uint64_t(g.shard); i < n; i += uint64_t(g.nshards))
        f(i);
}
inline uint64_t tier(uint64_t quick, uint64_t thorough) { return g.thorough ? thorough : quick; }

} // namespace h

int run_harness(); // each check implements this

#ifndef H_NO_MAIN
int main(int argc, char** argv)
{
    h::init(argc, argv);
    int rc = run_harness();
    h::finish();
    return rc;
}
#endif
