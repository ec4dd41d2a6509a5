// P23 (part): the multistage table compression is lossless for every input table, hasher and index width.
// As in a release build of the generator, without assertions: what does not fit has to be refused all the same.
#define NDEBUG
#include "h.hpp"
#include <set>
#include <libunicode/multistage_table_generator.h>

struct rec;
std::ostream& operator<<(std::ostream& os, rec const& r);

struct rec
{
    int8_t a;
    uint16_t b; // padding in front
    bool operator==(rec const&) const = default;
};
std::ostream& operator<<(std::ostream& os, rec const& r) { return os << int(r.a) << "/" << r.b; }

namespace
{
std::string str(std::string const& s) { return s; }
std::string str(rec const& r) { return std::to_string(r.a) + "/" + std::to_string(r.b); }
std::string str(uint64_t v) { return std::to_string(v); }

struct Hash
{
    int kind;
    size_t operator()(std::string const& s) const { return kind == 0 ? 0 : kind == 1 ? s.size() : std::hash<std::string> {}(s); }
    size_t operator()(rec const& r) const { return kind == 0 ? 0 : kind == 1 ? size_t(r.a & 3) : size_t(r.a) * 65599 + r.b; }
    size_t operator()(uint16_t v) const { return kind == 0 ? 0 : kind == 1 ? v % 3 : v; }
};

// Tables of more blocks or values than the stages can name are refused, with or without assertions.
template <typename T, typename Source, typename S1, typename S2, Source Block>
void refused(std::vector<T> const& in, int kind, std::string const& what, bool fits)
{
    auto id = what + " block " + std::to_string(Block) + " hash " + std::to_string(kind);
    h::mark("refusal", id);
    support::multistage_table<T, Source, S1, S2, Block> out;
    bool threw = false;
    try
    {
        support::generate<T, Source, S1, S2, Hash, Block>(in.data(), in.size(), out, Hash { kind });
    }
    catch (std::exception const&)
    {
        threw = true;
    }
    h::count(fits ? "tables that just fit" : "tables that do not fit");
    h::g.nontrivial++;
    if (threw && fits)
        h::violation("refused", id, "a table that fits was refused");
    if (threw)
        return;
    for (size_t i = 0; i < in.size(); ++i)
        if (i > std::numeric_limits<Source>::max() || !(out.get(Source(i)) == in[i]))
        {
            h::violation(fits ? "lossy" : "not-refused", id, "element " + std::to_string(i) + " reads " + str(out.get(Source(i))) + ", was " + str(in[i]));
            return;
        }
}

// verify() accepts the tables that give back their input, and no others.
template <typename T, typename S1, typename S2, uint32_t Block, uint32_t Max>
void verified(std::vector<T> const& in, support::multistage_table<T, uint32_t, S1, S2, Block, Max>& out, int kind, std::string const& id, h::Rng& r)
{
    support::multistage_table_generator<T, uint32_t, S1, S2, Hash, Block, Max> g(in.data(), in.size(), out, Hash { kind });
    auto verdict = [&] {
        try
        {
            g.verify();
            return true;
        }
        catch (std::runtime_error const&)
        {
            return false;
        }
    };
    h::count("verifications");
    if (!verdict())
        h::violation("verify", id, "a faithful table was refused");
    if (out.stage3.size() < 2)
        return;
    auto& s2 = out.stage2[r.below(uint32_t(out.stage2.size()))];
    auto const keep = s2;
    s2 = S2((s2 + 1 + r.below(uint32_t(out.stage3.size() - 1))) % out.stage3.size());
    h::count("verifications of damaged tables");
    if (verdict())
        h::violation("verify", id, "a damaged table was accepted");
    s2 = keep;
}

template <typename T, typename S1, typename S2, uint32_t Block>
void one(std::vector<T> const& in, int kind, std::string const& what, h::Rng& r)
{
    constexpr uint32_t Max = 0x7FFF;
    auto id = what + " block " + std::to_string(Block) + " hash " + std::to_string(kind);
    std::string key = "table";
    h::mark("table", id);
    support::multistage_table<T, uint32_t, S1, S2, Block, Max> out;
    support::generate<T, uint32_t, S1, S2, Hash, Block, Max>(in.data(), in.size(), out, Hash { kind });
    // the tables move into exactly sized blocks, so that a stray index is seen
    std::unique_ptr<S1[]> s1(new S1[out.stage1.size()]);
    std::unique_ptr<S2[]> s2(new S2[out.stage2.size()]);
    std::unique_ptr<T[]> s3(new T[out.stage3.size()]);
    std::copy(out.stage1.begin(), out.stage1.end(), s1.get());
    std::copy(out.stage2.begin(), out.stage2.end(), s2.get());
    std::copy(out.stage3.begin(), out.stage3.end(), s3.get());
    typename decltype(out)::view_type view { s1.get(), s2.get(), s3.get() };
    for (uint32_t i = 0; i < in.size(); ++i)
    {
        h::count("elements compared");
        if (!(view.get(i) == in[i]) || !(view.unsafe_get(i) == in[i]) || !(out.get(i) == in[i]))
        {
            h::violation("lossy", id, "element " + std::to_string(i) + " reads " + str(view.get(i)) + ", was " + str(in[i]));
            return;
        }
    }
    if (!in.empty())
        for (uint32_t beyond: { Max + 1, Max + 2, 0x110000u, 0xFFFFFFFFu })
        {
            auto fb = uint32_t(in.size() - 1);
            h::count("fallbacks compared");
            if (!(view.get(beyond) == in[0]) || !(view.get(beyond, fb) == in[fb]))
                h::violation("fallback", id, "index " + std::to_string(beyond));
        }
    if (r.chance(1, 20))
        verified(in, out, kind, id, r);
    h::g.nontrivial++;
    h::seen("distinct tables", h::hash_bytes(s2.get(), out.stage2.size() * sizeof(S2)) ^ h::hash_bytes(s1.get(), out.stage1.size() * sizeof(S1)) * 3);
    if (out.stage2.size() < in.size())
        h::count("tables with shared blocks");
}

template <typename T>
T value(uint32_t v);
template <>
uint16_t value<uint16_t>(uint32_t v) { return uint16_t(v); }
template <>
rec value<rec>(uint32_t v) { return { int8_t(v % 7), uint16_t(v / 7) }; }
template <>
std::string value<std::string>(uint32_t v)
{
    // short (in-object) and long (indirect) strings, some sharing prefixes
    return v % 3 ? std::string(v % 5, 'x') + std::to_string(v) : "a string too long for the small buffer " + std::to_string(v);
}

template <typename T, uint32_t Block>
void random_tables(h::Rng& r)
{
    auto blocks = 1 + r.below(60);
    auto values = 1 + r.below(r.chance(1, 3) ? 3 : 254);
    std::vector<T> in;
    std::vector<std::vector<T>> protos;
    for (uint32_t b = 0; b < blocks; ++b)
    {
        if (!protos.empty() && r.chance(1, 2))
        {
            auto p = protos[r.below(uint32_t(protos.size()))];
            if (r.chance(1, 3)) // almost the same
                p[r.chance(1, 2) ? Block - 1 : r.below(Block)] = value<T>(r.below(values));
            in.insert(in.end(), p.begin(), p.end());
            protos.push_back(p);
            continue;
        }
        std::vector<T> p;
        auto uniform = r.chance(1, 3);
        auto v = r.below(values);
        for (uint32_t i = 0; i < Block; ++i)
            p.push_back(value<T>(uniform ? v : r.below(values)));
        in.insert(in.end(), p.begin(), p.end());
        protos.push_back(p);
    }
    auto what = "random blocks " + std::to_string(blocks) + " values " + std::to_string(values);
    for (int kind = 0; kind < 3; ++kind)
    {
        one<T, uint8_t, uint8_t, Block>(in, kind, what, r);
        one<T, uint16_t, uint16_t, Block>(in, kind, what, r);
    }
}
template <typename T, uint32_t Block>
void full_range(h::Rng& r)
{
    // as many different blocks as an 8-bit stage 1 can name, and as many different values as stage 2 can
    std::vector<T> in;
    std::set<std::vector<uint32_t>> have;
    while (have.size() < 256)
    {
        std::vector<uint32_t> p;
        for (uint32_t i = 0; i < Block; ++i)
            p.push_back(r.below(255));
        if (!have.insert(p).second)
            continue;
        for (auto v: p)
            in.push_back(value<T>(v));
        if (r.chance(1, 4)) // seen again
        {
            auto k = r.below(uint32_t(in.size() / Block));
            for (uint32_t i = 0; i < Block; ++i)
                in.push_back(T(in[k * Block + i]));
        }
    }
    one<T, uint8_t, uint8_t, Block>(in, 2, "256 blocks", r);
    one<T, uint8_t, uint16_t, Block>(in, 1, "256 blocks", r);
    h::count("tables of 256 blocks");
}

// what the stages can just name, and one more
template <typename T>
void limits(h::Rng& r)
{
    auto kind = int(r.below(3));
    {   // different blocks
        constexpr uint32_t Block = 4;
        auto n = r.chance(1, 3) ? 257u : r.chance(1, 3) ? 256u : 250u + r.below(300);
        std::vector<T> in;
        for (uint32_t b = 0; b < n; ++b)
            for (uint32_t k = 0; k < Block; ++k)
                in.push_back(value<T>(k == 0 ? b % 200 : k == 1 ? b / 200 : r.below(3)));
        if (r.chance(1, 2)) // repeated blocks do not count
            for (uint32_t k = 0; k < 5 * Block; ++k)
                in.push_back(T(in[k]));
        auto what = std::to_string(n) + " different blocks";
        refused<T, uint32_t, uint8_t, uint16_t, Block>(in, kind, what, n <= 256);
        refused<T, uint32_t, uint16_t, uint8_t, Block>(in, kind, what, true);
    }
    {   // different values
        constexpr uint32_t Block = 8;
        auto n = r.chance(1, 3) ? 257u : r.chance(1, 3) ? 256u : 250u + r.below(300);
        std::vector<T> in;
        for (uint32_t k = 0; k < n; ++k)
            in.push_back(value<T>(k));
        while (in.size() % Block)
            in.push_back(T(in[r.below(uint32_t(in.size()))]));
        refused<T, uint32_t, uint16_t, uint8_t, Block>(in, kind, std::to_string(n) + " different values", n <= 256);
    }
    {   // the whole range of a narrow source type; nothing at all
        std::vector<T> in;
        for (uint32_t k = 0; k < 256; ++k)
            in.push_back(value<T>(r.below(200)));
        refused<T, uint8_t, uint8_t, uint8_t, 16>(in, kind, "all of 8 bits", true);
        in.clear();
        refused<T, uint8_t, uint8_t, uint8_t, 16>(in, kind, "nothing", true);
        refused<T, uint32_t, uint8_t, uint8_t, 16>(in, kind, "nothing", true);
    }
}
template <typename T>
void wide_limits(h::Rng& r)
{
    for (auto n: { 65535u, 65536u, 65537u, 65536u + r.below(3000) })
    {
        std::vector<T> in;
        for (uint32_t k = 0; k < n; ++k)
            in.push_back(value<T>(k));
        while (in.size() % 16)
            in.push_back(T(in[r.below(uint32_t(in.size()))]));
        refused<T, uint32_t, uint16_t, uint16_t, 16>(in, 2, std::to_string(n) + " different values", n <= 65536);
    }
    std::vector<T> in;
    for (uint32_t k = 0; k < 65536; ++k)
        in.push_back(value<T>(r.below(5000)));
    refused<T, uint16_t, uint16_t, uint16_t, 256>(in, 2, "all of 16 bits", true);
}
} // namespace

int run_harness()
{
    h::Rng r(h::g.seed, 23, uint64_t(h::g.shard));
    h::shard_loop(h::tier(800, 40000), [&](uint64_t) {
        random_tables<uint16_t, 1>(r);
        random_tables<uint16_t, 4>(r);
        random_tables<rec, 2>(r);
        random_tables<rec, 16>(r);
        random_tables<std::string, 3>(r);
        random_tables<std::string, 8>(r);
        random_tables<uint16_t, 128>(r);
    });
    h::shard_loop(h::tier(40, 2000), [&](uint64_t) {
        full_range<uint16_t, 4>(r);
        full_range<rec, 4>(r);
        full_range<std::string, 5>(r);
    });
    h::shard_loop(h::tier(160, 4000), [&](uint64_t) {
        limits<rec>(r);
        limits<std::string>(r);
        limits<uint16_t>(r);
    });
    h::shard_loop(h::tier(8, 200), [&](uint64_t) { wide_limits<std::string>(r); });
    return 0;
}
