// P28: one build of the library: reads texts, writes the digest of every operation on every text (compared between builds by lib/p28_builds.py).
//   p28_builds make FILE COUNT SEED    write texts
//   p28_builds run TEXTS OUT [locale]  write the digests
#define H_NO_MAIN
#include "ops.hpp"
#include <alloca.h>
#include <fstream>
#include <locale>

int run_harness() { return 0; }

using namespace ops;
namespace
{
template <typename T>
void put(std::ofstream& f, std::basic_string<T> const& s)
{
    uint32_t n = uint32_t(s.size());
    f.write(reinterpret_cast<char const*>(&n), 4);
    f.write(reinterpret_cast<char const*>(s.data()), std::streamsize(n * sizeof(T)));
}
template <typename T>
void get(std::ifstream& f, std::basic_string<T>& s)
{
    uint32_t n = 0;
    f.read(reinterpret_cast<char*>(&n), 4);
    s.resize(n);
    f.read(reinterpret_cast<char*>(s.data()), std::streamsize(n * sizeof(T)));
}

int make(char const* path, unsigned n, uint64_t seed)
{
    ref::load();
    ref::pools();
    std::ofstream f(path, std::ios::binary);
    f.write(reinterpret_cast<char const*>(&n), 4);
    for (unsigned i = 0; i < n; ++i)
    {
        h::Rng r(seed, i, 28);
        Text x;
        if (i < ref::graphemeTests.size() / 4)
            x.t = ref::graphemeTests[i * 4].text;
        else
            x.t = ref::gen_any_text(r, r.chance(1, 20) ? 100 + r.below(300) : 1 + r.below(40));
        std::erase_if(x.t, [](char32_t c) { return !ref::scalar(c); });
        x.b = ref::to8(x.t);
        x.w = ref::to16(x.t);
        if (r.chance(1, 4))
            for (unsigned k = 0; k < 3; ++k)
                x.w.insert(r.below(uint32_t(x.w.size() + 1)), 1, char16_t(0xD800 + r.below(0x800)));
        x.damaged = mal::gen(r);
        if (r.chance(1, 3))
            for (unsigned k = r.below(100); k; --k)
                x.damaged += char(r.below(256));
        put(f, x.t);
        put(f, x.b);
        put(f, x.w);
        put(f, x.damaged);
    }
    return f.flush() ? 0 : 9;
}

struct Grouping: std::numpunct<char>
{
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "ja"; }
};

__attribute__((noinline)) void dirty(unsigned char fill)
{
    auto* p = static_cast<unsigned char*>(alloca(24000));
    std::memset(p, fill, 24000);
    asm volatile("" : : "r"(p) : "memory");
}

int run(char const* from, char const* to, bool locale)
{
    if (locale)
    {
        std::setlocale(LC_ALL, "");
        std::locale::global(std::locale(std::locale(), new Grouping));
    }
    std::ifstream f(from, std::ios::binary);
    std::ofstream out(to, std::ios::binary);
    uint32_t n = 0;
    f.read(reinterpret_cast<char*>(&n), 4);
    for (unsigned i = 0; i < n && f; ++i)
    {
        Text x;
        get(f, x.t);
        get(f, x.b);
        get(f, x.w);
        get(f, x.damaged);
        for (unsigned o = 0; o < NOps; ++o)
        {
            dirty((unsigned char)(i * 37 + o));
            uint64_t d = table[o].op(x);
            out.write(reinterpret_cast<char const*>(&d), 8);
        }
    }
    return f && out.flush() ? 0 : 9;
}
} // namespace

int main(int argc, char** argv)
{
    if (argc == 2 && std::string_view(argv[1]) == "names")
    {
        for (auto const& o: table)
            std::puts(o.name);
        return 0;
    }
    if (argc >= 6 && std::string_view(argv[1]) == "make")
    {
        h::g.refdir = argv[5];
        return make(argv[2], unsigned(atoi(argv[3])), strtoull(argv[4], nullptr, 10));
    }
    if (argc >= 4 && std::string_view(argv[1]) == "run")
        return run(argv[2], argv[3], argc > 4);
    return 9;
}
