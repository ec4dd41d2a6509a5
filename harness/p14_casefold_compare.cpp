// P14: case-insensitive comparison is a total preorder whose equality is equality of the case-folded texts.
#include "ref.hpp"
#include <libunicode/case_mapping.h>

using namespace unicode;
using ref::u32;
namespace
{
int sign(int x) { return (x > 0) - (x < 0); }
u32 fold(u32 const& s)
{
    u32 r;
    for (auto c: s)
        if (auto it = ref::foldF.find(c); it != ref::foldF.end())
            r += it->second;
        else
            r += c;
    return r;
}
int cmp(u32 const& a, u32 const& b)
{
    h::exact<char32_t> x(a), y(b);
    return sign(casefold_compare(x.view(), y.view()));
}
std::string pair(u32 const& a, u32 const& b) { return h::hex(a) + " | " + h::hex(b); }

void two(u32 const& a, u32 const& b)
{
    auto const both = a + char32_t(0x2FFFF) + b;
    h::mark("compare", both);
    auto const fa = fold(a), fb = fold(b);
    int const want = fa < fb ? -1 : fa > fb ? 1 : 0;
    h::exact<char32_t> x(a), y(b);
    int const got = sign(casefold_compare(x.view(), y.view()));
    if (got != want)
        h::violation("casefold_compare", pair(a, b), std::to_string(got) + " want " + std::to_string(want));
    if (sign(casefold_compare(y.view(), x.view())) != -want)
        h::violation("casefold_compare/reversed", pair(a, b), "");
    if (casefold_equals(x.view(), y.view()) != (want == 0) || casefold_equals(y.view(), x.view()) != (want == 0))
        h::violation("casefold_equals", pair(a, b), want == 0 ? "want true" : "want false");
    if (std::all_of(both.begin(), both.end(), ref::scalar))
    {
        h::exact<char> x8(ref::to8(a)), y8(ref::to8(b));
        int const g8 = sign(casefold_compare(x8.view(), y8.view()));
        if (g8 != want || sign(casefold_compare(y8.view(), x8.view())) != -want)
            h::violation("casefold_compare/utf8", pair(a, b), std::to_string(g8) + " want " + std::to_string(want));
        if (casefold_equals(x8.view(), y8.view()) != (want == 0))
            h::violation("casefold_equals/utf8", pair(a, b), want == 0 ? "want true" : "want false");
    }
    h::count(want < 0 ? "answers less" : want > 0 ? "answers greater" : a == b ? "answers equal, same text" : "answers equal, different text");
    if (want == 0 && a != b)
    {
        h::g.nontrivial++;
        h::seen("distinct equal pairs of different texts", h::hash_str(both));
    }
}
void three(u32 const& a, u32 const& b, u32 const& c)
{
    int ab = cmp(a, b), bc = cmp(b, c), ac = cmp(a, c);
    if ((ab <= 0 && bc <= 0 && ac > 0) || (ab >= 0 && bc >= 0 && ac < 0) || (ab == 0 && ac != bc) || (bc == 0 && ac != ab))
        h::violation("transitivity", pair(a, b) + " | " + h::hex(c), "");
    h::count("triples");
}
u32 swap_case(h::Rng& r, u32 const& s)
{
    u32 o;
    for (auto c: s)
        switch (r.below(5))
        {
            case 0: o += ref::ok(c) ? ref::A.upper[c] : c; break;
            case 1: o += ref::ok(c) ? ref::A.lower[c] : c; break;
            case 2: o += fold(u32(1, c)); break;
            case 3: {
                auto it = ref::upperF.find(c);
                o += it == ref::upperF.end() ? u32(1, c) : it->second;
                break;
            }
            default: o += c;
        }
    return o;
}
char32_t gen(h::Rng& r)
{
    switch (r.below(8))
    {
        case 0: return ref::from(r, ref::Interesting);
        case 1:
        case 2: return ref::from(r, ref::P.special);
        case 3:
        case 4: return ref::from(r, ref::P.cased);
        case 5: return ref::any_scalar(r);
        default: return 0x20 + r.below(95);
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 14, uint64_t(h::g.shard));
    two({}, {});
    two({}, U"a");
    // every character with case against its own mappings, and against its neighbours in the order
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            if (ref::A.upper[c] == c && ref::A.lower[c] == c && ref::A.title[c] == c && !ref::foldF.count(c) && c % (h::g.thorough ? 1 : 16))
                continue;
            for (uint32_t d: { ref::A.upper[c], ref::A.lower[c], ref::A.title[c], ref::A.fold[c], uint32_t(c) + 1, uint32_t(c) ^ 0x20u, uint32_t(0x53), uint32_t(0x61) })
                if (ref::ok(d))
                {
                    two({ c }, { char32_t(d) });
                    two({ U'x', c, U'Y' }, { U'X', char32_t(d), U'y' });
                }
            two({ c }, fold({ c }));
            two({ c }, fold({ c }) + U"\x1");
            h::count("characters in context");
        }
    });
    h::shard_loop(h::tier(120000, 3000000), [&](uint64_t) {
        auto a = ref::gen_string(r, gen, 8);
        auto b = swap_case(r, a);
        if (r.chance(1, 3) && !b.empty())
            b[r.below(uint32_t(b.size()))] = gen(r);
        else if (r.chance(1, 4) && !b.empty())
            b.resize(b.size() - 1);
        two(a, b);
        three(a, b, r.chance(1, 2) ? swap_case(r, b) : ref::gen_string(r, gen, 8));
    });
    h::shard_loop(h::tier(40000, 1000000), [&](uint64_t) {
        auto a = ref::gen_any_text(r, 4), b = ref::gen_any_text(r, 4), c = ref::gen_any_text(r, 4);
        two(a, b);
        three(a, b, c);
    });
    auto const long_text = [&](u32 const& s) {
        auto b = swap_case(r, s);
        two(s, b);
        if (!b.empty())
        {
            b.back() = gen(r);
            two(s, b);
            b.pop_back();
            two(s, b);
        }
        // against its beginnings: what differs is the length, by more than fits a byte or 16 bits, or by a multiple of these
        for (size_t less: { size_t(255), size_t(256), size_t(32768), size_t(65535), size_t(65536), s.size() - s.size() / 9 })
            if (less <= s.size() && less)
                two(s, swap_case(r, s.substr(0, s.size() - less)));
    };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    h::sample("random text", h::hex(ref::gen_string(r, gen, 8)));
    return 0;
}
