// P15: the width of a character and of a grapheme cluster follow the documented rules, incrementally and at once.
#include "ref.hpp"
#include <libunicode/codepoint_properties.h>
#include <libunicode/width.h>

using namespace unicode;
using ref::u32;
namespace
{
void one(u32 const& s)
{
    h::mark("cluster", s);
    h::exact<char32_t> e(s);
    std::vector<unsigned> widths;
    auto const want = ref::cluster_width(s, &widths);
    auto const got = grapheme_cluster_width(e.view());
    h::count("clusters measured");
    if (got != want)
        h::violation("grapheme_cluster_width", h::hex(s), std::to_string(got) + " want " + std::to_string(want));
    // The accumulator: at every prefix, on a reused object, and on a copy taken midway.
    static grapheme_cluster_width_accumulator reused;
    reused.reset();
    h::fresh<grapheme_cluster_width_accumulator> freshObj;
    auto& fresh = *freshObj;
    if (reused.width() != 0 || fresh.width() != 0)
        h::violation("accumulator/initial", h::hex(s), std::to_string(reused.width()));
    size_t const cut = s.empty() ? 0 : h::hash_str(s) % s.size();
    grapheme_cluster_width_accumulator copy;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (i == cut)
            copy = fresh;
        fresh.push(s[i]);
        reused.push(s[i]);
        auto const w = widths[i];
        if (fresh.width() != w)
            h::violation("accumulator", h::hex(s), "after " + std::to_string(i + 1) + ": " + std::to_string(fresh.width()) + " want " + std::to_string(w));
        if (reused.width() != w)
            h::violation("accumulator/reused", h::hex(s), "after " + std::to_string(i + 1) + ": " + std::to_string(reused.width()) + " want " + std::to_string(w));
        h::count("prefixes measured");
    }
    for (size_t i = cut; i < s.size(); ++i)
        copy.push(s[i]);
    if (copy.width() != want)
        h::violation("accumulator/copied", h::hex(s), std::to_string(copy.width()) + " want " + std::to_string(want));
    if (s.size() > 1)
    {
        unsigned sum = 0;
        for (auto c: s)
            sum += ref::cp_width(c);
        if (sum != want)
            h::g.nontrivial++;
        h::seen("distinct multi-character clusters", h::hash_str(s));
        h::seen("distinct widths", want);
    }
}
// The complete partition of the code space by what the measurement looks at.
std::vector<std::vector<char32_t>> classes;
void partition()
{
    std::map<std::tuple<unsigned, int, bool, bool, bool, bool, int>, std::vector<char32_t>> m;
    for (char32_t c = 0; c < ref::N; ++c)
        m[{ ref::cp_width(c), ref::GCB(c) == ref::gcb::Regional_Indicator_ ? 1 : 0, ref::GC(c) == ref::gc::Spacing_Mark_, bool(ref::A.misc[c] & 1),
            bool(ref::A.misc[c] & 6), ref::extpict(c),
            c == 0x200D ? 1 : c == 0xFE0E ? 2 : c == 0xFE0F ? 3 : (c >= 0x1F3FB && c <= 0x1F3FF) ? 4 : 0 }]
            .push_back(c);
    for (auto& [k, v]: m)
        classes.push_back(std::move(v));
}
struct Example
{
    u32 s;
    unsigned w;
};
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    partition();
    h::Rng r(h::g.seed, 15, uint64_t(h::g.shard));
    auto const k = classes.size();
    h::count("measurement classes", h::g.shard == 0 ? k : 0);
    // The examples of the interface's documentation, which the model must meet as well.
    for (Example const& x: std::initializer_list<Example> {
             { U"\u2714\uFE0F", 2 }, { U"\u2713\uFE0F", 1 }, { U"\u0915\u093E", 2 }, { U"\u0915\u0902", 1 }, { U"\u0915\u094D\u0928", 2 },
             { U"\u0915\u094D", 1 }, { U"\u2764\u200D\U0001F525", 1 }, { U"\u1100\u1100", 4 }, { U"x\uFE0F", 1 }, { U"\u231A\uFE0E", 1 },
             { U"\U0001F44D\U0001F3FB", 2 }, { U"\U0001F1E9\U0001F1EA", 2 }, { U"\u4E00\uFE0E", 2 }, { U"", 0 } })
    {
        one(x.s);
        if (ref::cluster_width(x.s) != x.w || grapheme_cluster_width(std::u32string_view(x.s)) != x.w)
            h::violation("documented example", h::hex(x.s), "want " + std::to_string(x.w));
        h::count("documented examples");
    }
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            h::mark("character", &c, 4, 4);
            auto const w = ref::cp_width(c);
            if (width(c) != w || codepoint_properties::get(c).char_width != w)
                h::violation("width", h::cphex(c), std::to_string(width(c)) + " want " + std::to_string(w));
            one({ c });
            h::count("characters measured");
            for (char32_t m: { 0xFE0Fu, 0xFE0Eu, 0x93Eu, 0x1F3FBu })
            {
                one({ c, m });
                if (m != 0x1F3FB)
                    one({ c, m, m });
            }
            one({ U'a', c });
            one({ 0x915, 0x94D, c });
            one({ 0x1F469, 0x200D, c });
            one({ 0x1F1E6, c, 0x1F1E7 });
        }
    });
    for (int i = 0; i < 20000; ++i)
    {
        char32_t c = char32_t(0x110000 + r.next() % 0xFFEF0000u);
        h::mark("beyond", &c, 4, 4);
        if (width(c) > 2)
            h::violation("width", h::cphex(c), std::to_string(width(c)));
        h::count("values beyond U+10FFFF");
    }
    auto rep = [&](size_t i) { return ref::from(r, classes[i]); };
    int const maxlen = h::g.thorough ? 5 : 4;
    for (int len = 2; len <= maxlen; ++len)
    {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i)
            n *= k;
        h::shard_loop(n, [&](uint64_t i) {
            u32 s;
            for (int j = 0; j < len; ++j, i /= k)
                s += rep(i % k);
            one(s);
            h::count("class sequences");
        });
    }
    ref::stretched_sequences(r, k, rep, [&](u32 const& s) { one(s); }, h::tier(2, 1));
    h::shard_loop(ref::emojiSeqs.size(), [&](uint64_t i) {
        one(ref::emojiSeqs[i].second);
        h::count("emoji sequences");
    });
    h::shard_loop(h::tier(60000, 2000000), [&](uint64_t) {
        u32 s;
        size_t a[4] = { r.below(uint32_t(k)), r.below(uint32_t(k)), r.below(uint32_t(k)), r.below(uint32_t(k)) };
        for (uint32_t n = r.below(14); n-- > 0;)
            s += rep(a[r.below(4)]);
        one(s);
    });
    h::shard_loop(h::tier(40000, 1500000), [&](uint64_t) { one(ref::gen_emoji_text(r)); });
    auto const long_text = [&](u32 const& s) { one(s); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    ref::far_texts(r, long_text);
    h::sample("random cluster", h::hex(ref::gen_emoji_text(r)));
    return 0;
}
