// P02: code point names and every textual label of every enumeration.
#include "ref.hpp"
#include <libunicode/codepoint_properties.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include <ref_labels.hpp>
#include <sstream>

using namespace unicode;
namespace
{
template <typename E>
void label(char const* type, E value, char const* want)
{
    h::mark("label", std::string_view(want));
    std::ostringstream os;
    os << value;
    auto f = std::format("{}", value);
    auto w = std::format("[{:>60}]", value);
    h::count("labels compared", 3);
    h::g.nontrivial++;
    if (os.str() != want)
        h::violation("ostream-label", std::string(type) + "::" + want, "printed " + os.str());
    if (f != want)
        h::violation("format-label", std::string(type) + "::" + want, "formatted " + f);
    if (w != "[" + std::string(60 - std::strlen(want), ' ') + want + "]")
        h::violation("format-padding", std::string(type) + "::" + want, "formatted " + w);
}
} // namespace

int run_harness()
{
    ref::load();
    std::vector<std::string const*> want(ref::N, nullptr);
    for (auto const& r: ref::names)
        for (uint32_t c = r.lo; c <= r.hi; ++c)
            want[c] = &r.name;
    static std::string const none;
    auto check = [&](char32_t c, std::string const& w) {
        auto n = codepoint_properties::name(c);
        // read every byte so that a dangling or overlong view is seen by the sanitizer
        std::string copy(n);
        h::count("names compared");
        if (copy != w)
            h::violation(ref::ok(c) ? "name" : "name-beyond", h::cphex(c), "got \"" + copy.substr(0, 200) + "\", UCD says \"" + w + "\"");
        else if (!w.empty())
        {
            h::g.nontrivial++;
            h::seen("distinct names", h::hash_str(copy));
        }
    };
    h::shard_loop(ref::N / 256, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            h::mark("name", &c, 4, 4);
            check(c, want[c] ? *want[c] : none);
        }
    });
    h::Rng r(h::g.seed, 2, uint64_t(h::g.shard));
    for (uint64_t i = 0; i < h::tier(2000, 200000); ++i)
    {
        char32_t c = i < 16 ? char32_t(0x110000u << (i % 12)) : 0x110000 + char32_t(r.next() % (0xFFFFFFFFull - 0x110000));
        if (c < 0x110000)
            continue;
        h::mark("name-beyond", &c, 4, 4);
        check(c, want[0] ? *want[0] : none); // documented fallback: U+0000
    }
    if (h::g.shard == 0)
    {
#define X(T, N) label(#T, T::N, #N);
        REF_LABELS(X)
#undef X
        // the string form of a width class
        std::pair<EastAsianWidth, char const*> ea[] = { { EastAsianWidth::Ambiguous, "Ambiguous" }, { EastAsianWidth::FullWidth, "FullWidth" },
                                                        { EastAsianWidth::HalfWidth, "HalfWidth" }, { EastAsianWidth::Neutral, "Neutral" },
                                                        { EastAsianWidth::Narrow, "Narrow" },       { EastAsianWidth::Wide, "Wide" },
                                                        { EastAsianWidth::Unspecified, "Unspecified" } };
        for (auto& [v, n]: ea)
            if (to_string(v) != n)
                h::violation("to_string", n, to_string(v));
        using ES = EmojiSegmentationCategory;
        std::pair<ES, char const*> es[] = {
#define Y(n) { ES::n, #n }
            Y(Invalid), Y(Emoji), Y(EmojiTextPresentation), Y(EmojiEmojiPresentation), Y(EmojiModifierBase), Y(EmojiModifier), Y(EmojiVSBase),
            Y(RegionalIndicator), Y(KeyCapBase), Y(CombiningEnclosingKeyCap), Y(CombiningEnclosingCircleBackslash), Y(ZWJ), Y(VS15), Y(VS16),
            Y(TagBase), Y(TagSequence), Y(TagTerm)
#undef Y
        };
        for (auto& [v, n]: es)
            label("EmojiSegmentationCategory", v, n);
        label("PresentationStyle", PresentationStyle::Text, "Text");
        label("PresentationStyle", PresentationStyle::Emoji, "Emoji");
        // version strings
        for (int i = 1; i < refmap::age_count; ++i)
        {
            std::string s = refmap::age_names[i] + 1; // V1_1 -> 1_1
            for (auto& ch: s)
                if (ch == '_')
                    ch = '.';
            h::mark("make_age", s);
            auto a = make_age(s);
            h::count("ages parsed");
            if (!a || *a != refmap::age_lib[i])
                h::violation("make_age", s, a ? std::to_string(int(*a)) : "nullopt");
        }
        for (uint64_t i = 0; i < h::tier(20000, 2000000); ++i)
        {
            std::string s;
            for (auto n = r.below(6); n--;)
                s += "0123456789..V_ a\0"[r.below(17)];
            h::exact<char> e(s);
            h::mark("make_age", s);
            bool known = false;
            for (int k = 1; k < refmap::age_count; ++k)
            {
                std::string w = refmap::age_names[k] + 1;
                std::replace(w.begin(), w.end(), '_', '.');
                known |= w == s;
            }
            auto a = make_age(e.view());
            h::count("age strings tried");
            if (a.has_value() != known)
                h::violation("make_age-reject", s, "");
        }
    }
    h::sample("name", "U+10FFFD = \"" + std::string(codepoint_properties::name(0x10FFFD)) + "\", U+1F600 = \"" + std::string(codepoint_properties::name(0x1F600)) + "\"");
    return 0;
}
