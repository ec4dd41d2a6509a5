// P01: every per-code-point property lookup, both lookup structures, for every code point and beyond.
#include "ref.hpp"
#include <libunicode/codepoint_properties.h>
#include <libunicode/ucd.h>
#include <libunicode/width.h>

using namespace unicode;
namespace
{
template <typename A, typename B>
void expect(char const* key, char32_t c, A got, B want)
{
    h::count("comparisons");
    if (!(got == want))
        h::violation(key, ref::ok(c) ? h::cphex(c) : "beyond:" + h::cphex(c), "got " + std::to_string(int64_t(got)) + ", Unicode data says " + std::to_string(int64_t(want)));
}

int emoji_segmentation_category(char32_t c)
{
    using C = EmojiSegmentationCategory;
    auto r = [](C x) { return int(x); };
    switch (c)
    {
        case 0x20E3: return r(C::CombiningEnclosingKeyCap);
        case 0x20E0: return r(C::CombiningEnclosingCircleBackslash);
        case 0x200D: return r(C::ZWJ);
        case 0xFE0E: return r(C::VS15);
        case 0xFE0F: return r(C::VS16);
        case 0x1F3F4: return r(C::TagBase);
        case 0xE007F: return r(C::TagTerm);
        default: break;
    }
    if ((c >= 0xE0030 && c <= 0xE0039) || (c >= 0xE0061 && c <= 0xE007A))
        return r(C::TagSequence);
    auto e = ref::EMO(c);
    if (e & ref::EBASE)
        return r(C::EmojiModifierBase);
    if (e & ref::EMOD)
        return r(C::EmojiModifier);
    if (ref::GCB(c) == ref::gcb::Regional_Indicator_)
        return r(C::RegionalIndicator);
    if ((c >= '0' && c <= '9') || c == '#' || c == '*')
        return r(C::KeyCapBase);
    if (e & ref::EPRES)
        return r(C::EmojiEmojiPresentation);
    if (e & ref::EMOJI)
        return r(C::EmojiTextPresentation);
    return r(C::Invalid);
}

void range_api(char32_t c)
{
    bool in = ref::ok(c);
    auto& A = ref::A;
    expect("plane", c, int(plane(c)), int([&] {
               if (!in)
                   return Plane::Unassigned;
               switch (c >> 16)
               {
                   case 0: return Plane::Basic_Multilingual_Plane;
                   case 1: return Plane::Supplementary_Multilingual_Plane;
                   case 2: return Plane::Supplementary_Ideographic_Plane;
                   case 3: return Plane::Tertiary_Ideographic_Plane;
                   case 14: return Plane::Supplementary_Special_purpose_Plane;
                   case 15:
                   case 16: return Plane::Supplementary_Private_Use_Area_Plane;
                   default: return Plane::Unassigned;
               }
           }()));
    auto const core = in ? A.core[c] : 0;
    for (int i = 0; i < refmap::core_count; ++i)
        expect(refmap::core_names[i], c, contains(refmap::core_lib[i], c), bool((core >> i) & 1));
    for (int i = 0; i < refmap::gc_count; ++i)
        if (contains(refmap::gc_lib[i], c) != (in && A.gc[c] == i))
            h::violation("contains-general-category", h::cphex(c), refmap::gc_names[i]);
    auto gc = general_category::get(c);
    if (in)
        expect("general_category", c, int(gc), int(refmap::gc_lib[A.gc[c]]));
    else if (gc != General_Category::Unspecified && gc != General_Category::Unassigned)
        h::violation("general_category-beyond", h::cphex(c), std::to_string(int(gc)));
    auto sc = script(c);
    if (in)
        expect("script", c, int(sc), int(refmap::script_lib[A.script[c]]));
    else if (sc != Script::Unknown && sc != Script::Invalid)
        h::violation("script-beyond", h::cphex(c), std::to_string(int(sc)));
    {
        auto sx = script_extensions(c);
        auto const& want = ref::scxLists[in ? A.scx[c] : 0];
        std::vector<int> g, w;
        if (sx)
            for (auto s: *sx)
                g.push_back(int(s));
        for (auto i: want)
            w.push_back(int(refmap::script_lib[i]));
        std::sort(g.begin(), g.end());
        std::sort(w.begin(), w.end());
        h::count("comparisons");
        if (sx.has_value() != !want.empty() || g != w)
            h::violation("script_extensions", h::cphex(c), h::list(g) + " vs " + h::list(w));
    }
    auto bl = block(c);
    if (in)
        expect("block", c, int(bl), int(refmap::block_lib[A.block[c]]));
    else if (bl != Block::Unspecified)
        h::violation("block-beyond", h::cphex(c), std::to_string(int(bl)));
    auto gcbv = grapheme_cluster_break(c);
    if (in && A.gcb[c])
        expect("grapheme_cluster_break", c, int(gcbv), int(refmap::gcb_lib[A.gcb[c]]));
    else if (gcbv != Grapheme_Cluster_Break::Undefined && gcbv != Grapheme_Cluster_Break::Other)
        h::violation("grapheme_cluster_break", h::cphex(c), std::to_string(int(gcbv)));
    auto ea = east_asian_width(c);
    if (in)
        expect("east_asian_width", c, int(ea), int(refmap::eaw_lib2[A.eaw[c]]));
    else if (ea != EastAsianWidth::Unspecified && ea != EastAsianWidth::Neutral && ea != EastAsianWidth::Narrow)
        h::violation("east_asian_width-beyond", h::cphex(c), std::to_string(int(ea)));
    auto e = in ? A.emoji[c] : 0;
    expect("is_emoji", c, is_emoji(c), bool(e & ref::EMOJI));
    expect("is_emoji_component", c, is_emoji_component(c), bool(e & ref::ECOMP));
    expect("is_emoji_modifier", c, is_emoji_modifier(c), bool(e & ref::EMOD));
    expect("is_emoji_modifier_base", c, is_emoji_modifier_base(c), bool(e & ref::EBASE));
    expect("is_emoji_presentation", c, is_emoji_presentation(c), bool(e & ref::EPRES));
    expect("is_extended_pictographic", c, is_extended_pictographic(c), bool(e & ref::EXTPICT));
    expect("is_mirrored", c, is_mirrored(c), in && A.mirrored[c]);
    expect("bidi_mirroring_glyph", c, uint32_t(bidi_mirroring_glyph(c)), in ? A.mirror[c] : uint32_t(c));
    // the named predicates agree with the category
    using namespace general_category;
    using F = bool (*)(char32_t) noexcept;
    static const std::pair<F, char const*> preds[] = {
#define X(f, n) { f, #n }
        X(is_close_punctuation, Close_Punctuation), X(is_connector_punctuation, Connector_Punctuation), X(is_control, Control),
        X(is_currency_symbol, Currency_Symbol), X(is_dash_punctuation, Dash_Punctuation), X(is_decimal_number, Decimal_Number),
        X(is_enclosing_mark, Enclosing_Mark), X(is_final_punctuation, Final_Punctuation), X(is_format, Format),
        X(is_initial_punctuation, Initial_Punctuation), X(is_letter_number, Letter_Number), X(is_line_separator, Line_Separator),
        X(is_lowercase_letter, Lowercase_Letter), X(is_math_symbol, Math_Symbol), X(is_modifier_letter, Modifier_Letter),
        X(is_modifier_symbol, Modifier_Symbol), X(is_nonspacing_mark, Nonspacing_Mark), X(is_open_punctuation, Open_Punctuation),
        X(is_other_letter, Other_Letter), X(is_other_number, Other_Number), X(is_other_punctuation, Other_Punctuation),
        X(is_other_symbol, Other_Symbol), X(is_paragraph_separator, Paragraph_Separator), X(is_private_use, Private_Use),
        X(is_space_separator, Space_Separator), X(is_spacing_mark, Spacing_Mark), X(is_surrogate, Surrogate),
        X(is_titlecase_letter, Titlecase_Letter), X(is_unassigned, Unassigned), X(is_uppercase_letter, Uppercase_Letter)
#undef X
    };
    for (auto& [f, n]: preds)
        if (f(c) != (in && std::string_view(n) == refmap::gc_names[A.gc[c]]))
            h::violation("category-predicate", h::cphex(c), n);
}

void multistage(char32_t q)
{
    auto p = codepoint_properties::get(q);
    char32_t c = ref::cl(q); // documented fallback for inputs outside the codespace
    auto& A = ref::A;
    auto e = A.emoji[c];
    expect("cp.script", q, int(p.script), int(refmap::script_lib[A.script[c]]));
    expect("cp.grapheme_cluster_break", q, int(p.grapheme_cluster_break), int(refmap::gcb_lib[A.gcb[c]]));
    expect("cp.east_asian_width", q, int(p.east_asian_width), int(refmap::eaw_lib[A.eaw[c]]));
    expect("cp.general_category", q, int(p.general_category), int(refmap::gc_lib[A.gc[c]]));
    expect("cp.age", q, int(p.age), int(refmap::age_lib[A.age[c]]));
    expect("cp.indic_conjunct_break", q, int(p.indic_conjunct_break), int(refmap::incb_lib[A.incb[c]]));
    expect("cp.word_break", q, int(p.word_break), int(refmap::wb_lib[A.wb[c]]));
    expect("cp.emoji_segmentation_category", q, int(p.emoji_segmentation_category), emoji_segmentation_category(c));
    expect("cp.is_emoji", q, p.is_emoji(), bool(e & ref::EMOJI));
    expect("cp.is_emoji_presentation", q, p.is_emoji_presentation(), bool(e & ref::EPRES));
    expect("cp.is_emoji_component", q, p.is_emoji_component(), bool(e & ref::ECOMP));
    expect("cp.is_emoji_modifier", q, p.is_emoji_modifier(), bool(e & ref::EMOD));
    expect("cp.is_emoji_modifier_base", q, p.is_emoji_modifier_base(), bool(e & ref::EBASE));
    expect("cp.is_extended_pictographic", q, p.is_extended_pictographic(), bool(e & ref::EXTPICT));
    expect("cp.is_core_grapheme_extend", q, p.is_core_grapheme_extend(), bool((A.core[c] >> int(refmap::core_id::Grapheme_Extend_)) & 1));
    expect("cp.is_virama", q, p.is_virama(), bool(A.misc[c] & 1));
    expect("cp.is_emoji_variation_base", q, p.is_emoji_variation_base(), bool(A.misc[c] & 6));
    auto again = codepoint_properties::get(q);
    if (again != p)
        h::violation("cp.get-repeat", h::cphex(q), "two lookups of one code point differ");
    h::seen("distinct property records", h::hash_bytes(&p, sizeof p));
}
} // namespace

int run_harness()
{
    ref::load();
    uint64_t blocks = ref::N / 256;
    h::shard_loop(blocks, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
        {
            h::mark("ucd-lookup", &c, 4, 4);
            range_api(c);
            multistage(c);
            h::g.nontrivial += ref::GC(c) != ref::gc::Unassigned_ && ref::GC(c) != ref::gc::Private_Use_;
            h::count("code points");
        }
    });
    // outside the codespace
    h::Rng r(h::g.seed, 1, uint64_t(h::g.shard));
    std::vector<char32_t> out = { 0x110000, 0x110001, 0x1100FF, 0x110100, 0x11FFFF, 0x120000, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFF00 };
    for (uint64_t i = 0; i < h::tier(20000, 400000); ++i)
        out.push_back(0x110000 + char32_t(r.next() % (0xFFFFFFFFull - 0x110000)));
    for (auto c: out)
    {
        h::mark("ucd-lookup-beyond", &c, 4, 4);
        range_api(c);
        multistage(c);
        h::count("values beyond U+10FFFF");
    }
    h::sample("code point", "U+0000..U+10FFFF all, then " + h::cphex(out.back()));
    return 0;
}
