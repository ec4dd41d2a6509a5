// Models of script segmentation (UAX #24 sets, greedily intersected) and of emoji presentation
// segmentation (the UTS #51 grammar). Nothing in here calls the library under test.
#pragma once
#include "ref.hpp"
#include <libunicode/emoji_segmenter.h>
#include <libunicode/ucd_enums.h>

namespace segm
{
using ref::u32;
using ref::u32v;
using unicode::PresentationStyle;
using unicode::Script;
using Cat = unicode::EmojiSegmentationCategory;

// ---------------------------------------------------------------- scripts
inline Script sc(char32_t c) { return ref::ok(c) ? Script(refmap::script_lib[ref::A.script[c]]) : Script::Unknown; }
inline std::vector<Script> scx(char32_t c)
{
    std::vector<Script> r;
    if (ref::ok(c) && ref::A.scx[c])
        for (auto i: ref::scxLists[ref::A.scx[c]])
            r.push_back(Script(refmap::script_lib[i]));
    return r;
}
inline bool weak(Script s) { return s == Script::Common || s == Script::Inherited || s == Script::Invalid; }
/// the scripts a character may be used with
inline std::vector<Script> set_of(char32_t c)
{
    auto r = scx(c);
    if (std::find(r.begin(), r.end(), sc(c)) == r.end())
        r.push_back(sc(c));
    return r;
}
inline bool wild(std::vector<Script> const& s) { return std::all_of(s.begin(), s.end(), weak); }

struct ScriptSeg
{
    size_t begin, end;
    std::vector<Script> allowed; ///< scripts the segment may be reported as
    std::vector<Script> shared;
};
inline std::vector<ScriptSeg> script_segments(u32v t)
{
    std::vector<ScriptSeg> out;
    std::vector<Script> S { Script::Common };
    size_t first = size_t(-1); // the character that (re)opened the set
    size_t begin = 0;
    auto emit = [&](size_t end) {
        ScriptSeg g { begin, end, {}, S };
        if (wild(S))
            g.allowed = S;
        else
        {
            for (auto x: S)
                if (!weak(x))
                    g.allowed.push_back(x);
            if (first != size_t(-1) && std::find(g.allowed.begin(), g.allowed.end(), sc(t[first])) != g.allowed.end())
                g.allowed = { sc(t[first]) };
        }
        out.push_back(g);
    };
    for (size_t i = 0; i < t.size(); ++i)
    {
        auto C = set_of(t[i]);
        if (wild(C))
            continue;
        if (wild(S))
        {
            S = C;
            first = i;
            continue;
        }
        std::vector<Script> I;
        for (auto x: S)
            if (std::find(C.begin(), C.end(), x) != C.end())
                I.push_back(x);
        if (I.empty())
        {
            emit(i);
            begin = i;
            S = C;
            first = i;
        }
        else
            S = I;
    }
    if (!t.empty())
        emit(t.size());
    return out;
}

// ---------------------------------------------------------------- emoji
inline Cat category(char32_t c)
{
    switch (c)
    {
        case 0x20E3: return Cat::CombiningEnclosingKeyCap;
        case 0x20E0: return Cat::CombiningEnclosingCircleBackslash;
        case 0x200D: return Cat::ZWJ;
        case 0xFE0E: return Cat::VS15;
        case 0xFE0F: return Cat::VS16;
        case 0x1F3F4: return Cat::TagBase;
        case 0xE007F: return Cat::TagTerm;
        default: break;
    }
    if ((c >= 0xE0030 && c <= 0xE0039) || (c >= 0xE0061 && c <= 0xE007A))
        return Cat::TagSequence;
    auto e = ref::ok(c) ? ref::EMO(c) : 0;
    if (e & ref::EBASE)
        return Cat::EmojiModifierBase;
    if (e & ref::EMOD)
        return Cat::EmojiModifier;
    if (ref::ok(c) && ref::GCB(c) == ref::gcb::Regional_Indicator_)
        return Cat::RegionalIndicator;
    if ((c >= '0' && c <= '9') || c == '#' || c == '*')
        return Cat::KeyCapBase;
    if (e & ref::EPRES)
        return Cat::EmojiEmojiPresentation;
    if (e & ref::EMOJI)
        return Cat::EmojiTextPresentation;
    return Cat::Invalid;
}
inline bool any_emoji(Cat c)
{
    return c == Cat::EmojiTextPresentation || c == Cat::EmojiEmojiPresentation || c == Cat::KeyCapBase || c == Cat::EmojiModifierBase || c == Cat::TagBase
           || c == Cat::Emoji;
}
/// Length of the longest emoji presentation at @p i (0: none).
template <typename At>
size_t emoji_run(At at, size_t i)
{
    size_t best = 0;
    auto m = [&](size_t n) { best = std::max(best, n); };
    auto a = at(i);
    if (a == Cat::EmojiEmojiPresentation || a == Cat::TagBase || a == Cat::EmojiModifierBase)
        m(1);
    if (any_emoji(a) && at(i + 1) == Cat::VS16)
        m(2);
    if (a == Cat::EmojiModifierBase && at(i + 1) == Cat::EmojiModifier)
        m(2);
    if (a == Cat::RegionalIndicator && at(i + 1) == Cat::RegionalIndicator)
        m(2);
    if (a == Cat::TagBase && at(i + 1) == Cat::TagSequence)
    {
        size_t j = i + 1;
        while (at(j) == Cat::TagSequence)
            ++j;
        if (at(j) == Cat::TagTerm)
            m(j + 1 - i);
    }
    if (a == Cat::KeyCapBase && at(i + 1) == Cat::VS16 && at(i + 2) == Cat::CombiningEnclosingKeyCap)
        m(3);
    if (any_emoji(a) && at(i + 1) == Cat::CombiningEnclosingCircleBackslash)
        m(2);
    // element (ZWJ element)+
    auto element = [&](size_t k) -> std::vector<size_t> {
        std::vector<size_t> r;
        if (any_emoji(at(k)))
        {
            r.push_back(1);
            if (at(k + 1) == Cat::VS16 || (at(k) == Cat::EmojiModifierBase && at(k + 1) == Cat::EmojiModifier))
                r.push_back(2);
        }
        return r;
    };
    // only one of the two lengths can be followed by ZWJ
    size_t k = i;
    for (bool joined = false;; joined = true)
    {
        auto e = element(k);
        if (e.empty())
            break;
        if (joined)
            m(k + e.back() - i);
        size_t next = 0;
        for (auto n: e)
            if (at(k + n) == Cat::ZWJ)
                next = k + n + 1;
        if (!next)
            break;
        k = next;
    }
    return best;
}
struct EmojiSeg
{
    size_t begin, end;
    PresentationStyle style;
};
inline std::vector<EmojiSeg> emoji_segments(u32v t)
{
    std::vector<Cat> cats;
    for (auto c: t)
        cats.push_back(category(c));
    auto at = [&](size_t i) { return i < cats.size() ? cats[i] : Cat::Invalid; };
    std::vector<EmojiSeg> out;
    for (size_t i = 0; i < t.size();)
    {
        size_t n = emoji_run(at, i);
        auto style = PresentationStyle::Emoji;
        if (any_emoji(at(i)) && at(i + 1) == Cat::VS15 && n <= 2)
        {
            n = 2;
            style = PresentationStyle::Text;
        }
        else if (!n)
        {
            n = 1;
            style = PresentationStyle::Text;
        }
        if (!out.empty() && out.back().style == style)
            out.back().end += n;
        else
            out.push_back({ i, i + n, style });
        i += n;
    }
    return out;
}

// ---------------------------------------------------------------- generators
struct SetClasses
{
    std::vector<std::vector<char32_t>> bySet;  ///< code points by their script set
    std::vector<std::vector<char32_t>> byCat;  ///< code points by their emoji category
    std::vector<size_t> multi;                 ///< indices into bySet of the sets of several scripts
    std::vector<std::vector<size_t>> sharing;  ///< for each Script value: the sets that contain it
    std::vector<size_t> wilds;
};
inline SetClasses SC;
inline void classes()
{
    std::map<std::vector<Script>, std::vector<char32_t>> m;
    std::map<Cat, std::vector<char32_t>> e;
    for (char32_t c = 0; c < ref::N; ++c)
    {
        if (!ref::scalar(c))
            continue;
        auto& v = m[set_of(c)];
        if (v.size() < 3000)
            v.push_back(c);
        auto k = category(c);
        auto& w = e[k];
        if (k != Cat::Invalid || (w.size() < 5000 && c % 29 == 0))
            w.push_back(c);
    }
    for (auto& [k, v]: m)
    {
        if (k.size() > 2)
            SC.multi.push_back(SC.bySet.size());
        if (wild(k))
            SC.wilds.push_back(SC.bySet.size());
        for (auto s: k)
        {
            if (SC.sharing.size() <= size_t(s))
                SC.sharing.resize(size_t(s) + 1);
            SC.sharing[size_t(s)].push_back(SC.bySet.size());
        }
        SC.bySet.push_back(std::move(v));
    }
    for (auto& [k, v]: e)
        SC.byCat.push_back(std::move(v));
}
inline char32_t of_set(h::Rng& r, size_t i) { return ref::from(r, SC.bySet[i]); }
inline u32 gen_script_text(h::Rng& r, uint32_t maxlen)
{
    u32 s;
    auto n = r.chance(1, 25) ? r.below(maxlen * 8 + 1) : r.below(maxlen + 1);
    // characters around one script: those whose sets contain it, others few
    std::vector<size_t> const* pool = nullptr;
    for (uint32_t i = 0; i < n; ++i)
    {
        if (!pool || r.chance(1, 6))
            do
                pool = &SC.sharing[r.below(uint32_t(SC.sharing.size()))];
            while (pool->empty());
        switch (r.below(10))
        {
            case 0: s += of_set(r, r.below(uint32_t(SC.bySet.size()))); break;
            case 1: s += of_set(r, SC.multi[r.below(uint32_t(SC.multi.size()))]); break;
            case 2: s += of_set(r, SC.wilds[r.below(uint32_t(SC.wilds.size()))]); break;
            case 3: s += ref::any_scalar(r); break;
            default: s += of_set(r, (*pool)[r.below(uint32_t(pool->size()))]); break;
        }
    }
    return s;
}
inline u32 gen_cat_text(h::Rng& r, uint32_t maxlen)
{
    auto n = r.chance(1, 25) ? r.below(maxlen * 8 + 1) : r.below(maxlen + 1);
    u32 s;
    for (uint32_t i = 0; i < n; ++i)
        s += ref::from(r, SC.byCat[r.below(uint32_t(SC.byCat.size()))]);
    return s;
}
} // namespace segm
