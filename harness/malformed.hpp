// What decoding malformed UTF-8 may and may not produce.
#pragma once
#include "ref.hpp"

namespace mal
{
using ref::u32;
struct Tok
{
    enum Kind
    {
        W,  // a well-formed character: exactly this code point
        M,  // k malformed bytes: nothing, or at most k times U+FFFD
        O,  // a complete but forbidden sequence (overlong, surrogate, beyond U+10FFFF): at most n units of anything
        OPT // the code point, or nothing
    } kind;
    char32_t c;
    unsigned n;
};

inline std::vector<Tok> tokenize(std::string const& s)
{
    std::vector<Tok> t;
    size_t i = 0;
    while (i < s.size())
    {
        uint8_t b = uint8_t(s[i]);
        unsigned need = b < 0x80 ? 1 : b < 0xC0 ? 0 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 0;
        if (need == 1)
        {
            t.push_back({ Tok::W, b, 0 });
            ++i;
            continue;
        }
        if (!need)
        {
            t.push_back({ Tok::M, 0, 1 });
            ++i;
            continue;
        }
        size_t j = i + 1;
        while (j < s.size() && j < i + need && (uint8_t(s[j]) & 0xC0) == 0x80)
            ++j;
        if (j - i < need)
        {
            t.push_back({ Tok::M, 0, unsigned(j - i) });
            i = j;
            continue;
        }
        char32_t c = need == 2 ? b & 0x1F : need == 3 ? b & 0x0F : b & 0x07;
        for (size_t k = i + 1; k < j; ++k)
            c = c << 6 | (uint8_t(s[k]) & 0x3F);
        bool good = need == 2 ? c >= 0x80 : need == 3 ? c >= 0x800 && ref::scalar(c) : c >= 0x10000 && c < ref::N;
        if (good)
            t.push_back({ Tok::W, c, 0 });
        else
            t.push_back({ Tok::O, 0, need });
        i = j;
    }
    return t;
}
inline bool well_formed(std::vector<Tok> const& t)
{
    for (auto& x: t)
        if (x.kind != Tok::W)
            return false;
    return true;
}
template <typename S, typename Put>
std::string match_(std::vector<Tok> const& toks, S const& out, Put put)
{
    std::vector<char> at(out.size() + 1, 0), nx;
    at[0] = 1;
    for (size_t t = 0; t < toks.size(); ++t)
    {
        nx.assign(out.size() + 1, 0);
        auto& k = toks[t];
        S w;
        if (k.kind == Tok::W || k.kind == Tok::OPT)
            w = put(k.c);
        bool any = false;
        for (size_t p = 0; p <= out.size(); ++p)
        {
            if (!at[p])
                continue;
            if (k.kind == Tok::W || k.kind == Tok::OPT)
            {
                if (out.compare(p, w.size(), w) == 0)
                    nx[p + w.size()] = 1, any = true;
                if (k.kind == Tok::OPT)
                    nx[p] = 1, any = true;
            }
            else
                for (size_t n = 0; n <= k.n && p + n <= out.size(); ++n)
                {
                    if (n && k.kind == Tok::M && out[p + n - 1] != 0xFFFD)
                        break;
                    nx[p + n] = 1;
                    any = true;
                }
        }
        if (!any)
            return "element " + std::to_string(t) + (k.kind == Tok::W ? " (U+" + h::cphex(k.c) + ") is lost or damaged" : " produced too much");
        at.swap(nx);
    }
    return at[out.size()] ? std::string() : "excess output at the end";
}
inline std::string match(std::vector<Tok> const& toks, u32 const& out)
{
    return match_(toks, out, [](char32_t c) { return u32(1, c); });
}
inline std::string match16(std::vector<Tok> const& toks, std::u16string const& out)
{
    return match_(toks, out, [](char32_t c) { return ref::to16(u32(1, c)); });
}
/// Tokens of the NFD form, for texts whose every character is inert under NFD; otherwise a wildcard.
inline std::vector<Tok> nfd_tokens(std::vector<Tok> const& t)
{
    for (auto& x: t)
        if (x.kind == Tok::O || (x.kind == Tok::W && (ref::CCC(x.c) || ref::decomp.count(x.c) || ref::hangul_s(x.c))))
            return { { Tok::O, 0, 1u << 30 } };
    return t;
}

/// Well-formed text with damage at the byte level.
inline std::string gen(h::Rng& r)
{
    static unsigned char const bad[] = { 0x00, 0x41, 0x80, 0x9F, 0xA0, 0xB1, 0xBF, 0xC0, 0xC2, 0xC3, 0xDF, 0xE0, 0xE2,
                                         0xED, 0xEF, 0xF0, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF };
    std::string s = ref::to8(ref::gen_any_text(r, 8));
    for (uint32_t k = 1 + r.below(4); k-- > 0;)
    {
        auto at = r.below(uint32_t(s.size() + 1));
        switch (r.below(6))
        {
            case 0:
            case 1: s.insert(at, 1, char(bad[r.below(sizeof bad)])); break;
            case 2:
                if (at < s.size())
                    s.erase(at, 1 + r.below(2));
                break;
            case 3:
                if (at < s.size())
                    s[at] = char(bad[r.below(sizeof bad)]);
                break;
            case 4: s.resize(at); break;
            default:
            { // a truncated character
                std::string c;
                ref::put8(ref::any_scalar(r), c);
                c.resize(r.below(uint32_t(c.size())) + (c.size() > 1 ? 0 : 0));
                s.insert(at, c);
            }
        }
    }
    return s;
}
} // namespace mal
