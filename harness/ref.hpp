// Reference models, written from the Unicode Standard / its annexes and the UCD text files.
// Nothing in here calls the library under test.
#pragma once
#include "h.hpp"
#include <algorithm>
#include <fstream>
#include <optional>
#include <ref_map.hpp>
#include <sstream>
#include <unordered_map>

namespace ref
{
using u32 = std::u32string;
using u32v = std::u32string_view;
constexpr uint32_t N = 0x110000;

struct Arrays
{
    uint8_t const* gc;
    uint8_t const* script;
    uint16_t const* scx;
    uint16_t const* block;
    uint8_t const* gcb;
    uint8_t const* wb;
    uint8_t const* eaw;
    uint8_t const* incb;
    uint32_t const* core;
    uint8_t const* age;
    uint8_t const* emoji;
    uint8_t const* misc;
    uint8_t const* hst;
    uint8_t const* ccc;
    uint8_t const* mirrored;
    uint32_t const* mirror;
    uint8_t const* qc;
    uint32_t const* upper;
    uint32_t const* lower;
    uint32_t const* title;
    uint32_t const* fold;
};
inline Arrays A;

struct Decomp
{
    int type;
    u32 to;
};
struct SeqTest
{
    u32 text;
    std::vector<size_t> bounds;
};
inline std::unordered_map<char32_t, Decomp> decomp;
inline std::unordered_map<char32_t, u32> foldF, lowerF, titleF, upperF;
inline std::vector<std::vector<int>> scxLists;
struct NameRange
{
    uint32_t lo, hi;
    std::string name;
};
inline std::vector<NameRange> names;
inline std::vector<SeqTest> graphemeTests, wordTests;
struct NormTest
{
    u32 c[5];
    bool part1;
};
inline std::vector<NormTest> normTests;
inline std::vector<std::pair<std::string, u32>> emojiSeqs;
inline std::map<std::pair<char32_t, char32_t>, char32_t> comp;

enum Emoji : uint8_t
{
    EMOJI = 1,
    EPRES = 2,
    ECOMP = 4,
    EMOD = 8,
    EBASE = 16,
    EXTPICT = 32
};
using gc = refmap::gc_id;
using gcb = refmap::gcb_id;
using wb = refmap::wb_id;
using eaw = refmap::eaw_id;
using incb = refmap::incb_id;
using hst = refmap::hst_id;

inline bool ok(char32_t c) { return c < N; }
// Code points above U+10FFFF are not part of the codespace; the library documents the fallback to
// U+0000's record, which the segmentation models below mirror.
inline char32_t cl(char32_t c) { return c < N ? c : 0; }
inline gc GC(char32_t c) { return gc(A.gc[cl(c)]); }
inline gcb GCB(char32_t c) { return gcb(A.gcb[cl(c)]); }
inline wb WB(char32_t c) { return wb(A.wb[cl(c)]); }
inline incb INCB(char32_t c) { return incb(A.incb[cl(c)]); }
inline hst HST(char32_t c) { return hst(A.hst[cl(c)]); }
inline uint8_t EMO(char32_t c) { return A.emoji[cl(c)]; }
inline bool extpict(char32_t c) { return EMO(c) & EXTPICT; }
inline uint8_t CCC(char32_t c) { return c < N ? A.ccc[c] : 0; }

inline u32 parse_hex(std::string const& s)
{
    u32 r;
    std::istringstream is(s);
    std::string t;
    while (is >> t)
        r.push_back(char32_t(std::stoul(t, nullptr, 16)));
    return r;
}

inline SeqTest parse_seq(std::string const& s)
{
    SeqTest t;
    std::istringstream is(s);
    std::string w;
    while (is >> w)
    {
        if (w == "/")
            t.bounds.push_back(t.text.size());
        else if (w != "x")
            t.text.push_back(char32_t(std::stoul(w, nullptr, 16)));
    }
    return t;
}

inline void load()
{
    auto path = h::g.refdir + "/ref.bin";
    int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0)
    {
        std::fprintf(stderr, "cannot open %s\n", path.c_str());
        std::exit(9);
    }
    auto len = lseek(fd, 0, SEEK_END);
    auto* base = static_cast<char*>(mmap(nullptr, size_t(len), PROT_READ, MAP_PRIVATE, fd, 0));
    close(fd);
    std::map<std::string, char const*> m;
    size_t off = 0;
    for (auto const& a: refmap::arrays)
    {
        m[a.name] = base + off;
        off += size_t(a.size) * N;
    }
    if (off != size_t(len))
        std::exit(9);
#define L(x) A.x = reinterpret_cast<decltype(A.x)>(m.at(#x))
    L(gc); L(script); L(scx); L(block); L(gcb); L(wb); L(eaw); L(incb); L(core); L(age); L(emoji); L(misc);
    L(hst); L(ccc); L(mirrored); L(mirror); L(qc); L(upper); L(lower); L(title); L(fold);
#undef L
    std::ifstream f(h::g.refdir + "/ref.txt");
    std::string line;
    while (std::getline(f, line))
    {
        auto sp = line.find(' ');
        auto tag = line.substr(0, sp);
        auto rest = sp == std::string::npos ? std::string() : line.substr(sp + 1);
        if (tag == "N")
        {
            auto a = rest.find(' '), b = rest.find(' ', a + 1);
            names.push_back({ uint32_t(std::stoul(rest.substr(0, a), nullptr, 16)),
                              uint32_t(std::stoul(rest.substr(a + 1, b - a - 1), nullptr, 16)),
                              rest.substr(b + 1) });
        }
        else if (tag == "D")
        {
            auto a = rest.find(' '), b = rest.find(' ', a + 1);
            decomp[char32_t(std::stoul(rest.substr(0, a), nullptr, 16))] = { std::stoi(rest.substr(a + 1, b - a - 1)),
                                                                            parse_hex(rest.substr(b + 1)) };
        }
        else if (tag == "F" || tag == "SL" || tag == "ST" || tag == "SU")
        {
            auto v = parse_hex(rest);
            auto& mm = tag == "F" ? foldF : tag == "SL" ? lowerF : tag == "ST" ? titleF : upperF;
            mm[v[0]] = v.substr(1);
        }
        else if (tag == "X")
        {
            std::istringstream is(rest);
            int i;
            is >> i;
            std::vector<int> v;
            int x;
            while (is >> x)
                v.push_back(x);
            scxLists.push_back(v);
        }
        else if (tag == "TG")
            graphemeTests.push_back(parse_seq(rest));
        else if (tag == "TW")
            wordTests.push_back(parse_seq(rest));
        else if (tag == "TN0" || tag == "TN1")
        {
            NormTest t;
            t.part1 = tag == "TN1";
            std::istringstream is(rest);
            for (auto& c: t.c)
            {
                std::string w;
                std::getline(is, w, ';');
                c = parse_hex(w);
            }
            normTests.push_back(t);
        }
        else if (tag == "TE")
        {
            auto a = rest.find(' ');
            emojiSeqs.emplace_back(rest.substr(0, a), parse_hex(rest.substr(a + 1)));
        }
    }
    for (auto& [c, d]: decomp)
        if (d.type == int(refmap::dt_id::Canonical_) && d.to.size() == 2 && !(A.qc[c] & 64))
            comp[{ d.to[0], d.to[1] }] = c;
}

// ---------------------------------------------------------------- UAX #29 grapheme clusters
/// (run: the number of regional indicators right before i, if known)
inline bool grapheme_break(u32v s, size_t i, size_t const* run = nullptr)
{
    auto a = GCB(s[i - 1]), b = GCB(s[i]);
    if (a == gcb::CR_ && b == gcb::LF_)
        return false; // GB3
    if (a == gcb::Control_ || a == gcb::CR_ || a == gcb::LF_)
        return true; // GB4
    if (b == gcb::Control_ || b == gcb::CR_ || b == gcb::LF_)
        return true; // GB5
    if (a == gcb::L_ && (b == gcb::L_ || b == gcb::V_ || b == gcb::LV_ || b == gcb::LVT_))
        return false; // GB6
    if ((a == gcb::LV_ || a == gcb::V_) && (b == gcb::V_ || b == gcb::T_))
        return false; // GB7
    if ((a == gcb::LVT_ || a == gcb::T_) && b == gcb::T_)
        return false; // GB8
    if (b == gcb::Extend_ || b == gcb::ZWJ_)
        return false; // GB9
    if (b == gcb::SpacingMark_)
        return false; // GB9a
    if (a == gcb::Prepend_)
        return false; // GB9b
    if (INCB(s[i]) == incb::Consonant_)
    { // GB9c
        bool linker = false;
        for (size_t j = i; j-- > 0;)
        {
            auto x = INCB(s[j]);
            if (x == incb::Linker_)
                linker = true;
            else if (x == incb::Consonant_)
            {
                if (linker)
                    return false;
                break;
            }
            else if (x != incb::Extend_)
                break;
        }
    }
    if (a == gcb::ZWJ_ && extpict(s[i]))
    { // GB11
        size_t j = i - 1;
        while (j > 0 && GCB(s[j - 1]) == gcb::Extend_)
            --j;
        if (j > 0 && extpict(s[j - 1]))
            return false;
    }
    if (a == gcb::Regional_Indicator_ && b == gcb::Regional_Indicator_)
    { // GB12, GB13
        size_t n = run ? *run : 0;
        for (size_t j = i; !run && j-- > 0 && GCB(s[j]) == gcb::Regional_Indicator_;)
            ++n;
        if (n % 2 == 1)
            return false;
    }
    return true; // GB999
}

// ---------------------------------------------------------------- UAX #29 words
inline bool wb_transparent(wb x) { return x == wb::Extend_ || x == wb::Format_ || x == wb::ZWJ_; }
inline bool wb_nl(wb x) { return x == wb::Newline_ || x == wb::CR_ || x == wb::LF_; }

inline bool word_break(u32v s, size_t i, size_t const* run = nullptr)
{
    auto a = WB(s[i - 1]), b = WB(s[i]);
    if (a == wb::CR_ && b == wb::LF_)
        return false; // WB3
    if (wb_nl(a) || wb_nl(b))
        return true; // WB3a, WB3b
    if (a == wb::ZWJ_ && extpict(s[i]))
        return false; // WB3c
    if (a == wb::WSegSpace_ && b == wb::WSegSpace_)
        return false; // WB3d
    if (wb_transparent(b))
        return false; // WB4
    // X (Extend|Format|ZWJ)* -> X : step back over transparent ones to the character carrying them.
    auto back = [&](size_t p) -> std::optional<size_t> { // effective character at or before p
        while (wb_transparent(WB(s[p])) && p > 0 && !wb_nl(WB(s[p - 1])))
            --p;
        return p;
    };
    size_t p = *back(i - 1);
    wb A1 = WB(s[p]);
    wb A2 = wb::Other_;
    if (p > 0)
        A2 = WB(s[*back(p - 1)]);
    wb N1 = wb::Other_;
    for (size_t n = i + 1; n < s.size(); ++n)
        if (!wb_transparent(WB(s[n])))
        {
            N1 = WB(s[n]);
            break;
        }
    auto ahl = [](wb x) { return x == wb::ALetter_ || x == wb::Hebrew_Letter_; };
    auto mnlq = [](wb x) { return x == wb::MidNumLet_ || x == wb::Single_Quote_; };
    if (ahl(A1) && ahl(b))
        return false; // WB5
    if (ahl(A1) && (b == wb::MidLetter_ || mnlq(b)) && ahl(N1))
        return false; // WB6
    if (ahl(A2) && (A1 == wb::MidLetter_ || mnlq(A1)) && ahl(b))
        return false; // WB7
    if (A1 == wb::Hebrew_Letter_ && b == wb::Single_Quote_)
        return false; // WB7a
    if (A1 == wb::Hebrew_Letter_ && b == wb::Double_Quote_ && N1 == wb::Hebrew_Letter_)
        return false; // WB7b
    if (A2 == wb::Hebrew_Letter_ && A1 == wb::Double_Quote_ && b == wb::Hebrew_Letter_)
        return false; // WB7c
    if (A1 == wb::Numeric_ && b == wb::Numeric_)
        return false; // WB8
    if (ahl(A1) && b == wb::Numeric_)
        return false; // WB9
    if (A1 == wb::Numeric_ && ahl(b))
        return false; // WB10
    if (A2 == wb::Numeric_ && (A1 == wb::MidNum_ || mnlq(A1)) && b == wb::Numeric_)
        return false; // WB11
    if (A1 == wb::Numeric_ && (b == wb::MidNum_ || mnlq(b)) && N1 == wb::Numeric_)
        return false; // WB12
    if (A1 == wb::Katakana_ && b == wb::Katakana_)
        return false; // WB13
    if ((ahl(A1) || A1 == wb::Numeric_ || A1 == wb::Katakana_ || A1 == wb::ExtendNumLet_) && b == wb::ExtendNumLet_)
        return false; // WB13a
    if (A1 == wb::ExtendNumLet_ && (ahl(b) || b == wb::Numeric_ || b == wb::Katakana_))
        return false; // WB13b
    if (A1 == wb::Regional_Indicator_ && b == wb::Regional_Indicator_)
    { // WB15, WB16
        size_t n = run ? *run : 0, q = p;
        while (!run)
        {
            if (WB(s[q]) != wb::Regional_Indicator_)
                break;
            ++n;
            if (q == 0)
                break;
            q = *back(q - 1);
        }
        if (n % 2 == 1)
            return false;
    }
    return true; // WB999
}

/// count(c, n): n regional indicators up to a character, before it; how many after it.
template <typename F, typename C>
std::vector<size_t> boundaries(u32v s, F brk, C count)
{
    std::vector<size_t> r;
    if (s.empty())
        return r;
    r.push_back(0);
    size_t run = 0;
    for (size_t i = 1; i < s.size(); ++i)
    {
        run = count(s[i - 1], run);
        if (brk(s, i, &run))
            r.push_back(i);
    }
    r.push_back(s.size());
    return r;
}
inline std::vector<size_t> grapheme_bounds(u32v s)
{
    return boundaries(s, grapheme_break, [](char32_t c, size_t n) { return GCB(c) == gcb::Regional_Indicator_ ? n + 1 : 0; });
}
inline std::vector<size_t> word_bounds(u32v s)
{
    return boundaries(s, word_break, [](char32_t c, size_t n) { return WB(c) == wb::Regional_Indicator_ ? n + 1 : wb_transparent(WB(c)) ? n : 0; });
}

// ---------------------------------------------------------------- UAX #15 normalization
enum class Form
{
    C,
    D,
    KC,
    KD
};
inline bool hangul_s(char32_t c) { return c >= 0xAC00 && c <= 0xD7A3; }

inline void decompose_full(char32_t c, bool k, u32& out)
{
    if (hangul_s(c))
    {
        uint32_t s = c - 0xAC00;
        out.push_back(0x1100 + s / 588);
        out.push_back(0x1161 + s % 588 / 28);
        if (s % 28)
            out.push_back(0x11A7 + s % 28);
        return;
    }
    auto it = decomp.find(c);
    if (it == decomp.end() || (!k && it->second.type != int(refmap::dt_id::Canonical_)))
    {
        out.push_back(c);
        return;
    }
    for (auto d: it->second.to)
        decompose_full(d, k, out);
}
inline void reorder(u32& s)
{
    for (size_t i = 0; i < s.size();)
    {
        if (CCC(s[i]) == 0)
        {
            ++i;
            continue;
        }
        size_t j = i;
        while (j < s.size() && CCC(s[j]) != 0)
            ++j;
        std::stable_sort(s.begin() + long(i), s.begin() + long(j), [](char32_t x, char32_t y) { return CCC(x) < CCC(y); });
        i = j;
    }
}
inline char32_t primary_composite(char32_t l, char32_t c)
{
    if (l >= 0x1100 && l <= 0x1112 && c >= 0x1161 && c <= 0x1175)
        return 0xAC00 + ((l - 0x1100) * 21 + (c - 0x1161)) * 28;
    if (hangul_s(l) && (l - 0xAC00) % 28 == 0 && c > 0x11A7 && c <= 0x11C2)
        return l + (c - 0x11A7);
    auto it = comp.find({ l, c });
    return it == comp.end() ? 0 : it->second;
}
inline u32 normalize(u32v in, Form f)
{
    bool k = f == Form::KC || f == Form::KD;
    u32 s;
    for (auto c: in)
        decompose_full(c, k, s);
    reorder(s);
    if (f == Form::D || f == Form::KD)
        return s;
    // Canonical composition algorithm, D117, with erased slots.
    std::vector<bool> dead(s.size(), false);
    // L: the last live starter before i; between: the highest class of the live characters between it and i (none: -1).
    size_t L = 0;
    bool found = !s.empty() && CCC(s[0]) == 0;
    int between = -1;
    for (size_t i = 1; i < s.size(); ++i)
    {
        int const cc = CCC(s[i]);
        // D115: blocked by some B between with ccc(B)==0 (never: L is the last starter) or ccc(B)>=ccc(C)
        bool const blocked = between >= cc;
        if (auto const p = found && !blocked ? primary_composite(s[L], s[i]) : char32_t(0))
        {
            s[L] = p;
            dead[i] = true;
        }
        else if (cc == 0)
        {
            L = i;
            found = true;
            between = -1;
        }
        else
            between = std::max(between, cc);
    }
    u32 r;
    for (size_t i = 0; i < s.size(); ++i)
        if (!dead[i])
            r.push_back(s[i]);
    return r;
}

// ---------------------------------------------------------------- display width
inline unsigned cp_width(char32_t c)
{
    c = cl(c);
    auto g = GC(c);
    auto pre = GCB(c) == gcb::Prepend_;
    if (HST(c) == hst::V_ || HST(c) == hst::T_)
        return 0;
    if (c == 0xAD)
        return 1;
    if (g == gc::Format_ && pre)
        return 1;
    switch (g)
    {
        case gc::Control_:
        case gc::Enclosing_Mark_:
        case gc::Format_:
        case gc::Line_Separator_:
        case gc::Nonspacing_Mark_:
        case gc::Paragraph_Separator_:
        case gc::Spacing_Mark_:
        case gc::Surrogate_: return 0;
        default: break;
    }
    if (EMO(c) & EPRES)
        return 2;
    auto e = eaw(A.eaw[c]);
    return e == eaw::Wide_ || e == eaw::Fullwidth_ ? 2 : 1;
}

/// wcwidth 0.8's wcswidth() over one cluster, from its documented rules, on the raw code point array.
/// (with the width of each of its beginnings, if asked for)
inline unsigned cluster_width(u32v s, std::vector<unsigned>* beginnings = nullptr)
{
    size_t ri = 0, counted = 0; // regional indicators right before s[counted]
    if (beginnings)
    {
        beginnings->assign(s.size(), 0);
        if (!s.empty())
            (*beginnings)[0] = cp_width(s[0]);
    }
    if (s.empty())
        return 0;
    if (s.size() == 1)
        return cp_width(s[0]);
    long closed = 0, cur = 0;
    long lastIdx = -1;  // index of the last measured code point
    long lastW = 0;     // width recorded for it
    bool open = false;  // still open to VS15 / VS16 / Mc
    bool virama = false;
    auto step = [&](size_t& i) {
        auto c = s[i];
        bool isRI = GCB(c) == gcb::Regional_Indicator_;
        if (c == 0x200D)
        {
            if (!virama)
            {
                if (true)
                {
                    lastW = 0;
                    ++i; // consumes the next code point, if any
                }
            }
            return;
        }
        if (c == 0xFE0F && open)
        {
            auto b = s[size_t(lastIdx)];
            if ((A.misc[cl(b)] & 6) && cp_width(b) == 1)
                cur = 2;
            open = false;
            return;
        }
        if (c == 0xFE0E && open)
        {
            auto b = s[size_t(lastIdx)];
            if ((A.misc[cl(b)] & 6) && lastW == 2)
                --closed;
            return;
        }
        if (isRI)
        {
            for (; counted < i; ++counted)
                ri = GCB(s[counted]) == gcb::Regional_Indicator_ ? ri + 1 : 0;
            if (ri % 2 == 1)
            {
                lastIdx = long(i);
                return;
            }
        }
        if (c >= 0x1F3FB && c <= 0x1F3FF)
        {
            auto b = lastIdx >= 0 ? s[size_t(lastIdx)] : 0;
            if (extpict(b) || GCB(b) == gcb::Regional_Indicator_)
                return;
        }
        auto w = long(cp_width(c));
        if (w)
        {
            if (virama)
                cur = 2;
            else
            {
                closed += cur;
                cur = w;
            }
            lastIdx = long(i);
            lastW = w;
            open = true;
            virama = false;
        }
        else if (A.misc[cl(c)] & 1)
            virama = true;
        else
        {
            if (GC(c) == gc::Spacing_Mark_ && open)
            {
                cur = 2;
                open = false;
            }
            virama = false;
        }
    };
    auto total = [&] { return closed + cur > 0 ? unsigned(closed + cur) : 0u; };
    for (size_t i = 0; i < s.size(); ++i)
    {
        auto from = i;
        step(i);
        if (beginnings)
            for (from = std::max<size_t>(from, 1); from <= i && from < s.size(); ++from)
                (*beginnings)[from] = total();
    }
    return total();
}
inline uint64_t text_width(u32v s)
{
    auto b = grapheme_bounds(s);
    uint64_t r = 0;
    for (size_t i = 0; i + 1 < b.size(); ++i)
        r += cluster_width(s.substr(b[i], b[i + 1] - b[i]));
    return r;
}

// ---------------------------------------------------------------- encodings
inline void put8(char32_t c, std::string& o)
{
    if (c < 0x80)
        o += char(c);
    else if (c < 0x800)
    {
        o += char(0xC0 | (c >> 6));
        o += char(0x80 | (c & 63));
    }
    else if (c < 0x10000)
    {
        o += char(0xE0 | (c >> 12));
        o += char(0x80 | ((c >> 6) & 63));
        o += char(0x80 | (c & 63));
    }
    else
    {
        o += char(0xF0 | (c >> 18));
        o += char(0x80 | ((c >> 12) & 63));
        o += char(0x80 | ((c >> 6) & 63));
        o += char(0x80 | (c & 63));
    }
}
inline std::string to8(u32v s)
{
    std::string o;
    for (auto c: s)
        put8(c, o);
    return o;
}
inline std::u16string to16(u32v s)
{
    std::u16string o;
    for (auto c: s)
        if (c < 0x10000)
            o += char16_t(c);
        else
        {
            o += char16_t(0xD800 + ((c - 0x10000) >> 10));
            o += char16_t(0xDC00 + ((c - 0x10000) & 0x3FF));
        }
    return o;
}
inline bool scalar(char32_t c) { return c < 0xD800 || (c > 0xDFFF && c < N); }

// ---------------------------------------------------------------- generators
/// Pools of code points by the property values that drive the algorithms.
struct Pools
{
    std::vector<std::vector<char32_t>> gcb, wb, incb, ccc, gcs;
    std::vector<char32_t> extpict, emoji, epres, evs, virama, decomposable, composable2, qcmaybe, lead, cased, special, scripts, wide, all;
    std::vector<std::vector<char32_t>> byScript;
};
inline Pools P;
inline std::vector<char32_t> const Interesting = {
    0x0,    0x9,    0xA,    0xD,    0x1F,    0x20,    0x22,    0x23,    0x27,    0x2A,    0x2E,    0x30,    0x39,    0x3A,    0x41,    0x5A,
    0x5F,   0x61,   0x7A,   0x7E,   0x7F,    0x80,    0x85,    0x9F,    0xA0,    0xA9,    0xAD,    0xAE,    0xC5,    0xDF,    0xE9,    0xFF,
    0x100,  0x130,  0x131,  0x149,  0x1C5,   0x1F0,   0x300,   0x301,   0x308,   0x323,   0x327,   0x344,   0x345,   0x390,   0x3A3,   0x3C2,
    0x3C3,  0x587,  0x5D0,  0x5F3,  0x5F4,   0x600,   0x661,   0x66B,   0x6DD,   0x70F,   0x7FF,   0x800,   0x903,   0x915,   0x93F,   0x94D,
    0x9BE,  0x9CD,  0xA4D,  0xBCD,  0xBBE,   0xDCA,   0xE33,   0xF71,   0xF72,   0xF73,   0xF74,   0xF75,   0xF81,   0x1039,  0x1100,  0x1112,
    0x1113, 0x115F, 0x1160, 0x1161, 0x1175,  0x1176,  0x11A7,  0x11A8,  0x11C2,  0x11C3,  0x17D2,  0x1E9E,  0x1F80,  0x1FB3,  0x2000,  0x200B,
    0x200C, 0x200D, 0x200E, 0x2018, 0x2019,  0x203C,  0x2024,  0x2028,  0x2029,  0x202F,  0x2060,  0x20E0,  0x20E3,  0x2122,  0x2126,  0x212B,
    0x231A, 0x2328, 0x2603, 0x2614, 0x261D,  0x2640,  0x2642,  0x2696,  0x270A,  0x2714,  0x2764,  0x27BF,  0x2B50,  0x3000,  0x3001,  0x3031,
    0x3042, 0x3099, 0x309A, 0x30A2, 0x30AB,  0x30FC,  0x3164,  0x4E00,  0x9FFF,  0xA9C0,  0xA97C,  0xAC00,  0xAC01,  0xAC1C,  0xD7A3,  0xD7B0,
    0xD7CB, 0xD7FB, 0xD7FF, 0xE000, 0xF8FF,  0xF900,  0xFB00,  0xFB06,  0xFB1D,  0xFDFA,  0xFE0E,  0xFE0F,  0xFE33,  0xFEFF,  0xFF21,  0xFF9E,
    0xFFA0, 0xFFF9, 0xFFFB, 0xFFFD, 0xFFFE,  0xFFFF,  0x10000, 0x10400, 0x110BD, 0x11133, 0x11935, 0x13430, 0x1D15E, 0x1D165, 0x1D16E, 0x1F004,
    0x1F1E6,0x1F1E9,0x1F1EA,0x1F1FF,0x1F308, 0x1F3F3, 0x1F3F4, 0x1F3FB, 0x1F3FF, 0x1F468, 0x1F469, 0x1F47B, 0x1F525, 0x1F600, 0x1F64F, 0x1F6D1,
    0x1F9D1,0x1FAF6,0x1FFFF,0x20000,0x2F800, 0x2FA1D, 0xE0001, 0xE0020, 0xE0030, 0xE0061, 0xE0067, 0xE007A, 0xE007F, 0xE0100, 0xE01EF, 0xF0000,
    0x10FFFD,0x10FFFF
};

inline void pools()
{
    P.gcb.resize(refmap::gcb_count);
    P.wb.resize(refmap::wb_count);
    P.incb.resize(refmap::incb_count);
    P.gcs.resize(refmap::gc_count);
    P.ccc.resize(256);
    P.byScript.resize(refmap::script_count);
    for (char32_t c = 0; c < N; ++c)
    {
        if (!scalar(c))
            continue;
        auto assigned = GC(c) != gc::Unassigned_ && GC(c) != gc::Private_Use_;
        auto& g = P.gcb[A.gcb[c]];
        if (A.gcb[c] || (assigned && (g.size() < 4000 || c % 61 == 0)))
            g.push_back(c);
        if (A.wb[c] || (assigned && c % 37 == 0))
            P.wb[A.wb[c]].push_back(c);
        if (A.incb[c])
            P.incb[A.incb[c]].push_back(c);
        if (A.ccc[c])
            P.ccc[A.ccc[c]].push_back(c);
        P.gcs[A.gc[c]].push_back(c);
        if (assigned)
            P.byScript[A.script[c]].push_back(c);
        if (extpict(c))
            P.extpict.push_back(c);
        if (EMO(c) & EMOJI)
            P.emoji.push_back(c);
        if (EMO(c) & EPRES)
            P.epres.push_back(c);
        if (A.misc[c] & 6)
            P.evs.push_back(c);
        if (A.misc[c] & 1)
            P.virama.push_back(c);
        if (A.qc[c] & (2 | 8))
            P.qcmaybe.push_back(c);
        if (A.upper[c] != c || A.lower[c] != c || A.title[c] != c || A.fold[c] != c)
            P.cased.push_back(c);
        if (assigned)
            P.all.push_back(c);
        if (cp_width(c) == 2)
            P.wide.push_back(c);
    }
    for (auto& [c, d]: decomp)
        P.decomposable.push_back(c);
    std::sort(P.decomposable.begin(), P.decomposable.end());
    for (auto* m: { &foldF, &lowerF, &titleF, &upperF })
        for (auto& [c, v]: *m)
            P.special.push_back(c);
    std::sort(P.special.begin(), P.special.end());
    P.special.erase(std::unique(P.special.begin(), P.special.end()), P.special.end());
    P.gcb.erase(std::remove_if(P.gcb.begin(), P.gcb.end(), [](auto& v) { return v.empty(); }), P.gcb.end());
    P.wb.erase(std::remove_if(P.wb.begin(), P.wb.end(), [](auto& v) { return v.empty(); }), P.wb.end());
    P.incb.erase(std::remove_if(P.incb.begin(), P.incb.end(), [](auto& v) { return v.empty(); }), P.incb.end());
    P.ccc.erase(std::remove_if(P.ccc.begin(), P.ccc.end(), [](auto& v) { return v.empty(); }), P.ccc.end());
    P.gcs.erase(std::remove_if(P.gcs.begin(), P.gcs.end(), [](auto& v) { return v.empty(); }), P.gcs.end());
    P.byScript.erase(std::remove_if(P.byScript.begin(), P.byScript.end(), [](auto& v) { return v.empty(); }), P.byScript.end());
}

inline char32_t any_scalar(h::Rng& r)
{
    for (;;)
    {
        char32_t c;
        switch (r.below(6))
        {
            case 0: c = r.below(0x80); break;
            case 1: c = r.below(0x800); break;
            case 2: c = r.below(0x10000); break;
            case 3: c = 0x10000 + r.below(0x10000); break;
            case 4: c = r.below(N); break;
            default: return P.all[r.below(uint32_t(P.all.size()))];
        }
        if (scalar(c))
            return c;
    }
}
/// A member of a sorted pool: half of the time any, half of the time of a magnitude chosen first, so that the few
/// members that a shortcut for small (ASCII, Latin-1, two-byte, BMP) values would see are not lost among thousands.
template <typename V>
char32_t from(h::Rng& r, V const& v)
{
    if (v.size() > 2 && r.chance(1, 2))
    {
        auto bits = [](char32_t c) { return c ? uint32_t(32 - __builtin_clz(uint32_t(c))) : 0u; };
        auto lo = bits(v.front()), hi = bits(v.back());
        if (lo < hi)
        {
            auto b = lo + r.below(hi - lo + 1);
            auto first = std::lower_bound(v.begin(), v.end(), b ? char32_t(1) << (b - 1) : char32_t(0));
            auto last = std::lower_bound(v.begin(), v.end(), char32_t(1) << b);
            if (first < last)
                return first[r.below(uint32_t(last - first))];
        }
    }
    return v[r.below(uint32_t(v.size()))];
}
inline char32_t gen_grapheme(h::Rng& r)
{
    switch (r.below(12))
    {
        case 0: return from(r, Interesting);
        case 1: return from(r, P.incb[r.below(uint32_t(P.incb.size()))]);
        case 2: return from(r, P.extpict);
        case 3: return 0x200D;
        case 4: return 0x1F1E6 + r.below(26);
        case 5: return from(r, P.virama);
        case 6: return r.chance(1, 2) ? 0xFE0F : r.chance(1, 2) ? 0xFE0E : 0x1F3FB + r.below(5);
        case 7: return 0x20 + r.below(95);
        case 8: return from(r, P.evs);
        default: return from(r, P.gcb[r.below(uint32_t(P.gcb.size()))]);
    }
}
inline char32_t gen_word(h::Rng& r)
{
    switch (r.below(8))
    {
        case 0: return from(r, Interesting);
        case 1: return 0x20 + r.below(95);
        case 2: return 0x200D;
        case 3: return from(r, P.extpict);
        default: return from(r, P.wb[r.below(uint32_t(P.wb.size()))]);
    }
}
inline char32_t gen_norm(h::Rng& r)
{
    switch (r.below(12))
    {
        case 0: return from(r, Interesting);
        case 1:
        case 2: return from(r, P.decomposable);
        case 3:
        case 4: return from(r, P.ccc[r.below(uint32_t(P.ccc.size()))]);
        case 5: return from(r, P.qcmaybe);
        case 6: return r.chance(1, 2) ? 0x1100 + r.below(0x100) : 0xAC00 + r.below(11172);
        case 7: return 0x41 + r.below(58);
        case 8: return 0x300 + r.below(0x70);
        case 9:
        { // first half of a primary composite
            auto it = comp.begin();
            std::advance(it, r.below(uint32_t(comp.size())));
            return r.chance(1, 2) ? it->first.first : it->first.second;
        }
        default: return any_scalar(r);
    }
}
template <typename G>
u32 gen_string(h::Rng& r, G g, uint32_t maxlen)
{
    u32 s;
    auto n = r.chance(1, 12) ? r.below(maxlen * 4 + 1) : r.below(maxlen + 1);
    // small alphabets make repeats and long runs likely
    if (r.chance(1, 2))
    {
        std::vector<char32_t> alpha;
        auto k = 1 + r.below(5);
        for (uint32_t i = 0; i < k; ++i)
            alpha.push_back(g(r));
        for (uint32_t i = 0; i < n; ++i)
            s.push_back(alpha[r.below(k)]);
    }
    else
        for (uint32_t i = 0; i < n; ++i)
            s.push_back(g(r));
    return s;
}
inline u32 gen_emoji_text(h::Rng& r)
{
    u32 s;
    auto n = 1 + r.below(5);
    for (uint32_t i = 0; i < n; ++i)
    {
        if (r.chance(2, 3))
        {
            auto e = emojiSeqs[r.below(uint32_t(emojiSeqs.size()))].second;
            if (r.chance(1, 6) && e.size() > 1)
                e.erase(r.below(uint32_t(e.size())), 1);
            if (r.chance(1, 8))
                e.insert(r.below(uint32_t(e.size() + 1)), 1, gen_grapheme(r));
            s += e;
        }
        else
            s.push_back(gen_grapheme(r));
    }
    return s;
}
inline uint32_t stretch_length(h::Rng& r)
{
    switch (r.below(16))
    {
        case 0: return 250 + r.below(12);
        case 1: return 124 + r.below(10);
        case 2:
        case 3: return 60 + r.below(10);
        case 4:
        case 5:
        case 6:
        case 7: return 5 + r.below(12);
        default: return 28 + r.below(14);
    }
}
/// Repeats one character of a text (or a pair) where it stands: what counts or limits how far it looks meets more of it than usual.
inline void stretch(h::Rng& r, u32& s)
{
    if (s.empty())
        return;
    auto at = r.below(uint32_t(s.size()));
    auto unit = s.substr(at, r.chance(1, 4) ? 2 : 1);
    auto n = stretch_length(r);
    u32 more;
    for (uint32_t i = 0; i < n; ++i)
        more += unit;
    s.insert(at, more);
}
/// Every sequence of four classes with the second or third one stretched.
template <typename Rep, typename F>
void stretched_sequences(h::Rng& r, size_t k, Rep rep, F fn, uint64_t every = 1)
{
    h::shard_loop(uint64_t(k) * k * k * k * 2 / every, [&](uint64_t i) {
        i = i * every + r.below(uint32_t(every));
        auto const which = 1 + i % 2;
        i /= 2;
        auto const n = stretch_length(r);
        bool const same = r.chance(1, 2);
        u32 s;
        for (size_t j = 0; j < 4; ++j, i /= k)
        {
            s += rep(i % k);
            if (j == which)
                for (uint32_t x = 1; x < n; ++x)
                    s += same ? s.back() : rep(i % k);
        }
        fn(s);
        h::count("stretched sequences");
    });
}
inline u32 gen_any_text(h::Rng& r, uint32_t maxlen)
{
    if (r.chance(1, 32))
    {
        auto s = gen_any_text(r, maxlen);
        stretch(r, s);
        return s;
    }
    switch (r.below(6))
    {
        case 0: return gen_string(r, gen_grapheme, maxlen);
        case 1: return gen_string(r, gen_word, maxlen);
        case 2: return gen_string(r, gen_norm, maxlen);
        case 3: return gen_emoji_text(r);
        case 4: return gen_string(r, [](h::Rng& q) { return char32_t(0x20 + q.below(0x60)); }, maxlen * 3);
        default: return gen_string(r, any_scalar, maxlen);
    }
}
/// A long text: few stretches, each one short unit (or a handful of characters at random) over and over, so that
/// counters, buffers and caps inside the library meet clusters, words, runs and mark sequences of any length.
inline u32 gen_long(h::Rng& r, uint32_t maxlen)
{
    static u32 const seeds[] = { U"\u0301", U"\u200D", U"\u0301\u0323", U"\U0001F1E9", U"\u0915\u094D", U"\U0001F469\u200D", U"\u0600",
                                 U"\u1100", U"\u1161", U"\u11A8", U"\u1100\u1161", U"a", U"1", U"A.", U"\u30A2", U"\u05D0'", U"\uFE0F",
                                 U"\uFE0E", U"\U000E0061", U"\U0001F3FB", U" ", U"\u4E00", U"\u00DF", U"\u0130", U"\u0915\u093E", U"\u0344",
                                 U"\u3099", U"e\u0301", U"\u0327\u0301", U"\U0001F600", U"\u2764\uFE0F\u200D", U"\uAC00", U"\u0345" };
    u32 s;
    for (uint32_t k = 1 + r.below(3); k-- > 0;)
    {
        uint32_t n = 1 + r.below(maxlen >> r.below(9));
        if (r.chance(1, 3))
            s += gen_any_text(r, 3);
        if (r.chance(1, 2))
        {
            auto u = r.chance(2, 3) ? seeds[r.below(sizeof seeds / sizeof *seeds)] : gen_any_text(r, 4);
            if (u.empty() || u.size() > 12)
                u = U"\u0301";
            for (uint32_t i = 0; i < n; i += uint32_t(u.size()))
                s += u;
        }
        else
        {
            char32_t alpha[4];
            auto m = 1 + r.below(4);
            for (uint32_t i = 0; i < m; ++i)
                alpha[i] = r.chance(1, 2) ? seeds[r.below(sizeof seeds / sizeof *seeds)][0] : gen_grapheme(r);
            for (uint32_t i = 0; i < n; ++i)
                s += alpha[r.below(m)];
        }
        if (r.chance(1, 2))
            s += gen_any_text(r, 3);
    }
    return s;
}
/// Runs fn on long texts: many of some hundred characters, some of thousands, and a few of tens of thousands.
template <typename F>
void long_texts(h::Rng& r, F fn)
{
    h::shard_loop(h::tier(160, 4000), [&](uint64_t i) {
        auto s = gen_long(r, i % 16 == 0 ? (h::g.thorough && i % 64 == 0 ? 40000 : 12000) : i % 4 == 0 ? 4000 : 700);
        h::count("long texts");
        h::count("characters in long texts", s.size());
        fn(s);
    });
}
/// What decides across a distance: every context with every kind of character thousands of times in between. fn gets
/// the text; how far the library looks, counts or remembers must not show.
template <typename F>
void far_texts(h::Rng& r, F fn, uint64_t every = 1)
{
    static std::pair<u32, u32> const contexts[] = {
        { U"a.", U"b" }, { U"a", U".b" }, { U"a'", U"b" }, { U"1,", U"2" }, { U"\u05D0\"", U"\u05D0" }, { U"\u05D0'", U"a" }, { U"a", U"b" }, { U"1", U"a" },
        { U"\u30A2", U"_\u30A2" }, { U" ", U" " }, { U"\U0001F1E9\U0001F1EA\U0001F1E9", U"\U0001F1EA\U0001F1E9" }, { U"\U0001F469", U"\u200D\U0001F4BB" },
        { U"\U0001F469\u200D", U"\U0001F4BB\U0001F3FB" }, { U"\u00A9", U"\uFE0F\u200D\u00AE" }, { U"\u0915", U"\u094D\u0915" }, { U"\u0915\u094D", U"\u0915\u093E" },
        { U"\u1100", U"\u1161\u11A8" }, { U"\uAC00", U"\u11A8x" }, { U"\u0600", U"a\u0301" }, { U"\u4E00", U"\uFE0E\uFE0F" }, { U"\u2764", U"\uFE0F\u200D\U0001F525" },
        { U"\U0001F600", U"\uFE0E\u200D\U0001F600" }, { U"1", U"\uFE0F\u20E3" }, { U"\U0001F3F4\U000E0067", U"\U000E007Fx" }, { U"\u0951", U"\u05D0" }, { U"\u0964", U"\u0915z" },
        { U"\u3001", U"\u30A2\u3042" }, { U"(", U"\u03B1)" }, { U"e", U"\u0323\u0301" }, { U"\u0327\u00E9", U"\u0345\uFB03" } };
    static char32_t const units[] = { 0x301, 0x323, 0x327, 0x200D, 0xFE0F, 0xFE0E, 0xAD, 0x94D, 0x93E, 0x600, 0x1100, 0x1161, 0x11A8, 0x1F1E6, 0x1F600,
                                      0x1F3FB, 0xE0061, U'a', U'1', U' ', 0x4E00, U'.', 0x30A2, 0x5D0, 0xDF, 0x345, 0x951, 0x3099, 0x0F73, 0xE9 };
    constexpr uint64_t nc = sizeof contexts / sizeof *contexts, nu = sizeof units / sizeof *units;
    h::shard_loop(nc * nu, [&](uint64_t i) {
        auto const& [head, tail] = contexts[i / nu];
        for (uint32_t n: { 1030 + r.below(100), 4100 + r.below(100), 8200 + r.below(1000), 65540 + r.below(1000) })
        {
            if (!h::g.thorough && (n > 65535 ? (i % nu + i / nu) % 8 != h::g.seed % 8 : every > 1 && r.below(uint32_t(every))))
                continue;
            h::count("texts that decide across a distance");
            fn(head + u32(n, units[i % nu]) + tail);
        }
    });
}
template <typename F>
void huge_texts(F fn)
{
    // more than 65536 clusters, columns, words, marks of one cluster, characters of one run
    static u32 const units[] = { U"\u4E00", U"\u0301", U"\u00E9", U"a", U"\U0001F1E9\U0001F1EA,", U"\u0928\u0416", U"ab ", U"\uFB03", U"\U0001F600", U"x\U0001F600", U"\u0301\u0323", U"\uAC01" };
    h::shard_loop(sizeof units / sizeof *units, [&](uint64_t i) {
        u32 s = U"e";
        while (s.size() < 66000 * units[i].size() / (i == 0 || i == 8 ? 2 : 1))
            s += units[i];
        s += U"e\u0301 z";
        h::count("huge texts");
        fn(s);
    });
}
} // namespace ref
