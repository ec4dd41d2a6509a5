// What scan_text() has to do with a text, as far as its documentation fixes it.
#pragma once
#include "malformed.hpp"
#include <libunicode/scan.h>

namespace sm
{
using ref::u32;
struct Event
{
    enum Kind
    {
        Ascii,
        Cluster,
        Invalid
    } kind;
    size_t from, to; // bytes
    size_t columns;
};
struct Recorder final: unicode::grapheme_cluster_receiver
{
    char const* base = nullptr;
    std::vector<Event> log;
    bool outside = false;
    size_t size = 0;
    void add(Event::Kind k, std::string_view v, size_t c)
    {
        if (v.data() < base || v.data() + v.size() > base + size)
            outside = true;
        log.push_back({ k, size_t(v.data() - base), size_t(v.data() - base) + v.size(), c });
    }
    void receiveAsciiSequence(std::string_view v) noexcept override { add(Event::Ascii, v, v.size()); }
    void receiveGraphemeCluster(std::string_view v, size_t c) noexcept override { add(Event::Cluster, v, c); }
    void receiveInvalidGraphemeCluster() noexcept override { log.push_back({ Event::Invalid, 0, 0, 1 }); }
};
inline std::string show(std::vector<Event> const& l)
{
    std::string r;
    for (auto& e: l)
        r += (e.kind == Event::Ascii ? "ascii[" : e.kind == Event::Cluster ? "cluster[" : "invalid[") + std::to_string(e.from) + "," + std::to_string(e.to) + ")/"
             + std::to_string(e.columns) + " ";
    return r;
}

/// One unit of the text: an ASCII character, or a cluster; ASCII always starts a new unit, but may be continued.
struct Unit
{
    size_t from, to;      // bytes
    u32 text;
    std::vector<size_t> w; // width after each of its characters
    std::vector<size_t> at; // byte offset behind each of its characters
    size_t width() const { return w.back(); }
    size_t peak() const { return *std::max_element(w.begin(), w.end()); }
};
/// Units of a well-formed text without controls.
inline std::vector<Unit> units(u32 const& s)
{
    std::vector<Unit> r;
    size_t byte = 0;
    for (size_t i = 0; i < s.size();)
    {
        size_t j = i + 1;
        while (j < s.size() && s[j] >= 0x80)
            ++j;
        // a stretch that starts the segmentation anew
        auto part = s.substr(i, j - i);
        auto b = ref::grapheme_bounds(part);
        for (size_t k = 0; k + 1 < b.size(); ++k)
        {
            Unit u;
            u.from = byte;
            u.text = part.substr(b[k], b[k + 1] - b[k]);
            std::vector<unsigned> widths;
            ref::cluster_width(u.text, &widths);
            for (size_t n = 0; n < u.text.size(); ++n)
            {
                auto w = widths[n];
                if (u.text[0] == 0x7F)
                    w = 1;
                u.w.push_back(w);
                byte += ref::to8(u32(1, u.text[n])).size();
                u.at.push_back(byte);
            }
            u.to = byte;
            r.push_back(std::move(u));
        }
        i = j;
    }
    return r;
}
inline size_t total(std::vector<Unit> const& u)
{
    size_t n = 0;
    for (auto& x: u)
        n += x.width();
    return n;
}
inline bool c0(char c) { return static_cast<unsigned char>(c) < 0x20; }
inline bool c1(char c) { return static_cast<unsigned char>(c) >= 0x80 && static_cast<unsigned char>(c) < 0xA0; }

inline char32_t gen_char(h::Rng& r)
{
    for (;;)
    {
        char32_t c;
        switch (r.below(9))
        {
            case 0:
            case 1:
            case 2: c = 0x20 + r.below(96); break;
            case 3: c = ref::from(r, ref::P.wide); break;
            case 4: c = r.chance(1, 2) ? 0x300 + r.below(0x70) : 0x903; break;
            default: c = ref::gen_grapheme(r);
        }
        if (c >= 0x20 && ref::scalar(c))
            return c;
    }
}
/// Well-formed text without controls (U+0080..U+009F may occur, as two bytes each).
inline u32 gen_text(h::Rng& r, uint32_t maxlen)
{
    u32 s;
    switch (r.below(5))
    {
        case 0:
            for (auto c: ref::gen_emoji_text(r))
                if (c >= 0x20 && ref::scalar(c))
                    s += c;
            break;
        case 1: // vector-length ASCII runs
            for (uint32_t n = 1 + r.below(3); n-- > 0;)
            {
                for (uint32_t k = r.below(r.chance(1, 3) ? 80 : 20); k-- > 0;)
                    s += char32_t(0x20 + r.below(96));
                for (uint32_t k = r.below(4); k-- > 0;)
                    s += gen_char(r);
            }
            break;
        default: s = ref::gen_string(r, gen_char, maxlen);
    }
    return s;
}
} // namespace sm
