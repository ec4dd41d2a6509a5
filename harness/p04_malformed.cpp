// P04: malformed input - every entry point stays in bounds, terminates, and gets back in step with the text.
#include "malformed.hpp"
#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>

using namespace unicode;
using ref::u32;
namespace
{
void judge(char const* route, std::string const& in, std::vector<mal::Tok> const& toks, u32 const& out)
{
    h::count("decodings judged");
    auto why = mal::match(toks, out);
    if (!why.empty())
        h::violation(route, h::hex(in), why + ": decoded to " + h::hex(out));
}

void utf8(std::string const& in, bool wide = true)
{
    h::mark("malformed-utf8", in);
    h::exact<char> e(in);
    auto v = e.view();
    auto toks = mal::tokenize(in);
    if (!mal::well_formed(toks))
    {
        h::g.nontrivial++;
        h::seen("distinct malformed strings", h::hash_str(in));
    }
    judge("convert_to<char32_t>(string)", in, toks, convert_to<char32_t>(v));
    judge("from_utf8(string)", in, toks, from_utf8(v));
    {
        u32 out;
        convert_to<char32_t>(v, std::back_inserter(out));
        judge("convert_to<char32_t>(iterator)", in, toks, out);
        h::exact<char32_t> buf(in.size()); // never more code points than bytes
        auto* end = convert_to<char32_t>(v, buf.data());
        judge("convert_to<char32_t>(pointer)", in, toks, u32(buf.data(), end));
    }
    {
        auto o16 = convert_to<char16_t>(v);
        auto why = mal::match16(toks, o16);
        if (!why.empty())
            h::violation("convert_to<char16_t>(string)", h::hex(in), why + ": decoded to " + h::hex(o16));
        std::u16string b16;
        convert_to<char16_t>(v, std::back_inserter(b16));
        why = mal::match16(toks, b16);
        if (!why.empty())
            h::violation("convert_to<char16_t>(iterator)", h::hex(in), why + ": decoded to " + h::hex(b16));
    }
    {
        decoder<char> d {};
        utf8_decoder_state st {}, st2 {};
        u32 a, b, c, s;
        auto cs = u8u32_stream_convert_create();
        for (char ch: in)
        {
            if (auto x = d(uint8_t(ch)))
                a += *x;
            auto r = from_utf8(st, uint8_t(ch));
            if (auto* ok = std::get_if<Success>(&r))
                b += ok->value;
            else if (std::get_if<Invalid>(&r))
                b += 0xFFFD;
            auto x = from_utf8i(st2, uint8_t(ch));
            if (x == unsigned(-2))
                c += 0xFFFD;
            else if (x != unsigned(-1))
                c += char32_t(x);
            u32_char_t o;
            if (u8u32_stream_convert_run(cs, ch, &o) == 1)
                s += char32_t(o);
        }
        u8u32_stream_convert_destroy(&cs);
        judge("decoder<char>(byte)", in, toks, a);
        judge("from_utf8(state,byte)", in, toks, b);
        judge("from_utf8i(state,byte)", in, toks, c);
        judge("u8u32_stream_convert_run", in, toks, s);
    }
    { // pointer API needs a terminator after truncated input
        h::exact<char> z(in + std::string(1, '\0'));
        u32 out;
        size_t pos = 0;
        while (pos < in.size())
        {
            size_t n = 0;
            auto r = from_utf8(z.data() + pos, &n);
            if (n == 0 || n > in.size() - pos)
            {
                h::violation("from_utf8(pointer)/size", h::hex(in), "consumed " + std::to_string(n) + " bytes at " + std::to_string(pos));
                return;
            }
            if (auto* ok = std::get_if<Success>(&r))
                out += ok->value;
            pos += n;
        }
        judge("from_utf8(pointer)", in, toks, out);
        // the iterator form likewise leaves it to the caller to end the input with something that is no continuation
        decoder<char> d {};
        out.clear();
        auto it = z.view().begin();
        auto const end = it + std::ptrdiff_t(in.size());
        while (it < end)
            if (auto x = d(it))
                out += *x;
        if (it != end)
            h::violation("decoder<char>(iterator)/end", h::hex(in), "the terminator was consumed along with the text");
        judge("decoder<char>(iterator)", in, toks, out);
    }
    {
        u32 out;
        size_t steps = 0;
        auto seg = utf8_grapheme_segmenter(v);
        for (auto i = seg.begin(), end = seg.end(); i != end; ++i)
        {
            if (++steps > in.size())
            {
                h::violation("utf8_grapheme_segmenter/steps", h::hex(in), "more clusters than bytes");
                return;
            }
            out += *i;
        }
        judge("utf8_grapheme_segmenter", in, toks, out);
    }
    auto gcs = u8_gc_count(v.data(), v.size());
    if (gcs < 0 || size_t(gcs) > in.size())
        h::violation("u8_gc_count/bound", h::hex(in), std::to_string(gcs));
    for (int mode: { 0, 1 })
    {
        auto w = u8_gc_width(v.data(), v.size(), mode);
        if (w < 0 || size_t(w) > 2 * in.size())
            h::violation("u8_gc_width/bound", h::hex(in), std::to_string(w));
    }
    if (grapheme_cluster_width(v) > 2 * in.size())
        h::violation("grapheme_cluster_width/bound", h::hex(in), "");
    if (!wide)
        return;
    for (auto f: { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD })
    {
        auto n = normalize(v, f);
        h::count("other entry points run", 4);
        (void) quick_check(v, f);
        (void) is_normalized(v, f);
        utf8_normalizer s(f);
        auto half = v.size() / 2;
        std::string o(s.feed(v.substr(0, half)));
        o += s.feed(v.substr(half));
        o += s.flush();
        // once flushed, nothing of the malformed text may leak into what follows
        std::string t(s.feed("Az"));
        t += s.flush();
        if (t != "Az")
            h::violation("utf8_normalizer/flush-leaks", h::hex(in), "\"Az\" fed after flush() gave " + h::hex(t));
        if (f == Normalization_Form::NFD)
            judge("utf8_normalizer/NFD-tokens", in, mal::nfd_tokens(toks), convert_to<char32_t>(std::string_view(o)));
    }
    (void) is_canonically_equivalent(v, v);
    (void) is_compatibility_equivalent(v, v);
    (void) to_uppercase(v);
    (void) to_lowercase(v);
    (void) to_titlecase(v);
    (void) casefold(v);
    if (casefold_compare(v, v) != 0 || !casefold_equals(v, v))
        h::violation("casefold_compare/reflexive", h::hex(in), "not equal to itself");
    h::count("other entry points run", 8);
}

void utf16(std::u16string const& in)
{
    h::mark("malformed-utf16", in);
    h::exact<char16_t> e(in);
    // Required: valid pairs and BMP scalars, except directly behind an unpaired high surrogate, where the
    // library (and its test suite) drop the unit along with the surrogate.
    std::vector<mal::Tok> toks;
    bool bad = false;
    for (size_t i = 0; i < in.size(); ++i)
    {
        auto c = in[i];
        if (c < 0xD800 || c > 0xDFFF)
            toks.push_back({ mal::Tok::W, c, 0 });
        else if (c < 0xDC00 && i + 1 < in.size() && in[i + 1] >= 0xDC00 && in[i + 1] <= 0xDFFF)
        {
            toks.push_back({ mal::Tok::W, char32_t(0x10000 + ((c - 0xD800u) << 10) + (in[i + 1] - 0xDC00u)), 0 });
            ++i;
        }
        else
        {
            bad = true;
            toks.push_back({ mal::Tok::M, 0, 1 });
            if (c < 0xDC00 && i + 1 < in.size())
            {
                ++i;
                auto d = in[i];
                if (d >= 0xD800 && d <= 0xDBFF)
                { // may be dropped as well (and then its partner, if any), or start a pair; it is never half of a character otherwise
                    unsigned k = 1;
                    if (i + 1 < in.size() && in[i + 1] >= 0xDC00 && in[i + 1] <= 0xDFFF)
                    {
                        ++i, ++k;
                        toks.push_back({ mal::Tok::OPT, char32_t(0x10000 + ((d - 0xD800u) << 10) + (in[i] - 0xDC00u)), 0 });
                    }
                    toks.push_back({ mal::Tok::M, 0, k });
                }
                else
                    toks.push_back({ mal::Tok::OPT, d, 1 });
            }
        }
    }
    if (bad)
    {
        h::g.nontrivial++;
        h::seen("distinct malformed strings", h::hash_str(in));
    }
    auto v = e.view();
    auto check = [&](char const* route, u32 const& out) {
        h::count("decodings judged");
        auto why = mal::match(toks, out);
        if (!why.empty())
            h::violation(route, h::hex(in), why + ": decoded to " + h::hex(out));
    };
    check("convert_to<char32_t>(u16string)", convert_to<char32_t>(v));
    u32 o;
    convert_to<char32_t>(v, std::back_inserter(o));
    check("convert_to<char32_t>(u16 iterator)", o);
    h::exact<char32_t> buf(in.size());
    auto* end = convert_to<char32_t>(v, buf.data());
    check("convert_to<char32_t>(u16 pointer)", u32(buf.data(), end));
    auto s8 = convert_to<char>(v);
    check("convert_to<char>(u16string)", convert_to<char32_t>(std::string_view(s8)));
    for (auto c: in)
        if (c < 0xD800 || c > 0xDFFF)
        {
            if (convert_to<char32_t>(c) != u32(1, c))
                h::violation("convert_to<char32_t>(char16_t)", h::hex(in), "");
        }
        else
            (void) convert_to<char32_t>(c);
}

// UTF-32 with values that are no code points: memory safety, progress, and no damage to the neighbours
void utf32(u32 const& in)
{
    h::mark("malformed-utf32", in);
    h::exact<char32_t> e(in);
    auto v = e.view();
    bool bad = false;
    std::vector<mal::Tok> toks;
    for (auto c: in)
        if (ref::scalar(c))
            toks.push_back({ mal::Tok::W, c, 0 });
        else
        {
            bad = true;
            toks.push_back({ mal::Tok::M, 0, 1 });
        }
    if (bad)
    {
        h::g.nontrivial++;
        h::seen("distinct malformed strings", h::hash_str(in));
    }
    h::count("decodings judged");
    auto o16 = convert_to<char16_t>(v);
    auto why = mal::match16(toks, o16);
    if (!why.empty())
        h::violation("convert_to<char16_t>(u32string)", h::hex(in), why + ": " + h::hex(o16));
    auto o8 = convert_to<char>(v);
    if (o8.size() > 4 * in.size() || to_utf8(in).size() > 4 * in.size())
        h::violation("convert_to<char>(u32string)/bound", h::hex(in), std::to_string(o8.size()));
    // scalars before, between and after survive, in order
    {
        size_t pos = 0;
        for (auto c: in)
            if (ref::scalar(c))
            {
                std::string want;
                ref::put8(c, want);
                pos = o8.find(want, pos);
                if (pos == std::string::npos)
                {
                    h::violation("convert_to<char>(u32string)", h::hex(in), "lost U+" + h::cphex(c) + " in " + h::hex(o8));
                    break;
                }
                pos += want.size();
            }
    }
    auto tile = [&](char const* what, auto seg) { // segments tile the text exactly, whatever the code points
        size_t pos = 0, steps = 0;
        while (pos < v.size())
        {
            auto s = *seg;
            if (s.empty() || s.data() != v.data() + pos || s.size() > v.size() - pos || ++steps > v.size())
            {
                h::violation(what, h::hex(in), "segments do not tile the text at " + std::to_string(pos));
                return;
            }
            pos += s.size();
            ++seg;
        }
        h::count("other entry points run");
    };
    tile("grapheme_segmenter/tiling", grapheme_segmenter(v));
    tile("word_segmenter/tiling", word_segmenter(v));
    {
        script_segmenter s(v);
        size_t pos = 0, steps = 0;
        while (auto r = s.consume())
        {
            if (r->size <= pos || r->size > v.size() || ++steps > v.size())
            {
                h::violation("script_segmenter/progress", h::hex(in), "");
                break;
            }
            pos = r->size;
        }
        if (pos != v.size())
            h::violation("script_segmenter/end", h::hex(in), std::to_string(pos));
    }
    {
        run_segmenter s(v);
        run_segmenter::range r;
        size_t pos = 0, steps = 0;
        while (s.consume(out(r)))
        {
            if (r.start != pos || r.end <= r.start || r.end > v.size() || ++steps > v.size())
            {
                h::violation("run_segmenter/progress", h::hex(in), "");
                break;
            }
            pos = r.end;
        }
        if (pos != v.size())
            h::violation("run_segmenter/end", h::hex(in), std::to_string(pos));
    }
    auto n = u32_gc_count(reinterpret_cast<u32_char_t const*>(v.data()), v.size());
    if (n < 0 || size_t(n) > v.size())
        h::violation("u32_gc_count/bound", h::hex(in), std::to_string(n));
    for (int mode: { 0, 1 })
    {
        auto w = u32_gc_width(reinterpret_cast<u32_char_t const*>(v.data()), v.size(), mode);
        if (w < 0 || size_t(w) > 2 * v.size())
            h::violation("u32_gc_width/bound", h::hex(in), std::to_string(w));
    }
    for (auto f: { Normalization_Form::NFC, Normalization_Form::NFD, Normalization_Form::NFKC, Normalization_Form::NFKD })
    {
        auto x = normalize(v, f);
        u32 want;
        normalizer s(f);
        u32 got;
        for (auto c: v)
            got += s.feed(c);
        got += s.flush();
        if (got != x)
            h::violation("normalizer/malformed", h::hex(in), "stream " + h::hex(got) + " batch " + h::hex(x));
        for (auto c: in)
            if (!ref::scalar(c) && std::count(x.begin(), x.end(), c) != std::count(in.begin(), in.end(), c))
                h::violation("normalize/malformed", h::hex(in), "did not keep " + h::cphex(c));
        (void) is_normalized(v, f);
    }
    (void) to_uppercase(v);
    (void) to_lowercase(v);
    (void) to_titlecase(v);
    (void) casefold(v);
    h::count("other entry points run", 12);
}

unsigned char const Alpha[] = { 0x00, 0x0A, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xCC, 0xDF, 0xE0,
                                0xE2, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF };
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 4, uint64_t(h::g.shard));
    auto const n = sizeof(Alpha);
    utf8("");
    utf16(u"");
    utf32(U"");
    // all two-byte strings, bare and embedded
    h::shard_loop(256, [&](uint64_t a) {
        for (unsigned b = 0; b < 256; ++b)
        {
            std::string s { char(a), char(b) };
            utf8(s, b % 16 == 0);
            utf8("x" + s + "yz", false);
        }
    });
    // all strings of 3 (thorough: 4) bytes over the alphabet of byte classes
    uint64_t total = n * n * n * (h::g.thorough ? n : 1);
    h::shard_loop(total, [&](uint64_t i) {
        std::string s;
        uint64_t j = i;
        for (int k = 0; k < (h::g.thorough ? 4 : 3); ++k, j /= n)
            s += char(Alpha[j % n]);
        utf8(s, false);
        if (i % 5 == 0)
            utf8(std::string(16, 'a') + s + "\xC3\xA9z", false);
    });
    h::shard_loop(h::tier(24000, 600000), [&](uint64_t i) {
        auto s = mal::gen(r);
        utf8(s, i % 8 == 0);
        if (i < 32)
            h::sample("malformed UTF-8", h::hex(s));
    });
    h::shard_loop(h::tier(6000, 150000), [&](uint64_t) {
        // long ASCII, then damage, around the vector widths
        std::string s;
        for (uint32_t k = r.below(140); k-- > 0;)
            s += char(0x20 + r.below(0x5F));
        s += mal::gen(r);
        for (uint32_t k = r.below(140); k-- > 0;)
            s += char(0x20 + r.below(0x5F));
        utf8(s, false);
    });
    h::shard_loop(h::tier(16000, 400000), [&](uint64_t) {
        auto s = ref::to16(ref::gen_any_text(r, 8));
        for (uint32_t k = r.below(5); k-- > 0;)
        {
            auto at = r.below(uint32_t(s.size() + 1));
            switch (r.below(4))
            {
                case 0: s.insert(s.begin() + at, char16_t(0xD800 + r.below(0x800))); break;
                case 3:
                    for (uint32_t m = 2 + r.below(4); m-- > 0;)
                        s.insert(s.begin() + at, char16_t(0xD800 + r.below(0x800)));
                    break;
                case 1:
                    if (at < s.size())
                        s.erase(s.begin() + at);
                    break;
                default: s.resize(at); break;
            }
        }
        if (r.chance(1, 4))
            s += char16_t(0xD800 + r.below(0x400));
        utf16(s);
    });
    h::shard_loop(h::tier(8000, 200000), [&](uint64_t) {
        auto s = ref::gen_any_text(r, 8);
        for (uint32_t k = r.below(5); k-- > 0;)
        {
            char32_t bad[] = { char32_t(0xD800 + r.below(0x800)), char32_t(0x110000 + r.below(16)), char32_t(r.next()), 0xFFFFFFFF, 0x7FFFFFFF, 0x200000 };
            s.insert(r.below(uint32_t(s.size() + 1)), 1, bad[r.below(6)]);
        }
        utf32(s);
    });
    return 0;
}
