// P06: decoding UTF-8 byte by byte, with any number of independent streams, gives what decoding at once gives.
#include "malformed.hpp"
#include <libunicode/capi.h>
#include <libunicode/convert.h>
#include <libunicode/utf8.h>

using namespace unicode;
using ref::u32;
namespace
{
struct Stream // one of each incremental decoder, with its output so far
{
    h::fresh<decoder<char>> df;
    h::fresh<utf8_decoder_state> af, bf;
    decoder<char>& d = *df;
    utf8_decoder_state &a = *af, &b = *bf;
    u8u32_stream_state_t c = u8u32_stream_convert_create();
    u32 od, oa, ob, oc;
    std::vector<int> ra; // event log of from_utf8: -1 incomplete, -2 invalid, otherwise the code point
    ~Stream() { u8u32_stream_convert_destroy(&c); }
    void feed(std::string const& in, size_t i)
    {
        auto byte = uint8_t(in[i]);
        if (auto x = d(byte))
            od += *x;
        auto r = from_utf8(a, byte);
        if (auto* ok = std::get_if<Success>(&r))
        {
            oa += ok->value;
            ra.push_back(int(ok->value));
        }
        else
            ra.push_back(std::get_if<Invalid>(&r) ? -2 : -1);
        auto v = from_utf8i(b, byte);
        if (v < unsigned(-2))
            ob += char32_t(v);
        u32_char_t o = 0xA5A5A5A5;
        auto n = u8u32_stream_convert_run(c, char(byte), &o);
        if (n == 1)
            oc += char32_t(o);
        else if (o != 0xA5A5A5A5)
            h::violation("stream/output-touched", h::hex(in), "at byte " + std::to_string(i));
        if (int(v) != ra.back())
            h::violation("from_utf8i/differs", h::hex(in), "at byte " + std::to_string(i));
        h::count("bytes fed", 4);
    }
};

void judge(char const* who, std::string const& in, u32 const& got, u32 const& want)
{
    h::count("streams compared");
    if (got != want)
        h::violation(who, h::hex(in), "incremental " + h::hex(got) + " batch " + h::hex(want));
}
void finish(Stream& s, std::string const& in, bool wf)
{
    auto batch = convert_to<char32_t>(std::string_view(in));
    judge("decoder<char>", in, s.od, batch);
    judge("u8u32_stream", in, s.oc, batch);
    if (wf)
    {
        judge("from_utf8", in, s.oa, batch);
        judge("from_utf8i", in, s.ob, batch);
        // the event log: each character's last byte, and only that, completes it
        auto toks = mal::tokenize(in);
        size_t p = 0;
        for (auto& t: toks)
        {
            std::string c;
            ref::put8(t.c, c);
            for (size_t k = 0; k < c.size(); ++k, ++p)
            {
                int want = k + 1 == c.size() ? int(t.c) : -1;
                if (s.ra[p] != want)
                    h::violation("from_utf8/events", h::hex(in), "byte " + std::to_string(p) + " gave " + std::to_string(s.ra[p]) + " want " + std::to_string(want));
                h::count("events checked");
            }
        }
    }
    else
    {
        auto why = mal::match(mal::tokenize(in), s.oa);
        if (!why.empty())
            h::violation("from_utf8/malformed", h::hex(in), why + ": " + h::hex(s.oa));
    }
}

void interleaved(h::Rng& r, std::vector<std::string> const& ins, bool wf)
{
    std::string log;
    for (auto& s: ins)
        log += s + '|';
    h::mark("incremental", log);
    std::vector<std::unique_ptr<Stream>> st;
    std::vector<size_t> pos(ins.size(), 0);
    for (size_t i = 0; i < ins.size(); ++i)
        st.push_back(std::make_unique<Stream>());
    size_t left = 0;
    for (auto& s: ins)
        left += s.size();
    uint64_t order = 7;
    while (left)
    {
        auto k = r.below(uint32_t(ins.size()));
        auto burst = 1 + r.below(3);
        while (burst-- > 0 && pos[k] < ins[k].size())
        {
            st[k]->feed(ins[k], pos[k]++);
            order = h::mix(order ^ k);
            --left;
        }
    }
    h::seen("distinct interleavings", order);
    for (size_t i = 0; i < ins.size(); ++i)
    {
        finish(*st[i], ins[i], wf);
        if (ins[i].size() > 1)
            h::g.nontrivial++;
    }
}

// A decoder that is mid-sequence when a chunk ends: split the text at every byte, and compare with the
// decoder's own state carried through a copy (states are values).
void splits(std::string const& in)
{
    h::mark("splits", in);
    auto batch = convert_to<char32_t>(std::string_view(in));
    for (size_t k = 0; k <= in.size(); ++k)
    {
        h::fresh<decoder<char>> dFresh;
        auto& d = *dFresh;
        h::fresh<utf8_decoder_state> aFresh;
        auto& a = *aFresh;
        u32 o, oa;
        for (size_t i = 0; i < k; ++i)
        {
            if (auto x = d(uint8_t(in[i])))
                o += *x;
            auto r = from_utf8(a, uint8_t(in[i]));
            if (auto* s = std::get_if<Success>(&r))
                oa += s->value;
        }
        auto d2 = d;
        auto a2 = a;
        for (size_t i = k; i < in.size(); ++i)
        {
            if (auto x = d2(uint8_t(in[i])))
                o += *x;
            auto r = from_utf8(a2, uint8_t(in[i]));
            if (auto* s = std::get_if<Success>(&r))
                oa += s->value;
        }
        judge("split/decoder<char>", in, o, batch);
        judge("split/from_utf8", in, oa, batch);
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 6, uint64_t(h::g.shard));
    h::shard_loop(0x1100, [&](uint64_t b) { // every scalar value, through one long-lived stream per block
        std::string s;
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
            if (ref::scalar(c))
                ref::put8(c, s), h::count("scalars, exhaustive");
        interleaved(r, { s }, true);
    });
    h::shard_loop(h::tier(8000, 300000), [&](uint64_t) {
        std::vector<std::string> v;
        for (uint32_t k = 1 + r.below(4); k-- > 0;)
            v.push_back(ref::to8(ref::gen_any_text(r, 15)));
        interleaved(r, v, true);
    });
    h::shard_loop(h::tier(8000, 300000), [&](uint64_t) {
        std::vector<std::string> v;
        for (uint32_t k = 1 + r.below(4); k-- > 0;)
            v.push_back(mal::gen(r));
        interleaved(r, v, false);
    });
    h::shard_loop(h::tier(3000, 100000), [&](uint64_t) { splits(ref::to8(ref::gen_any_text(r, 10))); });
    auto const long_text = [&](ref::u32 const& s) { interleaved(r, { ref::to8(s), ref::to8(ref::gen_any_text(r, 15)) }, true); };
    ref::long_texts(r, long_text);
    ref::huge_texts(long_text);
    return 0;
}
