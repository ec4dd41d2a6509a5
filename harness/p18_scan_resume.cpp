// P18: scanning resumes: cut into any calls, a text is delivered exactly once, in order, and its columns add up.
#include "scan_model.hpp"

using namespace unicode;
using ref::u32;
namespace
{
/// One history: a text with controls, scanned by calls over [next, chunk end) with a limit each, as a terminal does it.
struct History
{
    std::vector<size_t> cuts;   // chunk ends, ascending, the last one is the size of the text
    std::vector<size_t> limits; // cycled
};
std::string describe(std::string const& in, History const& hist)
{
    return h::hex(in) + " chunks " + h::list(hist.cuts) + " limits " + h::list(hist.limits);
}

/// parts: well-formed texts without controls, separated by controls (one byte each).
void run(std::vector<u32> const& parts, std::string const& controls, History const& hist)
{
    std::string in;
    size_t width = 0, narrowing = 0;
    std::vector<std::pair<size_t, size_t>> texts; // byte ranges
    std::vector<sm::Unit> units;
    for (size_t i = 0; i < parts.size(); ++i)
    {
        auto us = sm::units(parts[i]);
        width += sm::total(us);
        for (auto& u: us)
        {
            for (size_t k = 1; k < u.w.size(); ++k)
                if (u.w[k] < u.w[k - 1])
                    narrowing += u.w[k - 1] - u.w[k];
            u.from += in.size();
            u.to += in.size();
            for (auto& a: u.at)
                a += in.size();
            units.push_back(u);
        }
        auto b = ref::to8(parts[i]);
        texts.emplace_back(in.size(), in.size() + b.size());
        in += b;
        if (i + 1 < parts.size())
            in += controls[i];
    }
    h::mark("history", in);
    auto const where = [&] { return describe(in, hist); };
    h::exact<char> e(in);
    sm::Recorder rec;
    rec.base = e.data();
    rec.size = e.size();
    h::fresh<scan_state> stFresh;
    auto& st = *stFresh;
    size_t pos = 0, chunk = 0, call = 0, columns = 0, stuck = 0, calls = 0;
    uint64_t path = 0;
    while (pos < in.size())
    {
        while (chunk < hist.cuts.size() && hist.cuts[chunk] <= pos)
            ++chunk;
        auto const end = chunk < hist.cuts.size() ? hist.cuts[chunk] : in.size();
        auto const max = stuck ? stuck * 8 : hist.limits[call++ % hist.limits.size()];
        auto const logged = rec.log.size();
        auto const r = scan_text(st, e.view().substr(pos, end - pos), max, rec);
        ++calls;
        h::count("calls");
        if (calls > 20 * in.size() + 100)
        {
            h::violation("no progress", where(), "at " + std::to_string(pos));
            return;
        }
        if (r.count > max)
            h::violation("limit exceeded", where(), "count " + std::to_string(r.count) + " limit " + std::to_string(max));
        auto const next = st.next ? size_t(st.next - e.data()) : pos;
        if (next < pos || next > end)
        {
            h::violation("next outside the call's text", where(), std::to_string(next) + " not in " + std::to_string(pos) + ".." + std::to_string(end));
            return;
        }
        bool const incomplete = st.utf8.expectedLength != 0;
        if (r.start > r.end || r.end > e.data() + next || (!incomplete && r.end != e.data() + next))
            h::violation("result range", where(), "[" + std::to_string(r.start - e.data()) + "," + std::to_string(r.end - e.data()) + ") next " + std::to_string(next));
        columns += r.count;
        path = h::mix(path ^ (next * 31 + r.count));
        auto const before = pos;
        pos = next;
        if (pos == before && rec.log.size() != logged)
            h::violation("delivered without progress", where(), sm::show(rec.log));
        if (pos < end && (sm::c0(in[pos]) || (sm::c1(in[pos]) && !incomplete)) && r.count < max)
        {
            // scan_text() stopped at a control: the caller handles it, and goes on behind it
            if (incomplete)
                h::violation("incomplete at a control", where(), "");
            ++pos;
            st.next = nullptr;
            stuck = 0;
            h::count("controls skipped");
        }
        else if (pos == before)
            ++stuck; // nothing fits: the next line has more room
        else
            stuck = 0;
        if (incomplete)
            h::count("calls that end inside a character");
    }
    // Everything but the controls, exactly once, in order.
    size_t at = 0;
    auto skip = [&] {
        for (auto& [a, b]: texts)
            if (at == b && b < in.size())
            {
                at = b + 1;
                return true;
            }
        return false;
    };
    for (auto const& ev: rec.log)
    {
        h::count("receiver events checked");
        while (ev.from != at && skip())
            ;
        if (ev.kind == sm::Event::Invalid || ev.from != at || ev.to <= ev.from)
        {
            h::violation("delivery", where(), sm::show(rec.log));
            return;
        }
        at = ev.to;
    }
    while (skip())
        ;
    if (at != in.size() || rec.outside)
        h::violation("delivery incomplete", where(), "up to " + std::to_string(at) + ": " + sm::show(rec.log));
    // Columns add up; a selector that narrows a cluster cannot take back columns an earlier call has reported.
    if (columns < width || columns > width + (calls > 1 ? narrowing : 0))
        h::violation("columns do not add up", where(), std::to_string(columns) + " want " + std::to_string(width) + " " + sm::show(rec.log));
    h::count("histories judged");
    if (calls > 1)
    {
        h::g.nontrivial++;
        h::seen("distinct histories", h::hash_str(in) ^ path);
    }
}

struct Damage
{
    size_t columns = 0, marks = 0;
};
/// The same for damaged text: complete characters are delivered exactly once and in order; only malformed bytes may be missing.
bool run_damaged(std::string const& in, History const& hist, Damage& out)
{
    h::mark("damaged history", in);
    h::exact<char> e(in);
    auto const toks = mal::tokenize(in);
    std::vector<char> good(in.size(), 0), control(in.size(), 0);
    size_t p = 0;
    for (auto& t: toks)
    {
        size_t n = t.kind == mal::Tok::W ? ref::to8(u32(1, t.c)).size() : t.n;
        if (t.kind == mal::Tok::W)
            for (size_t k = 0; k < n; ++k)
                good[p + k] = 1;
        p += n;
    }
    sm::Recorder rec;
    rec.base = e.data();
    rec.size = e.size();
    h::fresh<scan_state> stFresh;
    auto& st = *stFresh;
    size_t pos = 0, chunk = 0, call = 0, stuck = 0, calls = 0;
    auto bad = [&](char const* k, std::string const& d) {
        h::violation(k, describe(in, hist), d + " " + sm::show(rec.log));
        return false;
    };
    while (pos < in.size())
    {
        while (chunk < hist.cuts.size() && hist.cuts[chunk] <= pos)
            ++chunk;
        auto const end = chunk < hist.cuts.size() ? hist.cuts[chunk] : in.size();
        auto const max = stuck ? stuck * 8 : hist.limits[call++ % hist.limits.size()];
        auto const r = scan_text(st, e.view().substr(pos, end - pos), max, rec);
        if (++calls > 20 * in.size() + 100)
            return bad("damaged/no progress", "at " + std::to_string(pos));
        h::count("calls on damaged text");
        if (r.count > max)
            return bad("damaged/limit exceeded", "");
        auto const next = st.next ? size_t(st.next - e.data()) : pos;
        if (next < pos || next > end)
            return bad("damaged/next outside the call's text", std::to_string(next));
        out.columns += r.count;
        auto const before = pos;
        pos = next;
        bool const incomplete = st.utf8.expectedLength != 0;
        if (pos < end && (sm::c0(in[pos]) || (sm::c1(in[pos]) && !incomplete)) && r.count < max)
        {
            if (good[pos] && !sm::c0(in[pos]))
                return bad("damaged/stopped inside a character", std::to_string(pos));
            control[pos] = 1;
            ++pos;
            st.next = nullptr;
            stuck = 0;
        }
        else
            stuck = pos == before ? stuck + 1 : 0;
    }
    size_t at = 0;
    for (auto const& ev: rec.log)
    {
        if (ev.kind == sm::Event::Invalid)
        {
            ++out.marks;
            continue;
        }
        if (ev.from < at || ev.to <= ev.from)
            return bad("damaged/delivery order", "");
        for (; at < ev.from; ++at)
            if (good[at] && !control[at])
                return bad("damaged/character not delivered", "byte " + std::to_string(at));
        for (; at < ev.to; ++at)
            if (control[at])
                return bad("damaged/control delivered", "byte " + std::to_string(at));
    }
    for (; at < in.size(); ++at)
        if (good[at] && !control[at])
            return bad("damaged/character not delivered", "byte " + std::to_string(at));
    if (rec.outside)
        return bad("damaged/delivered from outside", "");
    h::count("damaged histories judged");
    h::g.nontrivial++;
    return true;
}
void damaged(h::Rng& r, std::string const& in)
{
    if (in.empty() || in.size() > 300)
        return;
    size_t const n = in.size(), inf = 1u << 20;
    std::vector<size_t> bytes, rnd;
    for (size_t i = 1; i <= n; ++i)
        bytes.push_back(i);
    for (size_t i = 0; i < n;)
    {
        i = std::min(n, i + 1 + r.below(6));
        rnd.push_back(i);
    }
    bool narrowing = in.find("\xEF\xB8\x8E") != in.npos;
    Damage whole;
    if (!run_damaged(in, { { n }, { inf } }, whole))
        return;
    for (auto const& hist: { History { bytes, { inf } }, History { rnd, { inf } }, History { { n }, { 1 + r.below(5), r.below(3), 2 } }, History { rnd, { 1 + r.below(4) } } })
    {
        Damage d;
        if (run_damaged(in, hist, d) && (d.marks != whole.marks || (d.columns != whole.columns && !narrowing)))
            h::violation("damaged/depends on the cuts", describe(in, hist),
                         std::to_string(d.columns) + " columns, " + std::to_string(d.marks) + " invalid; in one call " + std::to_string(whole.columns) + ", " + std::to_string(whole.marks));
    }
}

/// Whole-line behaviour: at each limit stop the call has taken what one call over the remaining text takes.
void pieces(h::Rng& r, std::vector<u32> const& parts, std::string const& controls)
{
    size_t n = parts.size() - 1;
    for (auto& p: parts)
        n += ref::to8(p).size();
    std::vector<size_t> whole { n }, bytes, rnd;
    for (size_t i = 1; i <= n; ++i)
        bytes.push_back(i);
    for (size_t i = 0; i < n;)
    {
        i = std::min(n, i + 1 + r.below(r.chance(1, 3) ? 30 : 5));
        rnd.push_back(i);
    }
    size_t const inf = 1u << 20;
    run(parts, controls, { whole, { inf } });
    run(parts, controls, { bytes, { inf } });
    run(parts, controls, { rnd, { inf } });
    run(parts, controls, { whole, { 1 + r.below(6) } });
    run(parts, controls, { whole, { 1 + r.below(6), r.below(4), 1 + r.below(12) } });
    run(parts, controls, { bytes, { 1 + r.below(3) } });
    run(parts, controls, { rnd, { 1 + r.below(6), r.below(4), 1 + r.below(12) } });
    if (n <= 16)
        for (size_t i = 1; i < n; ++i)
            run(parts, controls, { { i, n }, { inf } });
}
std::string gen_controls(h::Rng& r, size_t n)
{
    std::string s;
    while (s.size() < n)
        s += r.chance(1, 2) ? char(r.below(0x20)) : char(0x80 + r.below(0x20));
    return s;
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 18, uint64_t(h::g.shard));
    h::shard_loop(ref::graphemeTests.size(), [&](uint64_t i) {
        u32 s;
        for (auto c: ref::graphemeTests[i].text)
            if (c >= 0x20 && ref::scalar(c))
                s += c;
        pieces(r, { s }, "");
        pieces(r, { U"ab" + s + U"c", s }, "\n");
    });
    h::shard_loop(ref::emojiSeqs.size(), [&](uint64_t i) {
        pieces(r, { ref::emojiSeqs[i].second }, "");
        if (h::g.thorough || i % 4 == 0)
            pieces(r, { U"x" + ref::emojiSeqs[i].second + U"y", ref::emojiSeqs[(i * 7 + 1) % ref::emojiSeqs.size()].second }, "\x9B");
    });
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
            if (c >= 0x20 && ref::scalar(c) && (c < 0x1000 || (ref::GCB(c) != ref::gcb::Other_ && !ref::hangul_s(c)) || c % (h::g.thorough ? 4 : 256) == 0))
            {
                pieces(r, { { U'a', c, 0x4E00, c, 0x301 } }, "");
                h::count("characters in context");
            }
    });
    // texts of two equal halves around every control: nothing of the first half may leak into the second
    h::shard_loop(64, [&](uint64_t i) {
        char ctl = char(i < 32 ? i : 0x80 + i - 32);
        for (auto const& s: { u32(U"e\u0301"), u32(U"\U0001F1E9"), u32(U"\u0915\u094D"), u32(U"\U0001F469\u200D"), u32(U"abc"), u32(U"\u0600"), u32(U"\u1100"), u32(U"\u2764\uFE0F") })
            for (auto const& t: { u32(U"\u0301x"), u32(U"\U0001F1EA\U0001F1EB"), u32(U"\u0937"), u32(U"\U0001F4BB"), u32(U"z"), u32(U"\uFE0F"), u32(U"\u1161"), u32(U"\u0903") })
            {
                pieces(r, { s, t }, std::string(1, ctl));
                h::count("texts around a control");
            }
    });
    h::shard_loop(h::tier(16000, 500000), [&](uint64_t) {
        std::vector<u32> parts;
        for (uint32_t n = r.chance(1, 2) ? 1 : 1 + r.below(4); n-- > 0;)
            parts.push_back(sm::gen_text(r, 8));
        pieces(r, parts, gen_controls(r, parts.size() - 1));
    });
    h::shard_loop(h::tier(40000, 1500000), [&](uint64_t) { damaged(r, mal::gen(r)); });
    static unsigned char const B[] = { 0x1B, 0x41, 0x80, 0xA0, 0xBF, 0xC2, 0xCC, 0xE0, 0xE4, 0xED, 0xF0, 0xF4, 0xFF };
    uint64_t const nb = sizeof B;
    int const L = h::g.thorough ? 5 : 4;
    for (int len = 2; len <= L; ++len)
    {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i)
            n *= nb;
        h::shard_loop(n, [&](uint64_t i) {
            std::string s;
            for (int j = 0; j < len; ++j, i /= nb)
                s += char(B[i % nb]);
            damaged(r, s);
            h::count("short byte strings");
        });
    }
    ref::long_texts(r, [&](u32 s) {
        s.erase(std::remove_if(s.begin(), s.end(), [](char32_t c) { return c < 0x20 || !ref::scalar(c); }), s.end());
        pieces(r, { s }, "");
    });
    ref::huge_texts([&](u32 const& s) {
        size_t const n = ref::to8(s).size();
        run({ s, U"e\u0301" }, "\n", { { n + 4 }, { 1u << 20 } });
        run({ s, U"e\u0301" }, "\n", { { n / 3 + 1, n / 2 + 1, n + 4 }, { 1u << 20 } });
        run({ s, U"e\u0301" }, "\n", { { n + 4 }, { 8192 } });
    });
    ref::far_texts(
        r,
        [&](u32 const& s) {
            size_t const n = ref::to8(s).size();
            auto const cut = 1 + r.below(uint32_t(n));
            run({ s, U"e\u0301" }, "\n", { { cut, n + 4 }, { r.chance(1, 2) ? size_t(1) << 32 : size_t(-1) } });
            run({ s, U"e\u0301" }, "\n", { { n / 3 + 1, n - std::min<size_t>(n - 1, r.below(9)), n + 4 }, { 1u << 20 } });
        },
        3);
    h::sample("random text", h::hex(sm::gen_text(r, 10)));
    return 0;
}
