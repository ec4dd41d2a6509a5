// P17: a call of scan_text() never exceeds its limit, accounts exactly for what it consumed, and stops only where it must.
#include "scan_model.hpp"

using namespace unicode;
using ref::u32;
namespace
{
struct Result
{
    size_t count, start, end, next;
    bool incomplete;
};
Result run(h::exact<char> const& e, size_t max, sm::Recorder* rec, std::string const& in)
{
    h::fresh<scan_state> stFresh;
    auto& st = *stFresh;
    auto const r = rec ? scan_text(st, e.view(), max, *rec) : scan_text(st, e.view(), max);
    auto off = [&](char const* p) -> size_t {
        if (p < e.data() || p > e.data() + e.size())
        {
            h::violation("pointers", in, "a returned pointer is outside the text, limit " + std::to_string(max));
            return 0;
        }
        return size_t(p - e.data());
    };
    return { r.count, off(r.start), off(r.end), e.size() ? off(st.next) : 0, st.utf8.expectedLength != 0 };
}
std::string str(Result const& r)
{
    return "count " + std::to_string(r.count) + " [" + std::to_string(r.start) + "," + std::to_string(r.end) + ") next " + std::to_string(r.next);
}

/// text: well-formed, no controls; followed by `tail` (empty, or bytes starting with a control).
void well_formed(u32 const& text, std::string const& tail, size_t max)
{
    auto const body = ref::to8(text);
    auto const in = body + tail;
    h::mark("scan", in);
    h::exact<char> e(in);
    auto const where = h::hex(in) + " limit " + std::to_string(max);
    auto const us = sm::units(text);
    sm::Recorder rec;
    rec.base = e.data();
    rec.size = e.size();
    auto const r = run(e, max, &rec, h::hex(in));
    auto const q = run(e, max, nullptr, h::hex(in));
    auto bad = [&](char const* k, std::string const& d) { h::violation(k, where, str(r) + ": " + d); };
    if (q.count != r.count || q.start != r.start || q.end != r.end || q.next != r.next)
        bad("with and without receiver", str(q));
    h::count("calls judged");
    if (r.count > max)
        bad("limit exceeded", "");
    if (r.start != 0)
        bad("start", "is not the beginning of the text");
    if (r.end > body.size())
    {
        bad("control passed", "the control is at " + std::to_string(body.size()));
        return;
    }
    if (r.end != r.next)
        bad("next", "differs from end although nothing is incomplete");
    if (r.incomplete)
        bad("incomplete", "state says so for complete text");
    // Where does the consumed part end?
    size_t columns = 0, i = 0;
    while (i < us.size() && us[i].to <= r.end)
        columns += us[i++].width();
    if (i < us.size() && us[i].from < r.end)
    { // inside a unit
        auto const& u = us[i];
        auto it = std::find(u.at.begin(), u.at.end(), r.end);
        if (it == u.at.end())
        {
            bad("ends inside a character", "");
            return;
        }
        columns += u.w[size_t(it - u.at.begin())];
        // An ASCII base has gone ahead; what continues it may be put back when it does not fit.
        if (r.count != max && !(r.end == u.at[0] && u.text[0] < 0x80 && r.count - 1 + u.peak() > max))
            bad("ends inside a cluster", "although the limit is not reached");
        h::count("ended inside a cluster, limit reached");
    }
    else if (i < us.size())
    { // before a unit: it must not have fitted
        if (r.count != max && r.count + us[i].peak() <= max)
            bad("stopped early", "the next cluster, " + h::hex(us[i].text) + " of width " + std::to_string(us[i].width()) + ", fits");
        h::count("ended at a cluster, limit reached");
    }
    else
        h::count(tail.empty() ? "ended at the end" : "ended at a control");
    if (columns != r.count)
        bad("count", "the consumed text is " + std::to_string(columns) + " columns wide");
    // The receiver: exactly the consumed bytes, once, in order.
    size_t pos = 0;
    for (auto const& ev: rec.log)
    {
        if (ev.kind == sm::Event::Invalid)
            bad("receiver/invalid", sm::show(rec.log));
        else if (ev.from != pos || ev.to <= ev.from)
            bad("receiver/order", sm::show(rec.log));
        pos = ev.to;
        if (ev.kind == sm::Event::Ascii)
        {
            for (size_t k = ev.from; k < ev.to && k < in.size(); ++k)
                if (static_cast<unsigned char>(in[k]) >= 0x80)
                    bad("receiver/ascii", sm::show(rec.log));
        }
        else
        {
            auto u = std::lower_bound(us.begin(), us.end(), ev.from, [](auto& x, size_t at) { return x.to <= at; });
            if (u == us.end() || ev.from < u->from)
            {
                bad("receiver/cluster", sm::show(rec.log));
                continue;
            }
            // A cluster is handed over whole; only an ASCII base has gone ahead of it.
            bool const base = u->text[0] < 0x80;
            if (ev.from != (base ? u->at[0] : u->from) || (ev.to != u->to && !(ev.to == r.end && r.count == max)))
                bad("receiver/cluster extent", sm::show(rec.log));
            else if (ev.to == u->to && ev.columns != u->width())
                bad("receiver/columns", sm::show(rec.log) + "want " + std::to_string(u->width()));
        }
        h::count("receiver events checked");
    }
    if (pos != r.end || rec.outside)
        bad("receiver/coverage", sm::show(rec.log));
    h::seen("distinct receiver logs", h::hash_bytes(rec.log.data(), rec.log.size() * sizeof(sm::Event)));
    if (us.size() > 1)
    {
        h::g.nontrivial++;
        h::seen("distinct (text, limit)", h::hash_str(in) ^ h::mix(max));
    }
}

/// The same of every call that continues a text begun by earlier ones: cuts fall anywhere, inside of characters and of clusters.
void continued(u32 const& text, std::vector<size_t> const& cuts, std::vector<size_t> const& limits)
{
    auto const in = ref::to8(text);
    h::mark("continued scan", in);
    h::exact<char> e(in);
    auto const us = sm::units(text);
    // columns of the text up to each position between two characters, and how much the open cluster grows or shrinks from there
    struct At
    {
        size_t columns = 0, growth = 0, shrink = 0;
        bool boundary = false, inside = false;
    };
    std::vector<At> at(in.size() + 1);
    size_t columns = 0;
    for (size_t i = 0; i < us.size(); ++i)
    {
        auto const& u = us[i];
        at[u.from].boundary = true;
        at[u.from].growth = u.peak();
        for (size_t k = 0; k < u.at.size(); ++k)
        {
            auto& a = at[u.at[k]];
            a.columns = columns + u.w[k];
            a.boundary = true;
            a.inside = k + 1 < u.at.size();
            a.growth = a.shrink = 0;
            for (size_t j = k + 1; j < u.w.size(); ++j)
            {
                a.growth = std::max(a.growth, u.w[j] > u.w[k] ? u.w[j] - u.w[k] : 0);
                if (u.w[j] < u.w[j - 1])
                    a.shrink += u.w[j - 1] - u.w[j];
            }
        }
        columns += u.width();
    }
    h::fresh<scan_state> stFresh;
    auto& st = *stFresh;
    size_t pos = 0, done = 0, chunk = 0, call = 0, stuck = 0, calls = 0;
    while (pos < in.size() && ++calls < 20 * in.size() + 100)
    {
        while (chunk < cuts.size() && cuts[chunk] <= pos)
            ++chunk;
        auto const end = chunk < cuts.size() ? cuts[chunk] : in.size();
        auto const max = stuck ? stuck * 8 : limits[call++ % limits.size()];
        auto const r = scan_text(st, e.view().substr(pos, end - pos), max);
        auto bad = [&](char const* k, std::string const& d) {
            h::violation(k, h::hex(in) + " chunks " + h::list(cuts) + " limits " + h::list(limits) + " call at " + std::to_string(pos) + " limit " + std::to_string(max),
                         "count " + std::to_string(r.count) + " [" + std::to_string(r.start - e.data()) + "," + std::to_string(r.end - e.data()) + "): " + d);
        };
        h::count("continued calls judged");
        if (r.count > max)
            return bad("continued/limit exceeded", "");
        if (r.start < e.data() || r.end > e.data() + end || st.next < e.data() + pos || st.next > e.data() + end || r.end > st.next)
            return bad("continued/range", "");
        size_t const from = size_t(r.start - e.data()), to = size_t(r.end - e.data()), next = size_t(st.next - e.data());
        if (from != done)
            return bad("continued/start", "the call before it ended at " + std::to_string(done));
        if (to < from || !at[to].boundary)
            return bad("continued/end", "is not between two characters");
        if (to != next && ((next != end && next != pos) || st.utf8.expectedLength == 0))
            return bad("continued/next", std::to_string(next));
        size_t const want = at[to].columns > at[done].columns ? at[to].columns - at[done].columns : 0;
        // a cluster that an earlier call reported can be narrowed, but columns of that call cannot be taken back
        if (r.count < want || r.count > want + at[done].shrink)
            return bad("continued/count", "the consumed text is " + std::to_string(want) + " columns wide");
        if (next < end && r.count != max && r.count + at[to].growth <= max)
            return bad("continued/stopped early", "what follows would fit");
        if (at[done].inside)
            h::count("calls that continue a cluster");
        stuck = next == pos ? stuck + 1 : 0;
        pos = next;
        done = to;
    }
    if (pos < in.size())
        h::violation("continued/no progress", h::hex(in), "at " + std::to_string(pos));
    h::g.nontrivial += calls > 1;
}
void continued(h::Rng& r, u32 const& text)
{
    size_t const n = ref::to8(text).size(), inf = 1u << 20;
    std::vector<size_t> bytes, rnd;
    for (size_t i = 1; i <= n; ++i)
        bytes.push_back(i);
    for (size_t i = 0; i < n;)
        rnd.push_back(i = std::min(n, i + 1 + r.below(r.chance(1, 3) ? 30 : 5)));
    continued(text, bytes, { inf });
    continued(text, rnd, { inf });
    continued(text, rnd, { 1 + r.below(6), r.below(4), 1 + r.below(12) });
    continued(text, { n }, { 1 + r.below(6), r.below(4), 1 + r.below(12) });
    if (n <= 12)
        for (size_t i = 1; i < n; ++i)
            for (size_t m: { inf, size_t(2) })
                continued(text, { i, n }, { m });
}

/// Anything at all.
void anything(std::string const& in, size_t max)
{
    h::mark("scan damaged", in);
    h::exact<char> e(in);
    auto const where = h::hex(in) + " limit " + std::to_string(max);
    sm::Recorder rec;
    rec.base = e.data();
    rec.size = e.size();
    auto const r = run(e, max, &rec, h::hex(in));
    auto bad = [&](char const* k, std::string const& d) { h::violation(k, where, str(r) + ": " + d + " " + sm::show(rec.log)); };
    h::count("damaged calls judged");
    if (r.count > max)
        bad("damaged/limit exceeded", "");
    if (r.start != 0 || r.end > r.next)
        bad("damaged/extent", "");
    if (r.next - r.end > 3 || (r.next != r.end && !r.incomplete))
        bad("damaged/next", "");
    auto const toks = mal::tokenize(in);
    std::vector<int> kind(in.size() + 1, -1);          // token kind per byte
    std::vector<char> begins(in.size() + 1, 0);
    size_t p = 0;
    std::vector<size_t> starts;
    for (auto& t: toks)
    {
        size_t n = t.kind == mal::Tok::W ? ref::to8(u32(1, t.c)).size() : t.n;
        begins[p] = 1;
        starts.push_back(p);
        for (size_t k = 0; k < n; ++k)
            kind[p + k] = t.kind;
        p += n;
    }
    begins[in.size()] = 1;
    // No control has been passed: neither C0, nor a C1 byte right behind a complete character.
    size_t stop = in.size();
    for (size_t i = 0; i < in.size(); ++i)
        if (sm::c0(in[i]) || (sm::c1(in[i]) && begins[i] && (i == 0 || (kind[i - 1] == mal::Tok::W))))
        {
            stop = i;
            break;
        }
    if (r.next > stop)
        bad("damaged/control passed", "the control is at " + std::to_string(stop));
    // Stopped for a reason: the end, a control, or no room for what follows.
    if (r.next < in.size() && !sm::c0(in[r.next]) && !(sm::c1(in[r.next]) && kind[r.next] != mal::Tok::W))
    {
        size_t room = max - r.count;
        if (room >= 8 && in.size() < 64)
        {
            // only a cluster of at least `room` columns could justify this
            std::string rest = in.substr(r.next);
            u32 w;
            for (size_t i = 0; i < toks.size(); ++i)
                if (starts[i] >= r.next && toks[i].kind == mal::Tok::W)
                    w += toks[i].c;
            size_t widest = 0;
            auto b = ref::grapheme_bounds(w);
            for (size_t i = 0; i + 1 < b.size(); ++i)
                widest = std::max<size_t>(widest, ref::cluster_width(w.substr(b[i], b[i + 1] - b[i])));
            if (widest < room)
                bad("damaged/stopped early", "");
        }
    }
    // The receiver gets every complete character of the consumed part, once and in order; gaps are malformed bytes, and each gap is marked.
    size_t pos = 0, marks = 0, malformed = 0;
    for (size_t i = 0; i < r.next; ++i)
        malformed += kind[i] != mal::Tok::W;
    for (auto const& ev: rec.log)
    {
        h::count("receiver events checked");
        if (ev.kind == sm::Event::Invalid)
        {
            ++marks;
            continue;
        }
        if (ev.from < pos || ev.to < ev.from)
        {
            bad("damaged/receiver order", "");
            return;
        }
        for (size_t k = pos; k < ev.from; ++k)
            if (kind[k] == mal::Tok::W)
                bad("damaged/character not delivered", "byte " + std::to_string(k));
        pos = ev.to;
    }
    for (size_t k = pos; k < r.end; ++k)
        if (kind[k] == mal::Tok::W)
            bad("damaged/character not delivered", "byte " + std::to_string(k));
    if (pos > r.next || rec.outside)
        bad("damaged/receiver beyond", "");
    if (marks > malformed)
        bad("damaged/marks", std::to_string(marks) + " invalid markers for " + std::to_string(malformed) + " malformed bytes");
    // a maximal malformed stretch between complete characters that has been consumed is marked at least once
    size_t stretches = 0;
    for (size_t i = 0; i < r.end; ++i)
        if (kind[i] == mal::Tok::M && (i == 0 || kind[i - 1] == mal::Tok::W))
        {
            size_t j = i;
            while (j < in.size() && kind[j] == mal::Tok::M)
                ++j;
            if (j < r.end && kind[j] == mal::Tok::W)
                ++stretches;
        }
    if (marks < stretches)
        bad("damaged/marks", std::to_string(marks) + " invalid markers for " + std::to_string(stretches) + " malformed stretches");
    h::count("invalid markers seen", marks);
    if (!mal::well_formed(toks))
    {
        h::g.nontrivial++;
        h::seen("distinct damaged (text, limit)", h::hash_str(in) ^ h::mix(max));
    }
}
} // namespace

int run_harness()
{
    ref::load();
    ref::pools();
    h::Rng r(h::g.seed, 17, uint64_t(h::g.shard));
    auto limits = [&](u32 const& s, std::string const& tail) {
        auto const w = sm::total(sm::units(s));
        if (w <= 12)
            for (size_t m = 0; m <= w + 2; ++m)
                well_formed(s, tail, m);
        else
        {
            for (int i = 0; i < 4; ++i)
                well_formed(s, tail, r.below(uint32_t(w + 3)));
            well_formed(s, tail, w);
            well_formed(s, tail, w - 1);
        }
        // limits that are large, of which nothing remains when they are cut to fewer bits, or that leave no room to add to
        static size_t const large[] = { size_t(-1) >> 1, size_t(1) << 32, size_t(-1), (size_t(1) << 31) - 1, size_t(1) << 31, (size_t(1) << 32) - 1, (size_t(3) << 32) + 1, 65536, size_t(-2), size_t(1) << 63 };
        well_formed(s, tail, large[0]);
        static unsigned turn = 0;
        auto const m = large[++turn % (sizeof large / sizeof *large)];
        if (m > w)
            well_formed(s, tail, m);
    };
    std::vector<std::string> const tails = { "", "\n", std::string(1, '\0'), "\x1B[m", "\x80", "\x9B" "1m", "\x9F", "\x1F" "abc", "\x85" };
    limits({}, "");
    for (auto& t: tails)
        limits({}, t);
    h::shard_loop(ref::graphemeTests.size(), [&](uint64_t i) {
        u32 s;
        for (auto c: ref::graphemeTests[i].text)
            if (c >= 0x20 && ref::scalar(c))
                s += c;
        for (auto& t: tails)
            limits(s, t);
        continued(r, s);
    });
    h::shard_loop(ref::emojiSeqs.size(), [&](uint64_t i) {
        limits(ref::emojiSeqs[i].second, tails[i % tails.size()]);
        continued(r, ref::emojiSeqs[i].second);
        limits(U"a" + ref::emojiSeqs[i].second + U"b" + ref::emojiSeqs[(i * 7 + 3) % ref::emojiSeqs.size()].second, tails[i % tails.size()]);
    });
    h::shard_loop(0x1100, [&](uint64_t b) {
        for (char32_t c = char32_t(b * 256); c < (b + 1) * 256; ++c)
            if (c >= 0x20 && ref::scalar(c) && (c < 0x3000 || ref::cp_width(c) != 1 || h::g.thorough || c % 32 == 0))
            {
                for (size_t m: { 0, 1, 2, 3 })
                {
                    well_formed({ c }, "", m);
                    well_formed({ U'a', c, U'b' }, "\n", m);
                    well_formed({ 0x4E00, c, 0x301 }, "\x9B", m);
                }
                continued({ c, 0xFE0E, c, 0xFE0F, 0x301 }, { ref::to8(u32(1, c)).size() }, { 1u << 20 });
                h::count("characters in context");
            }
    });
    h::shard_loop(h::tier(30000, 900000), [&](uint64_t) { continued(r, sm::gen_text(r, 10)); });
    // every control at every position of ASCII and non-ASCII text
    h::shard_loop(70, [&](uint64_t n) {
        for (int ctl = 0; ctl < 0xA0; ctl = ctl == 0x1F ? 0x80 : ctl + 1)
        {
            u32 a(n, U'x'), z(n, char32_t(0xE9)), m;
            for (size_t i = 0; i < n; ++i)
                m += i % 3 ? U'q' : U'\u4E00';
            for (auto const& s: { a, z, m })
            {
                well_formed(s, std::string(1, char(ctl)) + "tail", 1000);
                well_formed(s, std::string(1, char(ctl)) + "tail", n);
            }
            h::count("control positions", 3);
        }
    });
    h::shard_loop(h::tier(30000, 900000), [&](uint64_t) { limits(sm::gen_text(r, 10), tails[r.chance(1, 2) ? 0 : r.below(uint32_t(tails.size()))]); });
    h::shard_loop(h::tier(80000, 2500000), [&](uint64_t) {
        auto in = mal::gen(r);
        if (r.chance(1, 2))
            for (auto& c: in)
                if (sm::c0(c))
                    c = 'z';
        anything(in, r.chance(1, 2) ? 1u << 20 : r.below(uint32_t(in.size() + 2)));
    });
    // all short byte strings over the interesting bytes
    static unsigned char const B[] = { 0x00, 0x1B, 0x20, 0x41, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xCC, 0xDF, 0xE0, 0xE4, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF };
    uint64_t const nb = sizeof B;
    int const L = h::g.thorough ? 5 : 4;
    for (int len = 1; len <= L; ++len)
    {
        uint64_t n = 1;
        for (int i = 0; i < len; ++i)
            n *= nb;
        h::shard_loop(n, [&](uint64_t i) {
            std::string s;
            for (int j = 0; j < len; ++j, i /= nb)
                s += char(B[i % nb]);
            anything(s, 1000);
            anything(s, i % 3);
            h::count("short byte strings");
        });
    }
    ref::long_texts(r, [&](u32 s) {
        s.erase(std::remove_if(s.begin(), s.end(), [](char32_t c) { return c < 0x20 || !ref::scalar(c); }), s.end());
        limits(s, tails[r.below(uint32_t(tails.size()))]);
        continued(r, s);
    });
    ref::far_texts(
        r,
        [&](u32 const& s) {
            auto const w = sm::total(sm::units(s));
            for (size_t m: { w, w / 2, size_t(-1) >> 1 })
                well_formed(s, "", m);
        },
        3);
    ref::huge_texts([&](u32 const& s) {
        auto const w = sm::total(sm::units(s));
        for (size_t m: { w, w - 1, w / 2, size_t(-1) >> 1 })
            well_formed(s, "\n", m);
    });
    h::sample("random text", h::hex(sm::gen_text(r, 10)));
    return 0;
}
