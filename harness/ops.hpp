// A table of operations that spans the library: each runs one group of interfaces over a text and returns a digest of all results.
// Digests are the same in every build and process, so they can be compared across threads, times of a program's life and builds.
#pragma once
#include "malformed.hpp"
#include <libunicode/capi.h>
#include <libunicode/case_mapping.h>
#include <libunicode/codepoint_properties.h>
#include <libunicode/convert.h>
#include <libunicode/emoji_segmenter.h>
#include <libunicode/grapheme_segmenter.h>
#include <libunicode/normalization.h>
#include <libunicode/run_segmenter.h>
#include <libunicode/scan.h>
#include <libunicode/script_segmenter.h>
#include <libunicode/ucd.h>
#include <libunicode/ucd_fmt.h>
#include <libunicode/ucd_ostream.h>
#include <libunicode/utf8.h>
#include <libunicode/utf8_grapheme_segmenter.h>
#include <libunicode/width.h>
#include <libunicode/word_segmenter.h>
#include <sstream>


namespace ops
{
using namespace unicode;
using ref::u32;

struct Digest
{
    uint64_t v = 0x1234;
    Digest& operator<<(uint64_t x)
    {
        v = h::mix(v ^ x);
        return *this;
    }
    template <typename T>
    Digest& str(std::basic_string_view<T> s)
    {
        *this << s.size();
        for (auto c: s)
            *this << uint64_t(std::make_unsigned_t<std::conditional_t<sizeof(T) == 1, char, std::conditional_t<sizeof(T) == 2, int16_t, int32_t>>>(c));
        return *this;
    }
    template <typename T>
    Digest& str(std::basic_string<T> const& s)
    {
        return str(std::basic_string_view<T>(s));
    }
};
struct Text // shared by all threads, read only
{
    u32 t;
    std::string b;
    std::u16string w;
    std::string damaged;
};
struct Log final: grapheme_cluster_receiver
{
    Digest d;
    void receiveAsciiSequence(std::string_view v) noexcept override { d.str(v); }
    void receiveGraphemeCluster(std::string_view v, size_t c) noexcept override { (d << c).str(v); }
    void receiveInvalidGraphemeCluster() noexcept override { d << 99; }
};

using Op = uint64_t (*)(Text const&);
struct Named
{
    char const* name;
    Op op;
};
Named const table[] = {
    { "properties",
      [](Text const& x) {
          Digest d;
          for (auto c: x.t)
          {
              auto p = codepoint_properties::get(c);
              d << uint64_t(p.script) << uint64_t(p.flags) << uint64_t(p.char_width) << uint64_t(p.grapheme_cluster_break) << uint64_t(p.general_category)
                << uint64_t(p.age) << uint64_t(p.east_asian_width) << uint64_t(p.emoji_segmentation_category);
          }
          return d.v;
      } },
    { "names",
      [](Text const& x) {
          Digest d;
          for (auto c: x.t)
              d.str(std::string_view(codepoint_properties::name(c)));
          return d.v;
      } },
    { "queries",
      [](Text const& x) {
          Digest d;
          for (auto c: x.t)
          {
              d << uint64_t(script(c)) << uint64_t(block(c)) << uint64_t(plane(c)) << uint64_t(general_category::get(c)) << uint64_t(is_emoji(c))
                << uint64_t(is_extended_pictographic(c)) << uint64_t(east_asian_width(c)) << uint64_t(width(c)) << uint64_t(is_mirrored(c))
                << uint64_t(contains(Core_Property::Alphabetic, c)) << uint64_t(contains(Core_Property::Grapheme_Base, c)) << bidi_mirroring_glyph(c);
              if (auto e = script_extensions(c))
                  for (auto s: *e)
                      d << uint64_t(s);
          }
          return d.v;
      } },
    { "printing",
      [](Text const& x) {
          Digest d;
          for (size_t i = 0; i < x.t.size() && i < 4; ++i)
          {
              auto p = codepoint_properties::get(x.t[i]);
              std::ostringstream os;
              os << p.script << p.general_category << p.age << p.grapheme_cluster_break << block(x.t[i]);
              d.str(os.str()).str(std::format("{:>20}{}{}", p.script, p.general_category, p.east_asian_width));
          }
          return d.v;
      } },
    { "convert",
      [](Text const& x) {
          Digest d;
          d.str(convert_to<char>(std::u32string_view(x.t))).str(convert_to<char32_t>(std::string_view(x.b))).str(convert_to<char16_t>(std::string_view(x.b)));
          d.str(convert_to<char>(std::u16string_view(x.w))).str(convert_to<char32_t>(std::string_view(x.damaged))).str(to_utf8(x.t)).str(from_utf8(x.b));
          return d.v;
      } },
    { "decode bytewise",
      [](Text const& x) {
          Digest d;
          h::fresh<utf8_decoder_state> stFresh;
          auto& st = *stFresh;
          h::fresh<decoder<char>> decFresh;
          auto& dec = *decFresh;
          for (auto c: x.damaged)
          {
              auto r = from_utf8(st, uint8_t(c));
              if (auto* ok = std::get_if<Success>(&r))
                  d << ok->value;
              else
                  d << r.index();
              if (auto y = dec(uint8_t(c)))
                  d << *y;
          }
          return d.v;
      } },
    { "grapheme",
      [](Text const& x) {
          Digest d;
          grapheme_segmenter s(x.t);
          for (size_t n = 0; n <= x.t.size() && !(*s).empty(); ++n, ++s)
              d << (*s).size();
          for (size_t i = 1; i < x.t.size(); ++i)
              d << u32_grapheme_unbreakable(x.t[i - 1], x.t[i]);
          return d.v;
      } },
    { "utf8 grapheme",
      [](Text const& x) {
          Digest d;
          for (auto const& c: utf8_grapheme_segmenter(x.b))
              d.str(c);
          return d.v;
      } },
    { "word",
      [](Text const& x) {
          Digest d;
          word_segmenter s(x.t);
          for (size_t n = 0; n <= x.t.size() && !(*s).empty(); ++n, ++s)
              d << (*s).size();
          return d.v;
      } },
    { "scan",
      [](Text const& x) {
          Digest d;
          for (auto const* in: { &x.b, &x.damaged })
          {
              h::fresh<scan_state> aFresh;
              auto& a = *aFresh;
              a.next = in->data();
              auto r = scan_text(a, *in, 1000);
              d << r.count << size_t(r.end - r.start);
              h::fresh<scan_state> bFresh;
              auto& b = *bFresh;
              b.next = in->data();
              Log log;
              auto q = scan_text(b, *in, 7, log);
              d << q.count << size_t(q.end - q.start) << log.d.v;
          }
          return d.v;
      } },
    { "scan parts",
      [](Text const& x) {
          Digest d;
          h::fresh<scan_state> wholeFresh;
          auto& whole = *wholeFresh;
          whole.next = x.b.data();
          d << scan_text(whole, x.b, 500, null_receiver::get()).count;
          h::fresh<scan_state> aFresh;
          auto& a = *aFresh;
          for (size_t i = 0; i < x.b.size(); i += 3)
          {
              auto part = std::string_view(x.b).substr(i, 3);
              a.next = part.data();
              auto r = scan_text(a, part, 100, null_receiver::get());
              d << r.count;
          }
          return d.v;
      } },
    { "width",
      [](Text const& x) {
          Digest d;
          d << grapheme_cluster_width(x.t) << grapheme_cluster_width(std::string_view(x.b)) << grapheme_cluster_width(std::string_view(x.damaged));
          h::fresh<grapheme_cluster_width_accumulator> accFresh;
          auto& acc = *accFresh;
          for (size_t i = 0; i < x.t.size(); ++i)
          {
              acc.push(x.t[i]);
              d << acc.width();
              if (i % 7 == 6)
                  acc.reset();
          }
          return d.v;
      } },
    { "convert wide",
      [](Text const& x) {
          Digest d;
          d.str(convert_to<char16_t>(std::u32string_view(x.t))).str(convert_to<char32_t>(std::u16string_view(x.w))).str(convert_to<char>(std::u16string_view(x.w)));
          for (auto c: convert_to<wchar_t>(std::u32string_view(x.t)))
              d << uint32_t(c);
          for (auto c: convert_to<wchar_t>(std::string_view(x.damaged)))
              d << uint32_t(c);
          auto back = from_utf8(std::string_view(x.damaged));
          d.str(back).str(to_utf8(std::u32string_view(back)));
          encoder<char> e {};
          std::string o;
          for (auto c: x.t)
              e(c, std::back_inserter(o));
          d.str(o);
          return d.v;
      } },
    { "normalize",
      [](Text const& x) {
          Digest d;
          d.str(to_nfc(std::u32string_view(x.t))).str(to_nfd(std::u32string_view(x.t))).str(to_nfkc(std::u32string_view(x.t))).str(to_nfkd(std::string_view(x.b)));
          return d.v;
      } },
    { "normalization properties",
      [](Text const& x) {
          Digest d;
          for (auto c: x.t)
          {
              d << canonical_combining_class(c) << uint64_t(decomposition_type(c)) << is_full_composition_exclusion(c) << uint64_t(nfc_quick_check(c))
                << uint64_t(nfkc_quick_check(c)) << nfd_quick_check(c);
              for (auto y: compatibility_decomposition(c))
                  d << y;
              for (auto y: canonical_decomposition(c))
                  d << y;
          }
          d << is_normalized(std::u32string_view(x.t), Normalization_Form::NFC) << uint64_t(quick_check(std::u32string_view(x.t), Normalization_Form::NFKC));
          d << is_canonically_equivalent(std::string_view(x.b), std::string_view(x.b)) << is_compatibility_equivalent(std::u32string_view(x.t), to_nfkd(std::u32string_view(x.t)));
          return d.v;
      } },
    { "normalize streaming",
      [](Text const& x) {
          Digest d;
          normalizer n(Normalization_Form::NFC);
          for (auto c: x.t)
              d.str(n.feed(c));
          d.str(n.flush());
          utf8_normalizer m(Normalization_Form::NFKD);
          for (size_t i = 0; i < x.b.size(); i += 5)
              d.str(m.feed(std::string_view(x.b).substr(i, 5)));
          d.str(m.flush());
          return d.v;
      } },
    { "case",
      [](Text const& x) {
          Digest d;
          d.str(to_uppercase(std::u32string_view(x.t))).str(to_lowercase(std::string_view(x.b))).str(to_titlecase(std::u32string_view(x.t)));
          d.str(casefold(std::u32string_view(x.t))).str(casefold(std::string_view(x.b)));
          for (auto c: x.t)
          {
              auto f = full_casefold(c), u = full_uppercase(c), l = full_lowercase(c), t = full_titlecase(c);
              d.str(f.view()).str(u.view()).str(l.view()).str(t.view());
              d << simple_uppercase(c) << simple_lowercase(c) << simple_titlecase(c) << simple_casefold(c) << is_cased(c) << is_case_ignorable(c)
                << changes_when_titlecased(c);
          }
          return d.v;
      } },
    { "case compare",
      [](Text const& x) {
          Digest d;
          auto up = to_uppercase(std::u32string_view(x.t));
          d << uint64_t(casefold_compare(std::u32string_view(x.t), up) + 2) << casefold_equals(std::string_view(x.b), to_utf8(up));
          return d.v;
      } },
    { "script runs",
      [](Text const& x) {
          Digest d;
          script_segmenter s(x.t);
          size_t n = 0;
          Script sc {};
          for (size_t i = 0; i <= x.t.size() && s.consume(out(n), out(sc)); ++i)
              d << n << uint64_t(sc);
          return d.v;
      } },
    { "emoji runs",
      [](Text const& x) {
          Digest d;
          emoji_segmenter s(x.t);
          size_t n = 0;
          PresentationStyle st {};
          for (size_t i = 0; i <= x.t.size() && s.consume(out(n), out(st)); ++i)
              d << n << uint64_t(st);
          return d.v;
      } },
    { "runs",
      [](Text const& x) {
          Digest d;
          run_segmenter s(x.t);
          run_segmenter::range rg {};
          for (size_t i = 0; i <= x.t.size() && s.consume(out(rg)); ++i)
              d << rg.start << rg.end << uint64_t(std::get<Script>(rg.properties)) << uint64_t(std::get<PresentationStyle>(rg.properties));
          return d.v;
      } },
    { "C API",
      [](Text const& x) {
          Digest d;
          auto const* c = reinterpret_cast<u32_char_t const*>(x.t.data());
          d << u32_gc_count(c, x.t.size()) << u32_gc_width(c, x.t.size(), 1) << u8_gc_count(x.b.data(), x.b.size()) << u8_gc_width(x.b.data(), x.b.size(), 0);
          std::string dst(x.b.size() + 1, 0);
          d << uint64_t(u32u8_convert(c, x.t.size(), dst.data(), dst.size()));
          d.str(dst);
          auto st = u8u32_stream_convert_create();
          for (auto b: x.b)
          {
              u32_char_t o = 0;
              d << uint64_t(u8u32_stream_convert_run(st, b, &o)) << uint64_t(o);
          }
          u8u32_stream_convert_destroy(&st);
          return d.v;
      } },
};
constexpr size_t NOps = sizeof(table) / sizeof(*table);
} // namespace ops
