/* The C API as a C program sees it: must compile as C99, link, and work. */
#include <libunicode/capi.h>
#include <stdio.h>
#include <string.h>

static int bad = 0;
static void expect(char const* what, long got, long want)
{
    if (got != want)
    {
        printf("%s: got %ld want %ld\n", what, got, want);
        bad = 1;
    }
}

int main(void)
{
    static u32_char_t const text[] = { 0x61, 0x301, 0x1F468, 0x200D, 0x1F469, 0x4E00 };
    static char const text8[] = "a\xCC\x81\xF0\x9F\x91\xA8\xE2\x80\x8D\xF0\x9F\x91\xA9\xE4\xB8\x80";
    char out[32];
    size_t i, n = 0;
    u32_char_t back[8];
    u8u32_stream_state_t h;
    memset(out, 0x55, sizeof out);
    expect("u32_gc_count", u32_gc_count(text, 6), 3);
    expect("u8_gc_count", u8_gc_count(text8, strlen(text8)), 3);
    expect("u32_gc_width", u32_gc_width(text, 6, GC_WIDTH_MODE_MODIFIABLE), 5);
    expect("u32_gc_width base", u32_gc_width(text, 6, GC_WIDTH_MODE_NON_MODIFIABLE), 5);
    expect("u8_gc_width", u8_gc_width(text8, strlen(text8), GC_WIDTH_MODE_MODIFIABLE), 5);
    expect("u32_grapheme_unbreakable", u32_grapheme_unbreakable(0x61, 0x301), 1);
    expect("u32_grapheme_unbreakable", u32_grapheme_unbreakable(0x61, 0x62), 0);
    expect("u32u8_convert", u32u8_convert(text, 6, out, sizeof out), (long) strlen(text8));
    expect("u32u8_convert bytes", memcmp(out, text8, strlen(text8)), 0);
    expect("u32u8_convert too small", u32u8_convert(text, 6, out, strlen(text8) - 1), -1);
    h = u8u32_stream_convert_create();
    for (i = 0; text8[i]; ++i)
    {
        u32_char_t c = 0xDEAD;
        if (u8u32_stream_convert_run(h, text8[i], &c))
            back[n++] = c;
        else
            expect("output untouched", (long) c, 0xDEAD);
    }
    expect("stream", (long) n, 6);
    for (i = 0; i < n && i < 6; ++i)
        expect("stream codepoint", (long) back[i], (long) text[i]);
    u8u32_stream_convert_destroy(&h);
    expect("destroyed", h == NULL, 1);
    return bad;
}
