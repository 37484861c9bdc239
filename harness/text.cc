// P03: character conversion, and the text header of a file that is read
#include "segy.hh"
#include "ExSeisDat/utils/encoding/character_encoding.hh"
using namespace exseis::utils;
#include "cp037.hh"
static bool supported(unsigned a) { return (a < 0x80) & (a != '[') & (a != ']') & (a != '^'); }
static void conv() {
    unsigned char c = sx_any<unsigned char>("c");
    unsigned char e = to_EBCDIC_from_ASCII(c), a = to_ASCII_from_EBCDIC(c);
    unsigned cc = c; unsigned ref = CP037[cc & 127];
    // 0xFF ("eight ones") may be kept as 0xFF
    if (supported(cc)) { sx_assert(e == ref, "ASCII character converts to its EBCDIC code"); sx_assert(to_ASCII_from_EBCDIC(e) == cc, "ASCII to EBCDIC and back"); }
    else if (cc < 0x80) sx_assert(e == 0x3F || (e == ref && to_ASCII_from_EBCDIC(e) == cc), "unsupported ASCII character becomes the substitute");
    else if (cc != 0xFF) { sx_assert(e == 0x3F, "byte outside ASCII becomes the EBCDIC substitute"); sx_cover("high"); }
    else sx_assert(e == 0x3F || e == 0xFF, "0xFF");
    unsigned has = HAS037[cc];
    if (has == 1) { sx_assert(a == INV037[cc], "EBCDIC code converts to its ASCII character"); sx_assert(to_EBCDIC_from_ASCII(a) == cc, "EBCDIC to ASCII and back"); }
    else if (cc != 0xFF) { sx_assert(a == 0x1A || (has == 2 && to_EBCDIC_from_ASCII(a) == cc), "EBCDIC code without a character becomes the substitute"); sx_cover("unmapped"); }
    else sx_assert(a == 0x1A || a == 0xFF || a == 0x9F, "0xFF");
    sx_assert(is_printable_ASCII(cc) == (cc >= 0x20 && cc <= 0x7E), "printable ASCII range");
    sx_assert(is_printable_EBCDIC(cc) == (a >= 0x20 && a <= 0x7E), "printable EBCDIC is what converts to printable ASCII");
    sx_observe("e", e); sx_observe("a", a);
}
static void file(int) {
    FFile* f = rawFile("t.segy", 0, 1);
    bool eb = sx_param("ebcdic", 0);
    const char* msg = "C 1 CLIENT EXSEISDAT  LINE 12 (TEST) *#@+";
    unsigned char want[3200]; memset(want, ' ', 3200); memcpy(want, msg, strlen(msg)); for (int i = 100; i < 300; i++) want[i] = "ABCxyz 0189.,-"[i % 14];
    size_t pos[3] = {0, 1600, 3199};
    size_t at = pos[sx_choose(3, "at")];
    unsigned char s = sx_any<unsigned char>("s"); 
    for (int i = 0; i < 3200; i++) f->data[i] = eb ? CP037[want[i]] : want[i];
    f->data[at] = s;
    auto piol = ExSeis::New();
    ReadDirect file(piol, "t.segy");
    const std::string& t = file.readText();
    sx_assert(t.size() == 3200, "text length");
    unsigned sc = s;
    for (size_t i = 0; i < 3200; i++) if (i != at) sx_assert((unsigned char)t[i] == want[i], "text header is read as the text it encodes");
    if (!eb) sx_assert((unsigned char)t[at] == sc, "ASCII text is returned unchanged");
    else { if (HAS037[sc] != 2 && sc != 0xFF) sx_assert((unsigned char)t[at] == INV037[sc], "EBCDIC text is converted, unmapped codes become the substitute"); }
    sx_observe("at", (unsigned char)t[at]);
    sx_cover("file");
}
extern "C" void harness() { if (sx_param("mode", 0) == 0) conv(); else fm_run(1, file); }
