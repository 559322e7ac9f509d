/* Generated from the installed GLib and C library (C locale) */
#include <glib.h>
#include <ctype.h>
static const guint16 vf_ascii_table[256] = {
0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x104,0x104,0x4,0x104,0x104,0x4,0x4,
0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,0x4,
0x140,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,
0x459,0x459,0x459,0x459,0x459,0x459,0x459,0x459,0x459,0x459,0xd0,0xd0,0xd0,0xd0,0xd0,0xd0,
0xd0,0x653,0x653,0x653,0x653,0x653,0x653,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,
0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0x253,0xd0,0xd0,0xd0,0xd0,0xd0,
0xd0,0x473,0x473,0x473,0x473,0x473,0x473,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,
0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0x73,0xd0,0xd0,0xd0,0xd0,0x4,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
};
const guint16* const g_ascii_table = vf_ascii_table;
static const unsigned short vf_ctype_b[384] = {
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2003,0x2002,0x2002,0x2002,0x2002,0x2,0x2,
0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,0x2,
0x6001,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,
0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xd808,0xc004,0xc004,0xc004,0xc004,0xc004,0xc004,
0xc004,0xd508,0xd508,0xd508,0xd508,0xd508,0xd508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,
0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc508,0xc004,0xc004,0xc004,0xc004,0xc004,
0xc004,0xd608,0xd608,0xd608,0xd608,0xd608,0xd608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,
0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc608,0xc004,0xc004,0xc004,0xc004,0x2,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,0x0,
};
static const unsigned short* vf_ctype_b_ptr = vf_ctype_b + 128;
const unsigned short** __ctype_b_loc(void) { return &vf_ctype_b_ptr; }

#undef isprint
#undef isspace
#undef isdigit
#undef isxdigit
#undef isalpha
#undef isalnum
#undef isupper
#undef islower
#undef ispunct
#undef isgraph
#undef iscntrl
#undef isblank
#undef tolower
#undef toupper
int isprint(int c) { return c >= 0x20 && c < 0x7f; }
int isgraph(int c) { return c > 0x20 && c < 0x7f; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isblank(int c) { return c == ' ' || c == '\t'; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) { return (c >= 0 && c < 0x20) || c == 0x7f; }
int tolower(int c) { return isupper(c) ? (c + 32) : c; }
int toupper(int c) { return islower(c) ? (c - 32) : c; }
gchar g_ascii_tolower(gchar c) { return (c >= 'A' && c <= 'Z') ? (c + 32) : c; }
gchar g_ascii_toupper(gchar c) { return (c >= 'a' && c <= 'z') ? (c - 32) : c; }
gint g_ascii_digit_value(gchar c) { return (c >= '0' && c <= '9') ? (c - '0') : -1; }
gint g_ascii_xdigit_value(gchar c)
{
    return (c >= '0' && c <= '9') ? (c - '0') :
        (c >= 'a' && c <= 'f') ? (c - 'a' + 10) :
        (c >= 'A' && c <= 'F') ? (c - 'A' + 10) : -1;
}
