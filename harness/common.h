// Helpers of the harnesses: reference encodings, texts of unknown codepoints.
#pragma once
#include <vp.h>
#include <string>
#include <iterator>
#include <experimental/string_view>
// the standard's shortest encoding, by arithmetic
static inline int ref_len(long v) { return v < 0x80 ? 1 : v < 0x800 ? 2 : v < 0x10000 ? 3 : 4; }
static inline int ref_enc(long v, unsigned char *b) {
  if (v < 0x80) { b[0] = v; return 1; }
  if (v < 0x800) { b[0] = 0xC0 + v / 64; b[1] = 0x80 + v % 64; return 2; }
  if (v < 0x10000) { b[0] = 0xE0 + v / 4096; b[1] = 0x80 + v / 64 % 64; b[2] = 0x80 + v % 64; return 3; }
  b[0] = 0xF0 + v / 262144; b[1] = 0x80 + v / 4096 % 64; b[2] = 0x80 + v / 64 % 64; b[3] = 0x80 + v % 64; return 4;
}
// a text of n codepoints, its UTF-8 in a block of exactly the right size
// (plus `extra` readable octets after it, none of them continuation octets)
template <typename Ch, int MAX = 8> struct text8 {
  Ch *p; int n, len; long cp[MAX]; int off[MAX + 1];
  void make(int count, const char *name = "text", int extra = 0) {
    n = count; unsigned char tmp[MAX * 4]; len = 0;
    for (int i = 0; i < n; i++) { off[i] = len; len += ref_enc(cp[i], tmp + len); }
    off[n] = len;
    p = (Ch *)__vp_buf(name, (long)(len + extra));
    for (int i = 0; i < len; i++) p[i] = (Ch)tmp[i];
    for (int i = 0; i < extra; i++) { int hi = __vp_choose("octet after the text", 2); p[len + i] = (Ch)(hi ? __vp_hidden(0xC0, 0xFF) : __vp_hidden(0, 0x7F)); }
  }
  int of(int octet) const { int i = 0; while (i + 1 < n && off[i + 1] <= octet) i++; return i; } // codepoint holding the octet
};
static const char *const cpname[] = {"codepoint 0", "codepoint 1", "codepoint 2", "codepoint 3", "codepoint 4", "codepoint 5", "codepoint 6", "codepoint 7"};
static inline long any_cp(int i, long lo = 0, long hi = 0x10FFFF) { return __vp_var(cpname[i], lo, hi); }
// codepoints of each break class: whole runs of the database
struct cls_range { int cls; long lo, hi; };
enum { OTHER, PREPEND, CR, LF, CONTROL, EXTEND, RI, SPACING, HL, HV, HT, HLV, HLVT, EBASE, EMOD, ZWJ_, GAZ, EGAZ };
static const cls_range reps[] = {
  {OTHER, 0x30, 0x7E}, {PREPEND, 0x600, 0x605}, {CR, 13, 13}, {LF, 10, 10}, {CONTROL, 0, 9}, {EXTEND, 0x300, 0x36F}, {RI, 0x1F1E6, 0x1F1FF},
  {SPACING, 0x93E, 0x940}, {HL, 0x1100, 0x115F}, {HV, 0x1160, 0x11A7}, {HT, 0x11A8, 0x11FF}, {HLV, 0xAC00, 0xAC00}, {HLVT, 0xAC01, 0xAC1B},
  {EBASE, 0x1F385, 0x1F385}, {EMOD, 0x1F3FB, 0x1F3FF}, {ZWJ_, 0x200D, 0x200D}, {GAZ, 0x2764, 0x2764}, {EGAZ, 0x1F466, 0x1F469},
  // second representatives, of other encoded lengths
  {OTHER, 0x20000, 0x2A6D6}, {OTHER, 0x4E00, 0x9FD5}, {OTHER, 0x3B1, 0x3C9}, {EXTEND, 0xE0100, 0xE01EF}, {EXTEND, 0x20D0, 0x20F0}, {CONTROL, 0x200E, 0x200F}, {PREPEND, 0x110BD, 0x110BD}};
// row a, column b: '1' = boundary between a and b (UAX #29 of Unicode 9.0, GB3-GB13 pairwise)
static const char bmatrix[18][19] = {
  "111110101111111011",
  "001110000000000000",
  "111011111111111111",
  "111111111111111111",
  "111111111111111111",
  "111110101111110011",
  "111110001111111011",
  "111110101111111011",
  "111110100010011011",
  "111110101001111011",
  "111110101101111011",
  "111110101001111011",
  "111110101101111011",
  "111110101111110011",
  "111110101111111011",
  "111110101111111000",
  "111110101111111011",
  "111110101111110011"
};
static inline bool ref_boundary(int a, int b) { return bmatrix[a][b] == '1'; }
// long texts: encoded lengths in patterns
static const int longs[] = {33, 65, 129, 300, 31, 64, 100, 127, 255, 257, 1025};
#ifndef LONGS
#define LONGS 11
#endif
enum { PATTERNED = 9 };
static long patterned_cp(int pat, int i, int n) {
  static const long b[] = {0x40, 0x7F, 0x400, 0x7FF, 0x8000, 0xFFFF, 0x80000, 0xBFFFF}; // of one width in bits each
  int l = pat < 4 ? pat : pat == 4 ? i % 4 : pat == 5 ? 3 - i % 4 : pat == 6 ? (i ? 0 : 3) : pat == 7 ? (i == n - 1 ? 3 : 0) : i % 33 == 32 ? 2 : i % 5 == 1;
  return __vp_hidden(b[2 * l], b[2 * l + 1]);
}
