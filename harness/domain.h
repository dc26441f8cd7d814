// every int, in parts of about equal weight
#pragma once
#include <vp.h>
static const long part_lo[] = {-2147483648L, 0x200, 0x380, 0x600, 0xF00, 0x1E00, 0x1E80, 0x1F00, 0x1F80, 0x2000, 0x2400, 0x2500, 0x3000, 0x3300, 0xAC00, 0xF900, 0xFB00, 0xFC00,
  0xFD00, 0xFE00, 0x10000, 0x1D500, 0x1D600, 0x1D700, 0x1D800, 0x20000, 0x2F900, 2147483648L};
enum { PARTS = sizeof part_lo / sizeof *part_lo - 1 };
static int any_int(const char *name, const char *part = "part") { int p = __vp_choose(part, PARTS); return (int)vp_signed(name, part_lo[p], part_lo[p + 1] - 1); }
