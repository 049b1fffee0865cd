// P10: MNIST headers are checked
#include "sym.h"
#include "parser/mnist.hpp"
//@ bound every value of the 24 header bytes; image and label files cut at every length 0..24 / 0..12; missing files
using namespace EdgeLearning;
static uint32_t be(const std::string& s, size_t o) { uint32_t v = 0; for (size_t i = 0; i < 4; i++) v = v << 8 | (uint8_t)s[o + i]; return v; }
static int open(const std::string& im, const std::string& la) { try { Mnist m(im, la); ls_obs("size", m.size()); return 0; } catch (const std::runtime_error&) { return 1; } catch (...) { return 2; } }
ENTRY(header) { std::string im = sym::text("image", 16), la = sym::text("label", 8); sym::put_file("i", im + std::string(784, 'x')); sym::put_file("l", la + "1");
  bool good = be(im, 0) == 0x803 && be(la, 0) == 0x801 && be(im, 4) == be(la, 4) && be(im, 8) == 28 && be(im, 12) == 28; int r = open("i", "l"); ls_check(r != 2, "the error is a runtime error"); ls_check((r == 0) == good, "opening succeeds exactly for the headers the format requires"); ls_reach("end"); }
ENTRY(size) { std::string im = sym::text("image", 16), la = sym::text("label", 8); sym::put_file("i", im); sym::put_file("l", la); ls_assume(be(im, 0) == 0x803 && be(la, 0) == 0x801 && be(im, 4) == be(la, 4) && be(im, 8) == 28 && be(im, 12) == 28); Mnist m("i", "l"); ls_check(m.size() == be(im, 4), "number of items is the count in the header"); ls_reach("end"); }
ENTRY(truncated) { size_t a = sym::pick("imagelen", 0, 16), b = sym::pick("labellen", 0, 8); std::string im = sym::text("image", a), la = sym::text("label", b); sym::put_file("i", im); sym::put_file("l", la);
  bool good = a >= 16 && b >= 8 && be(im, 0) == 0x803 && be(la, 0) == 0x801 && be(im, 4) == be(la, 4) && be(im, 8) == 28 && be(im, 12) == 28; int r = open("i", "l"); ls_check(r != 2, "the error is a runtime error"); ls_check((r == 0) == good, "files without a complete header are refused"); ls_reach("end"); }
ENTRY(missing) { size_t k = sym::pick("k", 0, 2); if (k & 1) sym::put_file("i", std::string("\0\0\x08\x03\0\0\0\0\0\0\0\x1c\0\0\0\x1c", 16)); if (k & 2) sym::put_file("l", std::string("\0\0\x08\x01\0\0\0\0", 8)); ls_check(open("i", "l") == 1, "a missing file is an error"); ls_reach("end"); }
