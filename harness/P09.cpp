// P09: MNIST decoding
#include "sym.h"
#include "parser/mnist.hpp"
//@ bound (many) 300 images, accesses to two of them, one with symbolic pixels and label
//@ bound 1..2 (quick) / 1..3 (thorough) images with every pixel and label byte symbolic; every history of 2 (quick) / 3 (thorough) accesses through image, label, [] and entry with indices 0 .. 2n, plus files of 1..300 images opened for their dimensions
//@ H_decode t=150 T=850
using namespace EdgeLearning;
static void u32(std::string& s, uint32_t v) { for (int i = 3; i >= 0; i--) s.push_back((char)(v >> (8 * i))); }
ENTRY(decode) {
  size_t n = sym::pick("n", 1, TIER(2, 3)); std::string im, la; u32(im, 0x803); u32(im, n); u32(im, 28); u32(im, 28); u32(la, 0x801); u32(la, n); std::string px, lb; for (size_t i = 0; i < n; i++) { px += sym::text("p", 784); lb += sym::chr("l"); }
  sym::put_file("i", im + px); sym::put_file("l", la + lb); Mnist m("i", "l"); ls_check(m.size() == n && m.entries_amount() == n, "number of images"); ls_check(m.height() == 28 && m.width() == 28 && m.side() == 28 && m.feature_size() == 785 && m.labels_idx() == std::set<SizeType>{784}, "shape");
  auto pix = [&](const std::vector<uint8_t>& v, size_t i) { bool ok = v.size() == 784; for (size_t p = 0; ok && p < 784; p++) ok = v[p] == (uint8_t)px[i * 784 + p]; ls_check(ok, "pixels of the requested image in row-major order"); };
  for (size_t s = 0; s < TIER(2, 3); s++) { size_t op = sym::pick("op", 0, 3), i = sym::pick("idx", 0, 2 * n), q = i % n; uint8_t L = (uint8_t)lb[q];
    if (op == 0) { auto x = m.image(i); pix(x.data(), q); ls_check(x.idx() == q, "image index"); }
    else if (op == 1) { auto x = m.label(i); ls_check(x.data() == L, "label of the requested image"); ls_check(x.idx() == q, "label index"); }
    else if (op == 2) { auto x = m[i]; pix(x.image.data(), q); ls_check(x.label.data() == L && x.image.idx() == q && x.label.idx() == q, "label of the requested item"); }
    else { auto e = m.entry(i); ls_check(e.size() == 785, "entry size"); bool ok = true; for (size_t p = 0; ok && p < 784; p++) ok = e[p] == (double)(uint8_t)px[q * 784 + p]; ls_check(ok, "entry holds the pixels"); ls_check(e[784] == (double)L, "entry ends with the label"); ls_obsr("lab", e[784]); } }
  ls_reach("end"); }
ENTRY(encoding) { // the label column after one-hot encoding
  std::string im, la; size_t n = 2; u32(im, 0x803); u32(im, n); u32(im, 28); u32(im, 28); u32(la, 0x801); u32(la, n); uint8_t a = (uint8_t)sym::chr("a"), b = (uint8_t)sym::chr("b"); la.push_back((char)a); la.push_back((char)b); im += std::string(784 * n, 'x'); sym::put_file("i", im); sym::put_file("l", la); Mnist m("i", "l");
  auto u = m.unique(784); size_t k = a == b ? 1 : 2; ls_check(u.size() == k && u.count((double)a) && u.count((double)b), "distinct labels"); ls_check(m.encoding_feature_size(DatasetParser::LabelEncoding::ONE_HOT_ENCODING) == 784 + k, "width with one-hot labels"); ls_reach("end"); }
ENTRY(many) { size_t n = 300, at = sym::pick("at", 0, 3); at = at == 0 ? 0 : at == 1 ? 127 : at == 2 ? 256 : 299; std::string im, la; u32(im, 0x803); u32(im, n); u32(im, 28); u32(im, 28); u32(la, 0x801); u32(la, n); for (size_t i = 0; i < n; i++) { std::string p(784, (char)('a' + i % 7)); la.push_back((char)(i % 10)); if (i == at) { p[0] = sym::chr("p"); p[783] = sym::chr("p"); p[391] = sym::chr("p"); la.back() = sym::chr("l"); } im += p; } sym::put_file("i", im); sym::put_file("l", la); Mnist m("i", "l"); size_t other = sym::pick("other", 0, 1) ? 150 : 298; for (int s = 0; s < 2; s++) { size_t q = s ? at : other; auto x = m[q + (s ? n : 0)]; bool ok = x.image.data().size() == 784; for (size_t p = 0; ok && p < 784; p++) ok = x.image.data()[p] == (uint8_t)im[16 + q * 784 + p]; ls_check(ok && x.image.idx() == q, "pixels of the requested image in row-major order"); ls_check(x.label.data() == (uint8_t)la[8 + q], "label of the requested item"); auto e = m.entry(q); ok = e.size() == 785; for (size_t p = 0; ok && p < 784; p++) ok = e[p] == (double)(uint8_t)im[16 + q * 784 + p]; ls_check(ok && e[784] == (double)(uint8_t)la[8 + q], "entry holds the pixels and the label"); } ls_reach("end"); }
