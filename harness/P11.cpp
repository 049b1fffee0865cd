// P11: CIFAR decoding
#include "sym.h"
#include "parser/cifar.hpp"
//@ bound records 0..1 (quick) / 0..2 (thorough) with every byte symbolic plus the last record (9999) with concrete bytes; every history of 2 (quick) / 3 (thorough) accesses through image, label, [] and entry, indices including wrap-around; both data sets, both pixel orders; label-name files of up to 3 lines; every (r, g, b) for the luminance
//@ H_decode t=200 T=850
using namespace EdgeLearning;
static const size_t N = 3072;
static void names(const char* f, const std::vector<std::string>& v, bool gap) { std::string s; for (auto& x : v) { s += x + "\n"; if (gap) s += "\n"; } sym::put_file(f, s); }
// expected byte k of an image in the requested order
static uint8_t at(const std::string& rec, size_t off, size_t k, bool rcc) { if (!rcc) return (uint8_t)rec[off + k]; size_t ch = k % 3, px = k / 3; return (uint8_t)rec[off + ch * 1024 + px]; }
ENTRY(decode) {
  bool hundred = sym::flag("cifar100"), rcc = sym::flag("rowcolchn"); size_t n = TIER(2, 3), lo = hundred ? 2 : 1; std::string f; for (size_t i = 0; i < n; i++) f += sym::text("b", N + lo); sym::put_file("b", f); names("c", {"cat", "dog"}, false); names("f", {"x", "y"}, false);
  Cifar c("b", "c", rcc ? CifarShapeOrder::ROW_COL_CHN : CifarShapeOrder::CHN_ROW_COL, hundred ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, hundred ? fs::path("f") : fs::path());
  ls_check(c.size() == 10000 && c.entries_amount() == 10000 && c.feature_size() == N + 1 && c.labels_idx() == std::set<SizeType>{N}, "shape of the data set"); ls_check(c.height() == 32 && c.width() == 32 && c.channels() == 3 && c.side() == 32, "shape of the images"); ls_check(rcc ? c.shape() == std::make_tuple((size_t)32, (size_t)32, (size_t)3) : c.shape() == std::make_tuple((size_t)3, (size_t)32, (size_t)32), "order of the shape");
  for (size_t s = 0; s < TIER(2, 3); s++) { size_t op = sym::pick("op", 0, 3), q = sym::pick("idx", 0, n - 1), i = s == 1 ? q + 10000 : q; std::string rec = f.substr(q * (N + lo), N + lo); uint8_t L0 = (uint8_t)rec[0], L1 = (uint8_t)rec[1];
    auto img = [&](const std::vector<uint8_t>& v) { bool ok = v.size() == N; for (size_t k = 0; ok && k < N; k++) ok = v[k] == at(rec, lo, k, rcc); ls_check(ok, "pixels of the requested record in the requested order"); };
    auto lab = [&](CifarLabel& l) { ls_check(l.data() == L0 && l.coarse_label() == L0, "label of the requested record"); ls_check(l.fine_label() == (hundred ? L1 : 0), "fine label of the requested record"); ls_check(l.idx() == q, "label index"); };
    if (op == 0) { auto x = c.image(i); img(x.data()); ls_check(x.idx() == q, "image index"); } else if (op == 1) { auto x = c.label(i); lab(x); } else if (op == 2) { auto x = c[i]; img(x.image.data()); lab(x.label); ls_check(x.image.idx() == q, "image index"); }
    else { auto e = c.entry(i); bool ok = e.size() == N + 1; for (size_t k = 0; ok && k < N; k++) ok = e[k] == (double)at(rec, lo, k, rcc); ls_check(ok, "entry holds the pixels"); ls_check(e[N] == (double)(hundred ? L1 : L0), "entry ends with the label of the data set"); ls_obsr("lab", e[N]); } }
  ls_reach("end"); }
ENTRY(last) { // the last record of a full batch
  bool hundred = sym::flag("cifar100"); size_t lo = hundred ? 2 : 1, R = N + lo; std::string f(10000 * R, '\0'); size_t q = sym::flag("last") ? 9999 : 5000; for (size_t k = 0; k < R; k++) f[q * R + k] = (char)(k * 7 + k / 64 + 5); std::string rec = f.substr(q * R, R); sym::put_file("b", f); f = std::string(); names("c", {"a"}, false); names("f", {"x"}, false);
  Cifar c("b", "c", CifarShapeOrder::CHN_ROW_COL, hundred ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, hundred ? fs::path("f") : fs::path()); auto x = c[q]; bool ok = true; auto d = x.image.data(); for (size_t k = 0; ok && k < N; k++) ok = d[k] == (uint8_t)rec[lo + k]; ls_check(ok, "pixels of a high record"); ls_check(x.label.data() == (uint8_t)rec[0], "label of a high record"); ls_reach("end"); }
ENTRY(names) { size_t n = sym::pick("n", 0, 3), m = sym::pick("m", 0, 2); bool gap = sym::flag("gap"), hundred = sym::flag("cifar100"), fine = sym::flag("fine"); std::vector<std::string> a, b; for (size_t i = 0; i < n; i++) { std::string t = sym::text("t", 2); for (char ch : t) ls_assume(ch != '\n'); a.push_back(t); } for (size_t i = 0; i < m; i++) b.push_back(std::string("f") + (char)('0' + i)); names("c", a, gap); names("f", b, gap); sym::put_file("b", std::string(10, 'x'));
  Cifar c("b", "c", CifarShapeOrder::CHN_ROW_COL, hundred ? CifarDataset::CIFAR_100 : CifarDataset::CIFAR_10, fine ? fs::path("f") : fs::path()); ls_check(c.label_names() == a && c.coarse_label_names() == a, "label names are the lines of the file"); ls_check(c.fine_label_names() == (hundred && fine ? b : std::vector<std::string>{}), "fine label names"); ls_reach("end"); }
ENTRY(luminance) { uint8_t r = (uint8_t)sym::chr("r"), g = (uint8_t)sym::chr("g"), b = (uint8_t)sym::chr("b"); uint8_t y = perception_brightness(r, g, b); double v = r * 0.21 + g * 0.72 + b * 0.07; ls_check_le((double)y, v + 1e-9, "luminance"); ls_check_lt(v - 1.0001, (double)y, "luminance"); ls_obs("y", y); ls_reach("end"); }
ENTRY(picture) { std::string f = std::string(1, '\0') + std::string(N, '\x55'); for (size_t k = 0; k < 3; k++) f[1 + k * 1024 + 33] = sym::chr("p"); sym::put_file("b", f); sym::put_file("c", ""); Cifar c("b", "c"); auto x = c.image(0); std::string s = x; ls_check(s.size() == 2 + 32 * 65, "picture has a line per row"); ls_check(s[1 + 65 + 2] == s[1 + 65 + 3] && s[1 + 65 + 2] != 0, "picture pixel"); ls_reach("end"); }
