// G02: base64 text of plot files: encode, decode, compressed blocks.
#include "se.h"
#include "base64.hh"
#include <string>
#include <vector>
#include <cstring>
// stand-in for the zlib compressor: stores the block, preceded by one marker byte
bool DEVSIMZlibCompress(std::vector<char> &out, char *in, size_t n) { out.assign(1, 'Z'); out.insert(out.end(), in, in + n); return true; }
static int val(unsigned char c) { int r = -1; r = (c >= 'A') & (c <= 'Z') ? c - 'A' : r; r = (c >= 'a') & (c <= 'z') ? c - 'a' + 26 : r; r = (c >= '0') & (c <= '9') ? c - '0' + 52 : r; r = c == '+' ? 62 : r; r = c == '/' ? 63 : r; return r; }
static bool blank(unsigned char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
// reference decoder for standard text
static std::string decodeRef(const std::string &t) { std::string o; for (size_t i = 0; i + 3 < t.size(); i += 4) { int a = val(t[i]), b = val(t[i + 1]), c = val(t[i + 2]), d = val(t[i + 3]); o += char(a << 2 | b >> 4); if (t[i + 2] != '=') o += char(b << 4 | c >> 2); if (t[i + 3] != '=') o += char(c << 6 | d); } return o; }
void se_main() {
  se_opt("ite_loads", 1);
#if MODE == 0 // any bytes: encode, decode
  int n = se_choose("length", NB + 1); std::string in; for (int i = 0; i < n; i++) in += (char)se_byte("byte");
  std::string t = dsUtility::encodeBase64(in.data(), n); se_assert(t.size() == (size_t)(n + 2) / 3 * 4, "length of the text");
  for (size_t i = 0; i < t.size(); i++) { bool pad = i + (n % 3 == 1 ? 2 : n % 3 == 2 ? 1 : 0) >= t.size(); se_assert(pad ? t[i] == '=' : val(t[i]) >= 0, "alphabet"); }
  std::string out; bool ok = dsUtility::decodeBase64(t, out); se_assert(ok, "decodes"); se_assert(out.size() == (size_t)n, "length"); for (int i = 0; i < n; i++) se_assert(out[i] == in[i], "bytes");
  if (n) { std::string r = decodeRef(t); se_assert(r.size() == (size_t)n, "standard encoding"); for (int i = 0; i < n; i++) se_assert(r[i] == in[i], "standard encoding"); }
  // blanks between the characters are skipped
  if (n) { size_t at = se_choose("blank at", 5); std::string s = t; s.insert(at, 1, "\n \t\r"[se_choose("blank", 4)]); std::string o2; bool ok2 = dsUtility::decodeBase64(s, o2); se_assert(ok2 && o2.size() == (size_t)n, "blanks are skipped"); for (int i = 0; i < n; i++) se_assert(o2[i] == in[i], "blanks are skipped"); }
  se_reach("coded");
#elif MODE == 1 // any text
  int n = se_choose("length", NB + 1); std::string in; for (int i = 0; i < n; i++) in += (char)se_byte("char");
  std::string out; bool ok = dsUtility::decodeBase64(in, out);
  std::string t; for (char c : in) if (!blank(c)) t += c; // forks on blanks
  bool good = true; std::string want; while (t.size() % 4) t += '=';
  for (size_t i = 0; i < t.size() && good; i += 4) { int a = val(t[i]), b = val(t[i + 1]), c = val(t[i + 2]), d = val(t[i + 3]); bool p2 = t[i + 2] == '=', p3 = t[i + 3] == '=';
    if ((a < 0) | (b < 0) | ((c < 0) & !p2) | ((d < 0) & !p3) | (p2 & !p3)) { good = false; break; }
    want += char(a << 2 | b >> 4); if (p2) break; want += char(b << 4 | c >> 2); if (p3) break; want += char(c << 6 | d); }
  se_assert(ok == good, "accepts exactly valid text"); if (good) { se_assert(out.size() == want.size(), "decoded length"); for (size_t i = 0; i < want.size(); i++) se_assert(out[i] == want[i], "decoded bytes"); }
  se_assert(out.size() <= (size_t)(n + 3) / 4 * 3, "not beyond the end"); se_reach(good ? "valid" : "invalid");
#else // compressed blocks of a plot file
  static const int sizes[] = {1, 3, 4095, 4096, 4097, 8192, 8193}; int n = sizes[se_choose("values", 7)]; std::vector<double> x(n); for (int i = 0; i < n; i++) x[i] = i * 0.37 - 5;
  std::vector<int> at{0, n - 1}; if (n > 4096) at = {0, 4095, 4096, n - 1}; for (int i : at) { int64_t b = se_int64("value"); memcpy(&x[i], &b, 8); }
  std::string t = dsUtility::convertVectorToZlibBase64(x); int nb = (n + 4095) / 4096; size_t hb = 4 * (nb + 3), ht = (hb + 2) / 3 * 4; se_assert(t.size() >= ht, "header");
  std::string h = decodeRef(t.substr(0, ht)), d = decodeRef(t.substr(ht)); auto u = [&](int i) { unsigned v; memcpy(&v, &h[4 * i], 4); return v; };
  se_assert(h.size() == hb, "header"); se_assert(u(0) == (unsigned)nb, "number of blocks"); se_assert(u(1) == 32768, "size of a block"); se_assert(u(2) == (unsigned)(n % 4096 * 8), "size of the last block");
  size_t pos = 0; for (int b = 0; b < nb; b++) { size_t want = std::min(4096, n - 4096 * b) * 8, c = u(3 + b); se_assert(c == want + 1, "every block holds its data"); se_assert(pos + c <= d.size() && d[pos] == 'Z', "block position"); std::vector<char> raw(want); 
    for (size_t i = 0; i < want; i++) se_assert(d[pos + 1 + i] == ((const char *)&x[4096 * b])[i], "data of a block"); pos += c; }
  se_assert(pos == d.size(), "all data"); se_reach("blocks");
#endif
}
