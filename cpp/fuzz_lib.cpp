// Coverage-guided search (libFuzzer, ASan, UBSan) of the library's public interface against models.
//   HIBP_FUZZ=codec|ntlm|db|diff|sort|writer  fuzz_lib [libFuzzer options]
// Scratch files are made in the current directory. A violation is printed ("WRONG ...") and trapped.
// At exit one JSON object with statistics is appended to the file $HIBP_FUZZ_STATS.
#include "diffutils.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include "ntlm.hpp"
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <fuzzer/FuzzedDataProvider.h>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

using std::string;
namespace fs = std::filesystem;

static string                               mode;
static std::uint64_t                        evals;
static std::unordered_set<std::uint64_t>    nontrivial;
static std::map<string, std::uint64_t>      classes;
static std::vector<string>                  samples;
static std::uint64_t                        input_id;
static const std::uint8_t*                  input_p;
static std::size_t                          input_n;


[[noreturn]] static void wrong(const string& what) {
  std::fprintf(stderr, "WRONG %s: %s\n", mode.c_str(), what.c_str());
  std::fflush(stderr);
  std::abort();
}

static void count(bool non_trivial, std::initializer_list<std::pair<const char*, bool>> cl) {
  ++evals;
  for (auto& c: cl) classes[c.first] += c.second;
  if (!non_trivial) return;
  if (nontrivial.insert(input_id).second && samples.size() < 3 && input_n < 200 && nontrivial.size() % 1000 == 500) {
    string s;
    for (std::size_t i = 0; i < input_n; ++i) {
      char b[4];
      std::snprintf(b, sizeof b, "%02x", input_p[i]);
      s += b;
    }
    samples.push_back(s);
  }
}

static void write_stats() {
  const char* p = std::getenv("HIBP_FUZZ_STATS");
  if (!p) return;
  if (FILE* f = std::fopen(p, "w")) {
    std::fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"classes\": {", (unsigned long long)evals,
                 (unsigned long long)nontrivial.size());
    const char* sep = "";
    for (auto& c: classes) {
      std::fprintf(f, "%s\"%s\": %llu", sep, c.first.c_str(), (unsigned long long)c.second);
      sep = ", ";
    }
    std::fprintf(f, "}, \"samples\": [");
    sep = "";
    for (auto& s: samples) {
      std::fprintf(f, "%s{\"hex\": \"%s\"}", sep, s.c_str());
      sep = ", ";
    }
    std::fprintf(f, "]}\n");
    std::fclose(f);
  }
}

// ---- records

template <typename Pw>
static Pw draw_record(FuzzedDataProvider& in) {
  Pw            pw;
  const auto    style = in.ConsumeIntegral<std::uint8_t>();
  std::uint8_t  fill  = (style & 3) == 0 ? 0 : (style & 3) == 1 ? 0xFF : in.ConsumeIntegral<std::uint8_t>();
  for (auto& b: pw.hash) b = static_cast<std::byte>(fill);
  // some bytes at some place
  const auto place = (style >> 2) % pw.hash.size();
  const auto some  = in.ConsumeIntegralInRange<std::size_t>(0, 3);
  for (std::size_t i = 0; i < some; ++i) pw.hash[(place + i) % pw.hash.size()] = static_cast<std::byte>(in.ConsumeIntegral<std::uint8_t>());
  pw.count = (style & 128) ? in.ConsumeIntegral<std::int32_t>() : in.ConsumeIntegral<std::int8_t>();
  return pw;
}

template <typename Pw>
static bool hash_less(const Pw& a, const Pw& b) { return std::memcmp(a.hash.data(), b.hash.data(), a.hash.size()) < 0; }
template <typename Pw>
static bool hash_same(const Pw& a, const Pw& b) { return std::memcmp(a.hash.data(), b.hash.data(), a.hash.size()) == 0; }
template <typename Pw>
static bool same(const Pw& a, const Pw& b) { return hash_same(a, b) && a.count == b.count; }
template <typename Pw>
static bool same(const std::vector<Pw>& a, const std::vector<Pw>& b) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return same(x, y); });
}

template <typename Pw>
static std::vector<Pw> draw_records(FuzzedDataProvider& in, std::size_t most) {
  std::vector<Pw> v(in.ConsumeIntegralInRange<std::size_t>(0, most));
  Pw              last{};
  for (auto& r: v) {
    if (in.ConsumeBool()) r = draw_record<Pw>(in);
    else { // near the last one
      r = last;
      auto& b = r.hash[in.ConsumeIntegralInRange<std::size_t>(0, r.hash.size() - 1)];
      b       = static_cast<std::byte>(static_cast<std::uint8_t>(b) + in.ConsumeIntegralInRange<std::int8_t>(-1, 2));
      r.count = in.ConsumeIntegral<std::int8_t>();
    }
    last = r;
  }
  return v;
}

template <typename Pw>
static void sort_unique(std::vector<Pw>& v) {
  std::stable_sort(v.begin(), v.end(), hash_less<Pw>);
  v.erase(std::unique(v.begin(), v.end(), hash_same<Pw>), v.end());
}

template <typename Pw>
static void put(const string& path, const std::vector<Pw>& v) {
  FILE* f = std::fopen(path.c_str(), "wb");
  for (auto& r: v) {
    std::fwrite(r.hash.data(), 1, r.hash.size(), f);
    std::fwrite(&r.count, 1, 4, f);
  }
  if (std::fclose(f)) std::exit(3);
}

template <typename Pw>
static std::vector<Pw> get(const string& path) {
  std::vector<Pw> v;
  FILE*           f = std::fopen(path.c_str(), "rb");
  if (!f) wrong("there is no " + path);
  Pw r;
  while (true) {
    auto n = std::fread(r.hash.data(), 1, r.hash.size(), f);
    if (n == 0) break;
    if (n != r.hash.size() || std::fread(&r.count, 1, 4, f) != 4) wrong("incomplete record in " + path);
    v.push_back(r);
  }
  std::fclose(f);
  return v;
}

template <typename Pw>
static string show(const Pw& r) {
  string o;
  char   b[16];
  for (auto x: r.hash) {
    std::snprintf(b, sizeof b, "%02X", static_cast<unsigned>(x));
    o += b;
  }
  std::snprintf(b, sizeof b, ":%d", r.count);
  return o + b;
}

// ---- text form

static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

// a decimal 32-bit number and nothing else, in its shortest form
static std::optional<std::int32_t> number(const string& s) {
  long long   v = 0;
  std::size_t i = !s.empty() && s[0] == '-';
  if (s.size() == i || s.size() > 11) return {};
  if (s[i] == '0' && s.size() > 1) return {};
  for (auto k = i; k < s.size(); ++k) {
    if (s[k] < '0' || s[k] > '9') return {};
    v = v * 10 + (s[k] - '0');
  }
  if (i) v = -v;
  if (v < -2147483648LL || v > 2147483647LL) return {};
  return static_cast<std::int32_t>(v);
}

template <typename Pw>
static void fuzz_codec(FuzzedDataProvider& in) {
  constexpr std::size_t H = std::tuple_size_v<decltype(Pw::hash)>;
  string                t;
  if (in.ConsumeBool()) {
    // a proper hash, then anything
    static const char* digits = "0123456789ABCDEFabcdef";
    const auto         len    = in.PickValueInArray<std::size_t>({2 * H, 2 * H, 2 * H, 40, 32, 16, 2 * H - 1, 2 * H + 1});
    for (std::size_t i = 0; i < len; ++i) t.push_back(digits[in.ConsumeIntegral<std::uint8_t>() % 22]);
    if (in.ConsumeBool()) t.push_back(':');
    if (in.ConsumeBool()) t += std::to_string(in.ConsumeIntegral<std::int32_t>());
  }
  t += in.ConsumeRemainingBytesAsString();

  bool hash_ok = t.size() >= 2 * H;
  Pw   want;
  for (std::size_t i = 0; hash_ok && i < H; ++i) {
    const int a = hexval(t[2 * i]), b = hexval(t[2 * i + 1]);
    if (a < 0 || b < 0) hash_ok = false;
    else want.hash[i] = static_cast<std::byte>(a * 16 + b);
  }
  // what follows the hash
  std::optional<std::int32_t> want_count;
  bool                        full = false;
  if (hash_ok) {
    string rest = t.substr(2 * H);
    if (H == 8 && rest.size() >= 24 && std::all_of(rest.begin(), rest.begin() + 24, [](char c) { return hexval(c) >= 0; })) {
      rest = rest.substr(24); // a full sha1 hash
      full = true;
    }
    if (!rest.empty() && rest.back() == '\r') rest.pop_back();
    if (rest.empty()) want_count = -1;
    else if (rest[0] == ':') want_count = number(rest.substr(1));
  }
  try {
    const Pw got{t};
    if (!hash_ok) wrong("accepted as " + show(got) + ", but isn't a hash: " + t);
    if (!hash_same(got, want)) wrong("hash of " + t + " parsed as " + show(got));
    if (want_count && got.count != *want_count) wrong("count of " + t + " parsed as " + show(got));
    if (got.to_string() != show(got)) wrong(show(got) + " printed as " + got.to_string());
    std::ostringstream os;
    os << got;
    if (os.str() != show(got)) wrong(show(got) + " written as " + os.str());
    const Pw back{got.to_string()};
    if (!same(back, got)) wrong(show(got) + " comes back as " + show(back));
  } catch (const std::exception& e) {
    if (want_count) wrong("refused (" + string(e.what()) + "): " + t);
  }
  bool upper = t.size() == 2 * H;
  for (char c: t) upper = upper && ((c >= '0' && c <= '9') || (c >= 'A' && c <= 'F'));
  if (hibp::is_valid_hash<Pw>(t) != upper) wrong("is_valid_hash of " + t);
  count(hash_ok, {{"a hash", hash_ok}, {"with a count", want_count.has_value()}, {"refused or other text", !hash_ok}, {"full sha1 line", full}});
}

// ---- ntlm: MD4 after RFC 1320

static std::array<std::uint8_t, 16> md4(const string& m) {
  auto rol = [](std::uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
  string p = m;
  p.push_back('\x80');
  while (p.size() % 64 != 56) p.push_back('\0');
  const std::uint64_t bits = static_cast<std::uint64_t>(m.size()) * 8;
  for (int i = 0; i < 8; ++i) p.push_back(static_cast<char>(bits >> (8 * i)));
  std::uint32_t s[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  for (std::size_t o = 0; o < p.size(); o += 64) {
    std::uint32_t x[16];
    for (int i = 0; i < 16; ++i)
      x[i] = static_cast<std::uint8_t>(p[o + 4 * i]) | static_cast<std::uint32_t>(static_cast<std::uint8_t>(p[o + 4 * i + 1])) << 8 |
             static_cast<std::uint32_t>(static_cast<std::uint8_t>(p[o + 4 * i + 2])) << 16 | static_cast<std::uint32_t>(static_cast<std::uint8_t>(p[o + 4 * i + 3])) << 24;
    std::uint32_t v[4] = {s[0], s[1], s[2], s[3]};
    static const int K2[16] = {0, 4, 8, 12, 1, 5, 9, 13, 2, 6, 10, 14, 3, 7, 11, 15}, K3[16] = {0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15};
    static const int S[3][4] = {{3, 7, 11, 19}, {3, 5, 9, 13}, {3, 9, 11, 15}};
    for (int r = 0; r < 3; ++r)
      for (int i = 0; i < 16; ++i) {
        auto &        a = v[(16 - i) % 4], b = v[(17 - i) % 4], c = v[(18 - i) % 4], d = v[(19 - i) % 4];
        std::uint32_t f = r == 0 ? ((b & c) | (~b & d)) : r == 1 ? ((b & c) | (b & d) | (c & d)) : (b ^ c ^ d);
        a = rol(a + f + x[r == 0 ? i : r == 1 ? K2[i] : K3[i]] + (r == 0 ? 0U : r == 1 ? 0x5a827999U : 0x6ed9eba1U), S[r][i % 4]);
      }
    for (int i = 0; i < 4; ++i) s[i] += v[i];
  }
  std::array<std::uint8_t, 16> h{};
  for (int i = 0; i < 16; ++i) h[i] = static_cast<std::uint8_t>(s[i / 4] >> (8 * (i % 4)));
  return h;
}

// strict UTF-8 (RFC 3629)
static std::optional<string> utf16le(const string& u) {
  string o;
  auto   unit = [&](unsigned x) { o.push_back(static_cast<char>(x & 255)); o.push_back(static_cast<char>(x >> 8)); };
  for (std::size_t i = 0; i < u.size();) {
    const unsigned c = static_cast<std::uint8_t>(u[i]);
    const int      n = c < 0x80 ? 1 : c >= 0xC2 && c <= 0xDF ? 2 : (c & 0xF0) == 0xE0 ? 3 : c >= 0xF0 && c <= 0xF4 ? 4 : 0;
    if (!n || i + n > u.size()) return {};
    std::uint32_t cp = n == 1 ? c : c & (0xFF >> (n + 1));
    for (int k = 1; k < n; ++k) {
      const unsigned d = static_cast<std::uint8_t>(u[i + k]);
      if ((d & 0xC0) != 0x80) return {};
      cp = cp << 6 | (d & 0x3F);
    }
    if ((n == 3 && cp < 0x800) || (n == 4 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp < 0xE000)) return {};
    if (cp < 0x10000) unit(cp);
    else { unit(0xD800 + ((cp - 0x10000) >> 10)); unit(0xDC00 + ((cp - 0x10000) & 0x3FF)); }
    i += n;
  }
  return o;
}

static void fuzz_ntlm(FuzzedDataProvider& in) {
  string u;
  for (auto k = in.ConsumeIntegralInRange<unsigned>(0, 12); k; --k) { // code points, repeated
    std::uint32_t cp = in.PickValueInArray({0x7FU, 0x7FFU, 0xFFFFU, 0x10FFFFU});
    cp               = in.ConsumeIntegralInRange<std::uint32_t>(0, cp);
    string s;
    if (cp < 0x80) s = {static_cast<char>(cp)};
    else if (cp < 0x800) s = {static_cast<char>(0xC0 | cp >> 6), static_cast<char>(0x80 | (cp & 63))};
    else if (cp < 0x10000) s = {static_cast<char>(0xE0 | cp >> 12), static_cast<char>(0x80 | (cp >> 6 & 63)), static_cast<char>(0x80 | (cp & 63))};
    else s = {static_cast<char>(0xF0 | cp >> 18), static_cast<char>(0x80 | (cp >> 12 & 63)), static_cast<char>(0x80 | (cp >> 6 & 63)), static_cast<char>(0x80 | (cp & 63))};
    for (auto n = in.ConsumeIntegralInRange<unsigned>(1, 40); n; --n) u += s;
  }
  u += in.ConsumeRemainingBytesAsString();
  const auto w = utf16le(u);
  try {
    const auto h = hibp::ntlm(u);
    if (!w) wrong("a password which is not UTF-8 was hashed");
    const auto want = md4(*w);
    if (std::memcmp(h.data(), want.data(), 16) != 0) wrong("another hash");
  } catch (const std::exception& e) {
    if (w) wrong(string("a valid password was refused: ") + e.what());
  }
  bool ascii = std::all_of(u.begin(), u.end(), [](char c) { return c >= 0; });
  count(!u.empty(), {{"ascii", w && ascii}, {"other valid utf-8", w && !ascii}, {"not utf-8", !w}, {"several md4 blocks", w && w->size() > 55}});
}

// ---- databases

template <typename Pw>
static void fuzz_db(FuzzedDataProvider& in) {
  const auto recs = draw_records<Pw>(in, 40);
  auto       buf  = in.ConsumeIntegralInRange<std::size_t>(1, 12);
  put("x.bin", recs);
  using db_t = flat_file::database<Pw>;
  db_t                                       db("x.bin", buf);
  std::vector<typename db_t::const_iterator> it(3, db.begin());
  std::vector<std::size_t>                   pos(3, 0);
  const std::size_t                          n = recs.size();
  auto check = [&](const char* op, std::size_t p, auto read) {
    try {
      const Pw r = read();
      if (p >= n) wrong(string(op) + " read something beyond the end");
      if (!same(r, recs[p])) wrong(string(op) + " at " + std::to_string(p) + " of " + std::to_string(n) + ", buffer " + std::to_string(buf) + ": " + show(r) + " instead of " + show(recs[p]));
    } catch (const std::exception& e) {
      if (p < n) wrong(string(op) + " failed: " + e.what());
    }
  };
  unsigned reads = 0, ops = 0;
  while (in.remaining_bytes() && ops < 60) {
    ++ops;
    const auto i = in.ConsumeIntegralInRange<unsigned>(0, 2);
    auto&      p = pos[i];
    switch (in.ConsumeIntegralInRange<unsigned>(0, 13)) {
    case 0: { auto k = in.ConsumeIntegralInRange<std::size_t>(0, n ? n - 1 : 0); if (k < n) check("get_record", k, [&] { return db.get_record(k); }); ++reads; break; }
    case 1: case 2: check("*", p, [&] { return *it[i]; }); ++reads; break;
    case 3: if (p < n) { ++it[i]; ++p; } break;
    case 4: if (p > 0) { --it[i]; --p; } break;
    case 5: { auto k = in.ConsumeIntegralInRange<std::size_t>(0, n - p); it[i] += k; p += k; break; }
    case 6: { auto k = in.ConsumeIntegralInRange<std::size_t>(0, p); it[i] -= k; p -= k; break; }
    case 7: if (p < n) { auto o = p++; check("*p++", o, [&] { return *it[i]++; }); ++reads; } break;
    case 8: { auto j = (i + 1) % 3; it[i] = it[j]; p = pos[j]; break; }
    case 9: {
      auto j = (i + 1) % 3;
      if (it[i] - it[j] != static_cast<std::ptrdiff_t>(p) - static_cast<std::ptrdiff_t>(pos[j])) wrong("distance");
      if ((it[i] == it[j]) != (p == pos[j])) wrong("equality");
      break;
    }
    case 10: it[i] = in.ConsumeBool() ? db.begin() : db.end(); p = it[i] == db.end() ? n : 0; break;
    case 11: { // through two iterators in turns
      auto j = (i + 1) % 3;
      check("*a", p, [&] { return *it[i]; });
      check("*b", pos[j], [&] { return *it[j]; });
      check("*a again", p, [&] { return *it[i]; });
      reads += 3;
      break;
    }
    case 12: {
      std::vector<Pw> all;
      for (const auto& r: db) all.push_back(r);
      if (!same(all, recs)) wrong("a pass over all records");
      reads += 1;
      break;
    }
    default: { // find_if leaves off where it found something
      auto k = in.ConsumeIntegral<std::uint8_t>();
      auto pred = [&](const Pw& r) { return static_cast<std::uint8_t>(r.hash[0]) >= k; };
      auto x = std::find_if(it[i], db.end(), pred);
      auto y = std::find_if(recs.begin() + static_cast<std::ptrdiff_t>(p), recs.end(), pred);
      if (x - db.begin() != y - recs.begin()) wrong("find_if");
      reads += 1;
    }
    }
    if (it[i].pos() != p) wrong("position");
  }
  if (db.number_records() != n || db.filesize() != n * sizeof(Pw)) wrong("size");
  count(reads > 3 && n > buf, {{"more records than the buffer", n > buf}, {"empty", n == 0}, {"at least ten operations", ops >= 10}});
}

// ---- diff

template <typename Pw>
static void fuzz_diff(FuzzedDataProvider& in) {
  auto old = draw_records<Pw>(in, 40);
  sort_unique(old);
  std::vector<Pw> neu;
  bool            deleted = false;
  const bool      may_delete = in.ConsumeIntegralInRange<unsigned>(0, 4) == 0;
  auto            extra   = draw_records<Pw>(in, 12);
  for (auto& r: old) {
    switch (in.ConsumeIntegralInRange<unsigned>(0, 6)) {
    case 0: neu.push_back(r); neu.back().count = in.ConsumeIntegral<std::int16_t>(); break;
    case 1: { // its neighbours as well
      neu.push_back(r);
      for (int d: {-1, 1}) {
        auto  x = r;
        auto& b = x.hash[x.hash.size() - 1];
        b       = static_cast<std::byte>(static_cast<std::uint8_t>(b) + d);
        if (hash_less(x, r) == (d < 0)) extra.push_back(x);
      }
      break;
    }
    case 2: if (may_delete) { deleted = true; break; } [[fallthrough]];
    default: neu.push_back(r);
    }
  }
  // neu first: an extra record must not displace an old one
  neu.insert(neu.end(), extra.begin(), extra.end());
  sort_unique(neu);
  if (deleted) { // it may have come back
    deleted = !std::all_of(old.begin(), old.end(), [&](auto& r) { return std::binary_search(neu.begin(), neu.end(), r, hash_less<Pw>); });
  }
  put("old.bin", old);
  put("new.bin", neu);
  std::ostringstream os;
  bool               refused = false;
  try {
    hibp::diffutils::run_diff<Pw>("old.bin", "new.bin", os);
  } catch (const std::exception& e) {
    refused = true;
  }
  if (refused != deleted) wrong(refused ? "refused" : "a deletion was not refused");
  if (!refused) {
    std::map<std::size_t, Pw>              ups;
    std::map<std::size_t, std::vector<Pw>> ins;
    std::istringstream                     is(os.str());
    string                                 l;
    std::size_t                            last = 0, hunks = 0;
    while (std::getline(is, l)) {
      ++hunks;
      const auto c = l.find(':', 2);
      if (l.size() < 4 || (l[0] != 'U' && l[0] != 'I') || l[1] != ':' || c == string::npos) wrong("no hunk: " + l);
      const auto at = std::stoul(l.substr(2, c - 2), nullptr, 16);
      if (at < last) wrong("not ascending");
      last = at;
      Pw r;
      const string t = l.substr(c + 1);
      if (t.size() < 2 * r.hash.size() + 2) wrong("no record: " + l);
      for (std::size_t i = 0; i < r.hash.size(); ++i) r.hash[i] = static_cast<std::byte>(hexval(t[2 * i]) * 16 + hexval(t[2 * i + 1]));
      r.count = static_cast<std::int32_t>(std::stol(t.substr(2 * r.hash.size() + 1)));
      if (l[0] == 'U') {
        if (at >= old.size() || !ups.emplace(at, r).second) wrong("update of nothing, or twice");
      } else ins[at].push_back(r);
    }
    if (!ins.empty() && ins.rbegin()->first > old.size()) wrong("insertion beyond the end");
    std::vector<Pw> res;
    for (std::size_t i = 0; i <= old.size(); ++i) {
      if (ins.count(i)) res.insert(res.end(), ins[i].begin(), ins[i].end());
      if (i < old.size()) res.push_back(ups.count(i) ? ups[i] : old[i]);
    }
    if (!same(res, neu)) wrong("applying the diff does not give NEW:\n" + os.str());
    if (hunks && same(old, neu)) wrong("hunks between equal databases");
    count(hunks > 0, {{"updates", !ups.empty()}, {"insertions", !ins.empty()}, {"equal databases", !hunks}});
  } else {
    count(true, {{"deletion refused", true}});
  }
}

// ---- sort

template <typename Pw>
static void fuzz_sort(FuzzedDataProvider& in) {
  const bool by_count = in.ConsumeBool();
  const auto mem      = in.ConsumeIntegralInRange<std::size_t>(0, 12 * sizeof(Pw));
  auto       recs     = draw_records<Pw>(in, 60);
  put("s.bin", recs);
  auto by = [](const Pw& a, const Pw& b) {
    if (a.count == b.count) return hash_less(a, b);
    return a.count > b.count;
  };
  const std::size_t chunks = mem < sizeof(Pw) ? recs.size() : (recs.size() + mem / sizeof(Pw) - 1) / (mem / sizeof(Pw));
  string            out;
  {
    flat_file::database<Pw> db("s.bin", in.ConsumeIntegralInRange<std::size_t>(1, 9));
    if (by_count)
      out = db.disksort(
          [](auto& a, auto& b) {
            if (a.count == b.count) return a < b;
            return a.count > b.count;
          },
          {}, mem);
    else
      out = db.disksort({}, {}, mem);
  }
  if (out != "s.bin.sorted") wrong("output is called " + out);
  auto got = get<Pw>("s.bin.sorted");
  if (!same(get<Pw>("s.bin"), recs)) wrong("the input was changed");
  for (std::size_t i = 1; i < got.size(); ++i)
    if (by_count ? by(got[i], got[i - 1]) : hash_less(got[i], got[i - 1])) wrong("not sorted");
  auto all = [](const Pw& a, const Pw& b) { return hash_less(a, b) || (hash_same(a, b) && a.count < b.count); };
  auto r = recs, g = got;
  std::sort(r.begin(), r.end(), all);
  std::sort(g.begin(), g.end(), all);
  if (!same(r, g)) wrong("other records than the input's");
  fs::remove("s.bin");
  fs::remove("s.bin.sorted");
  for (auto& e: fs::directory_iterator("."))
    if (e.path().filename().string().rfind("s.bin", 0) == 0) wrong("left behind: " + e.path().string());
  count(recs.size() > 1, {{"several chunks", chunks > 1}, {"one chunk", chunks == 1}, {"empty", recs.empty()}, {"by count", by_count}});
}

// ---- writer

template <typename Pw>
static void fuzz_writer(FuzzedDataProvider& in) {
  const auto buf  = in.ConsumeIntegralInRange<std::size_t>(1, 9);
  const bool file = in.ConsumeBool();
  std::vector<Pw> model;
  unsigned        moves = 0, flushes = 0;
  auto drive = [&](auto w, auto arrived) { // w: unique_ptr to a writer
    using W = typename decltype(w)::element_type;
    std::vector<std::unique_ptr<W>> dead;
    for (int ops = 0; in.remaining_bytes() && ops < 80; ++ops) {
      switch (in.ConsumeIntegralInRange<unsigned>(0, 7)) {
      case 0: w->flush(); ++flushes; break;
      case 1: w->flush(true); ++flushes; if (arrived() != model.size() * sizeof(Pw)) wrong("records missing after flush(true)"); break;
      case 2: dead.push_back(std::move(w)); w = std::make_unique<W>(std::move(*dead.back())); ++moves; break;
      case 3: if (!dead.empty()) dead.erase(dead.begin()); break;
      case 4: for (auto k = in.ConsumeIntegralInRange<unsigned>(0, 25); k; --k) { Pw r; r.count = static_cast<std::int32_t>(model.size()); w->write(r); model.push_back(r); } break;
      default: { auto r = draw_record<Pw>(in); w->write(r); model.push_back(r); }
      }
    }
    if (in.ConsumeBool()) { w.reset(); dead.clear(); } else { dead.clear(); w.reset(); }
  };
  if (file) {
    drive(std::make_unique<flat_file::file_writer<Pw>>("w.bin"), [] { return fs::file_size("w.bin"); });
    if (!same(get<Pw>("w.bin"), model)) wrong("the file is not what was written");
  } else {
    std::ostringstream os;
    drive(std::make_unique<flat_file::stream_writer<Pw>>(os, buf), [&] { return os.str().size(); });
    put("m.bin", model);
    std::ofstream("w.bin", std::ios::binary) << os.str();
    if (!same(get<Pw>("w.bin"), model)) wrong("the stream is not what was written");
  }
  count(!model.empty() && (moves || flushes || model.size() > buf), {{"moves", moves > 0}, {"flushes", flushes > 0}, {"file", file}});
}

template <typename Pw>
static void one(FuzzedDataProvider& in) {
  if (mode == "codec") fuzz_codec<Pw>(in);
  else if (mode == "db") fuzz_db<Pw>(in);
  else if (mode == "sort") fuzz_sort<Pw>(in);
  else if (mode == "writer") fuzz_writer<Pw>(in);
  else if (mode == "diff") {
    if constexpr (!std::is_same_v<Pw, hibp::pawned_pw_sha1t64>) fuzz_diff<Pw>(in);
    else fuzz_diff<hibp::pawned_pw_sha1>(in);
  }
}

extern "C" int LLVMFuzzerInitialize(int*, char***) {
  mode = std::getenv("HIBP_FUZZ") ? std::getenv("HIBP_FUZZ") : "codec";
  std::cerr.setstate(std::ios::badbit); // drops everything
  if (hexval('a') != 10 || md4("")[0] != 0x31 || md4("abc")[0] != 0xa4 || md4(string(80, '1'))[0] == 0) std::exit(3);
  std::atexit(write_stats);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
  input_p = data;
  input_n = size;
  input_id = 1469598103934665603ULL;
  for (std::size_t i = 0; i < size; ++i) input_id = (input_id ^ data[i]) * 1099511628211ULL;
  FuzzedDataProvider in(data, size);
  if (mode == "ntlm") {
    fuzz_ntlm(in);
    return 0;
  }
  switch (in.ConsumeIntegralInRange<unsigned>(0, 2)) {
  case 0: one<hibp::pawned_pw_sha1>(in); break;
  case 1: one<hibp::pawned_pw_ntlm>(in); break;
  default: one<hibp::pawned_pw_sha1t64>(in);
  }
  return 0;
}
