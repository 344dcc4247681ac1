#pragma once
// Stand-in for ext/hash-library/sha1.h, a submodule that is not part of this checkout. Same
// interface as used by hibp: SHA1{}(text) returns 40 lower-case hex digits. The implementation is
// independent of /repo.
#include <cstdint>
#include <string>
#include <vector>

class SHA1 {
public:
  std::string operator()(const std::string& text) const {
    std::uint32_t h[5] = {0x67452301U, 0xEFCDAB89U, 0x98BADCFEU, 0x10325476U, 0xC3D2E1F0U};
    std::vector<unsigned char> m(text.begin(), text.end());
    const std::uint64_t        bits = static_cast<std::uint64_t>(m.size()) * 8;
    m.push_back(0x80);
    while (m.size() % 64 != 56) m.push_back(0);
    for (int i = 7; i >= 0; --i) m.push_back(static_cast<unsigned char>(bits >> (8 * i)));
    auto rol = [](std::uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (std::size_t c = 0; c < m.size(); c += 64) {
      std::uint32_t w[80];
      for (int i = 0; i < 16; ++i)
        w[i] = (std::uint32_t(m[c + 4 * i]) << 24) | (std::uint32_t(m[c + 4 * i + 1]) << 16) |
               (std::uint32_t(m[c + 4 * i + 2]) << 8) | m[c + 4 * i + 3];
      for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
      std::uint32_t a = h[0], b = h[1], cc = h[2], d = h[3], e = h[4];
      for (int i = 0; i < 80; ++i) {
        std::uint32_t f, k;
        if (i < 20) { f = (b & cc) | (~b & d); k = 0x5A827999U; }
        else if (i < 40) { f = b ^ cc ^ d; k = 0x6ED9EBA1U; }
        else if (i < 60) { f = (b & cc) | (b & d) | (cc & d); k = 0x8F1BBCDCU; }
        else { f = b ^ cc ^ d; k = 0xCA62C1D6U; }
        const std::uint32_t t = rol(a, 5) + f + e + k + w[i];
        e = d; d = cc; cc = rol(b, 30); b = a; a = t;
      }
      h[0] += a; h[1] += b; h[2] += cc; h[3] += d; h[4] += e;
    }
    std::string out;
    for (auto x: h)
      for (int s = 28; s >= 0; s -= 4) out.push_back("0123456789abcdef"[(x >> s) & 15U]);
    return out;
  }
};
