// Generated-input search for array comparison: every length from 0 to 80 (and some longer ones), against a
// byte by byte comparison. Both arrays end at an inaccessible page, so that reading past them is noticed.
//   arrcmp gen SEED ROUNDS     arrcmp replay N HEXA HEXB
#include "arrcmp.hpp"
#include "hibp.hpp"
#include <array>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <random>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <utility>

static unsigned char *page_a, *page_b; // their ends
static std::size_t    cur_n;
static unsigned char  cur_a[1024], cur_b[1024];
static std::uint64_t  evals, nontrivial;
static std::map<std::string, std::uint64_t> classes;

static int ref(const unsigned char* a, const unsigned char* b, std::size_t n) {
  for (std::size_t i = 0; i < n; i++)
    if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
  return 0;
}
static int sign(std::strong_ordering o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }
static int sign(int o) { return o < 0 ? -1 : o > 0 ? 1 : 0; }

// the record types as users compare them: by hash alone
template <unsigned H>
static bool pw_ok(const unsigned char* a, const unsigned char* b, int want) {
  hibp::pawned_pw<H> x, y;
  std::memcpy(x.hash.data(), a, H);
  std::memcpy(y.hash.data(), b, H);
  for (int k = 0; k < 3; k++) {
    x.count = k == 1 ? 5 : -7;
    y.count = k == 2 ? 5 : -7;
    if (sign(x <=> y) != want || sign(y <=> x) != -want || (x == y) != (want == 0) || (x != y) != (want != 0)) return false;
    if ((x < y) != (want < 0) || (x > y) != (want > 0) || (x <= y) != (want <= 0) || (x >= y) != (want >= 0)) return false;
  }
  return true;
}

template <std::size_t N>
static bool ok(const unsigned char* a, const unsigned char* b) {
  const int want = ref(a, b, N);
  // with the ends at the guard pages
  auto* ga = page_a - N;
  auto* gb = page_b - N;
  std::memcpy(ga, a, N);
  std::memcpy(gb, b, N);
  auto* pa = reinterpret_cast<const std::byte*>(ga);
  auto* pb = reinterpret_cast<const std::byte*>(gb);
  if (sign(arrcmp::array_compare<N>(pa, pb, arrcmp::three_way{})) != want) return false;
  if (sign(arrcmp::array_compare<N>(pb, pa, arrcmp::three_way{})) != -want) return false;
  if (sign(arrcmp::array_compare<N>(pa, pb, arrcmp::three_way_int{})) != want) return false;
  if (sign(arrcmp::array_compare<N>(pb, pa, arrcmp::three_way_int{})) != -want) return false;
  if (arrcmp::array_compare<N>(pa, pb, arrcmp::equal{}) != (want == 0)) return false;
  std::array<std::byte, N> x, y;
  if constexpr (N > 0) {
    std::memcpy(x.data(), a, N);
    std::memcpy(y.data(), b, N);
  }
  if (sign(arrcmp::array_compare(x, y, arrcmp::three_way{})) != want) return false;
  if (sign(arrcmp::array_compare(x, y, arrcmp::three_way_int{})) != want) return false;
  if (arrcmp::array_compare(x, y, arrcmp::equal{}) != (want == 0)) return false;
  if constexpr (N == 8) return pw_ok<8>(a, b, want);
  if constexpr (N == 16) return pw_ok<16>(a, b, want);
  if constexpr (N == 20) return pw_ok<20>(a, b, want);
  return true;
}

static std::string hex(const unsigned char* p, std::size_t n) {
  std::string s;
  char        t[3];
  for (std::size_t i = 0; i < n; i++) {
    std::snprintf(t, 3, "%02x", p[i]);
    s += t;
  }
  return s;
}

static void report(std::size_t n, const unsigned char* a, const unsigned char* b) {
  std::printf("FAIL {\"n\": %zu, \"a\": \"%s\", \"b\": \"%s\"}\n", n, hex(a, n).c_str(), hex(b, n).c_str());
  std::fflush(stdout);
}

static void on_fault(int) { // an access outside of the arrays
  report(cur_n, cur_a, cur_b);
  _exit(1);
}

template <std::size_t N>
static void one(const unsigned char* a, const unsigned char* b, const char* cls) {
  cur_n = N;
  std::memcpy(cur_a, a, N);
  std::memcpy(cur_b, b, N);
  evals++;
  classes[cls]++;
  int r = ref(a, b, N);
  nontrivial += r != 0 && N > 1;
  if (ok<N>(a, b)) return;
  // shrink: simplify bytes while it still fails
  unsigned char x[1024], y[1024];
  std::memcpy(x, a, N);
  std::memcpy(y, b, N);
  for (int round = 0; round < 3; round++)
    for (std::size_t i = 0; i < N; i++) {
      const unsigned char ox = x[i], oy = y[i];
      const int cand[5][2] = {{0, 0}, {0, 1}, {1, 0}, {0, 0x80}, {0x80, 0}};
      for (auto& c: cand) {
        if (ox + oy <= c[0] + c[1]) continue;
        x[i] = static_cast<unsigned char>(c[0]);
        y[i] = static_cast<unsigned char>(c[1]);
        if (!ok<N>(x, y)) break;
        x[i] = ox;
        y[i] = oy;
      }
    }
  report(N, x, y);
  std::exit(1);
}

static const unsigned char edge[] = {0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff};

template <std::size_t N>
static void gen(std::mt19937_64& rnd, unsigned rounds) {
  unsigned char a[N + 1], b[N + 1];
  auto fill = [&](int style) {
    for (std::size_t i = 0; i < N; i++) a[i] = style == 0 ? static_cast<unsigned char>(rnd()) : style == 1 ? edge[rnd() % 7] : style == 2 ? 0 : 0xff;
    std::memcpy(b, a, N);
  };
  for (int s = 0; s < 4; s++) {
    fill(s);
    one<N>(a, b, "equal");
  }
  // one difference, at each position, with all pairs of extreme bytes
  for (std::size_t i = 0; i < N; i++)
    for (unsigned char x: edge)
      for (unsigned char y: edge) {
        if (rnd() % 4 == 0) fill(static_cast<int>(rnd() % 4));
        std::memcpy(b, a, N);
        a[i] = x;
        b[i] = y;
        one<N>(a, b, "one difference");
      }
  // two differences in opposite directions, at each pair of positions: the first one decides
  for (std::size_t i = 0; i < N; i++)
    for (std::size_t j = i + 1; j < N; j++) {
      if (rnd() % 16 == 0) fill(static_cast<int>(rnd() % 4));
      std::memcpy(b, a, N);
      unsigned char lo = rnd() % 2 ? edge[rnd() % 6] : static_cast<unsigned char>(rnd() % 255);
      unsigned char hi = static_cast<unsigned char>(lo + 1 + rnd() % (255U - lo));
      bool          f  = rnd() % 2;
      a[i] = f ? lo : hi;
      b[i] = f ? hi : lo;
      a[j] = f ? hi : lo;
      b[j] = f ? lo : hi;
      one<N>(a, b, "two opposite differences");
    }
  for (unsigned k = 0; k < rounds; k++) {
    fill(static_cast<int>(rnd() % 2));
    if (N > 0) {
      for (std::size_t m = rnd() % 4; m > 0; m--) b[rnd() % N] = static_cast<unsigned char>(rnd());
      std::size_t from = rnd() % N;
      if (rnd() % 3 == 0)
        for (std::size_t i = from; i < N; i++) b[i] = static_cast<unsigned char>(rnd());
    }
    one<N>(a, b, "random tail or bytes");
  }
}

static int unhex(const char* s, unsigned char* o) {
  int n = 0;
  for (; s[0] && s[1]; s += 2) {
    unsigned v;
    std::sscanf(s, "%2x", &v);
    o[n++] = static_cast<unsigned char>(v);
  }
  return n;
}

template <std::size_t... I>
static void all(std::index_sequence<I...>, std::mt19937_64& rnd, unsigned rounds) {
  (gen<I>(rnd, rounds), ...);
}
template <std::size_t... I>
static bool replay(std::index_sequence<I...>, std::size_t n, const unsigned char* a, const unsigned char* b) {
  bool r = true;
  ((I == n ? (void)(r = ok<I>(a, b)) : (void)0), ...);
  return r;
}

int main(int argc, char** argv) {
  const std::size_t pg = 4096;
  auto* m = static_cast<unsigned char*>(mmap(nullptr, 6 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
  mprotect(m + pg, pg, PROT_NONE);
  mprotect(m + 3 * pg, pg, PROT_NONE);
  page_a = m + pg;
  page_b = m + 3 * pg;
  std::signal(SIGSEGV, on_fault);
  std::signal(SIGBUS, on_fault);
  using small = std::make_index_sequence<81>;
  using more  = std::index_sequence<96, 100, 127, 128, 129, 131, 160, 191, 200, 255, 256, 257, 300, 512, 1000>;
  if (argc == 5 && std::string(argv[1]) == "replay") {
    unsigned char a[1024], b[1024];
    std::size_t   n = std::strtoul(argv[2], nullptr, 10);
    unhex(argv[3], a);
    unhex(argv[4], b);
    cur_n = n;
    std::memcpy(cur_a, a, n < 1024 ? n : 1024);
    std::memcpy(cur_b, b, n < 1024 ? n : 1024);
    if (replay(small{}, n, a, b) && replay(more{}, n, a, b)) return 0;
    std::printf("length %zu: %s and %s are compared wrongly\n", n, argv[3], argv[4]);
    return 1;
  }
  std::mt19937_64 rnd(std::strtoull(argv[2], nullptr, 10));
  const unsigned  rounds = static_cast<unsigned>(std::strtoul(argv[3], nullptr, 10));
  all(small{}, rnd, rounds);
  all(more{}, rnd, rounds);
  std::printf("{\"evaluations\": %llu, \"nontrivial\": %llu, \"classes\": {", (unsigned long long)evals, (unsigned long long)nontrivial);
  const char* sep = "";
  for (auto& [k, v]: classes) {
    std::printf("%s\"%s\": %llu", sep, k.c_str(), (unsigned long long)v);
    sep = ", ";
  }
  std::printf("}, \"samples\": [{\"n\": %zu, \"a\": \"%s\", \"b\": \"%s\"}]}\n", cur_n, hex(cur_a, cur_n).c_str(), hex(cur_b, cur_n).c_str());
}
