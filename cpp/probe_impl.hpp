#pragma once
// Drives the library's public interface from a script on stdin, one answer line per operation.
// Built from /repo's headers and sources; the expected answers are computed by the Python models.
#include "diffutils.hpp"
#include "flat_file.hpp"
#include "hibp.hpp"
#include "ntlm.hpp"
#include "toc.hpp"
#include <algorithm>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <iterator>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

using std::string;

static string unhex(const string& s) {
  string o;
  for (std::size_t i = 0; i + 1 < s.size(); i += 2)
    o.push_back(static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)));
  return o;
}

// independent of the library's own text conversion
template <typename Pw>
static string show(const Pw& pw) {
  string o;
  char   b[16];
  for (auto x: pw.hash) {
    std::snprintf(b, sizeof b, "%02x", static_cast<unsigned>(x));
    o += b;
  }
  std::snprintf(b, sizeof b, ":%d", pw.count);
  return o + b;
}

template <typename Pw>
static Pw make(const string& hex, std::int32_t count = -1) {
  Pw     pw;
  string raw = unhex(hex);
  for (std::size_t i = 0; i < pw.hash.size(); ++i) pw.hash[i] = static_cast<std::byte>(raw.at(i));
  pw.count = count;
  return pw;
}

struct digest { // number of records and CRC-32 of their bytes
  std::uint32_t c = 0xFFFFFFFFU;
  std::size_t   n = 0;
  template <typename Pw>
  void add(const Pw& pw) {
    static const auto table = [] {
      std::array<std::uint32_t, 256> t{};
      for (std::uint32_t i = 0; i < 256; ++i) {
        std::uint32_t x = i;
        for (int k = 0; k < 8; ++k) x = (x >> 1) ^ ((x & 1U) ? 0xEDB88320U : 0U);
        t[i] = x;
      }
      return t;
    }();
    auto put = [&](std::uint32_t b) { c = table[(c ^ b) & 255U] ^ (c >> 8); };
    for (auto x: pw.hash) put(static_cast<std::uint32_t>(x));
    for (int i = 0; i < 4; ++i) put(static_cast<std::uint32_t>(pw.count) >> (8 * i));
    ++n;
  }
  string str() const {
    char b[64];
    std::snprintf(b, sizeof b, "%zu %08x", n, c ^ 0xFFFFFFFFU);
    return b;
  }
};

template <typename Pw>
static int run_db(const string& file, std::size_t buf) {
  using db_t = flat_file::database<Pw>;
  using it_t = typename db_t::const_iterator;
  std::optional<db_t> holder;
  try {
    holder.emplace(file, buf);
  } catch (const std::exception&) {
    std::cout << "E\n";
    return 0;
  }
  db_t&             db = *holder;
  std::vector<it_t> it(6, db.begin());
  string            line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    string             op;
    in >> op;
    std::ostringstream out;
    try {
      auto I = [&] { std::size_t i = 0; in >> i; return i; };
      auto S = [&] { string s; in >> s; return s; };
      if (op == "n") out << db.number_records() << " " << db.filesize();
      else if (op == "g") out << show(db.get_record(I()));
      else if (op == "b") it[I()] = db.begin();
      else if (op == "e") it[I()] = db.end();
      else if (op == "a") { auto i = I(); it[i] = it[I()]; }
      else if (op == "+=") { auto i = I(); it[i] += I(); }
      else if (op == "-=") { auto i = I(); it[i] -= I(); }
      else if (op == "++") ++it[I()];
      else if (op == "--") --it[I()];
      else if (op == "p++") { auto i = I(); auto old = it[i]++; out << show(*old); }
      else if (op == "p--") { auto i = I(); auto old = it[i]--; out << old.pos(); }
      else if (op == "*p++") { auto i = I(); out << show(*it[i]++); }
      else if (op == "+") { auto i = I(), j = I(); it[i] = it[j] + I(); }
      else if (op == "k+") { auto i = I(), j = I(); it[i] = I() + it[j]; }
      else if (op == "-") { auto i = I(), j = I(); it[i] = it[j] - I(); }
      else if (op == "*") out << show(*it[I()]);
      else if (op == "->") out << it[I()]->count;
      else if (op == "c*") { auto c = it[I()]; out << show(*c); }
      else if (op == "d") { auto i = I(); out << (it[i] - it[I()]); }
      else if (op == "==") { auto i = I(); auto j = I(); out << (it[i] == it[j]) << (it[i] != it[j]); }
      else if (op == "pos") out << it[I()].pos();
      else if (op == "back") out << show(db.back());
      else if (op == "reopen") {
        db = db_t(file, I());
        for (auto& i: it) i = db.begin();
      } else if (op == "move") {
        db_t other = std::move(db);
        out << other.number_records() << " " << other.filesize() << " " << (other.filename() == file);
        if (other.number_records()) out << " " << show(other.get_record(I()));
        db = std::move(other);
        for (auto& i: it) i = db.begin();
      } else if (op == "lb") {
        auto x = std::lower_bound(db.begin(), db.end(), make<Pw>(S()));
        out << (x - db.begin());
      } else if (op == "ub") {
        auto x = std::upper_bound(db.begin(), db.end(), make<Pw>(S()));
        out << (x - db.begin());
      } else if (op == "lbr") { // within [it[i], it[j])
        auto i = I(), j = I();
        out << (std::lower_bound(it[i], it[j], make<Pw>(S())) - db.begin());
      } else if (op == "find") {
        auto x = std::find(db.begin(), db.end(), make<Pw>(S()));
        out << (x - db.begin());
      } else if (op == "rfind") {
        auto rb = std::make_reverse_iterator(db.end()), re = std::make_reverse_iterator(db.begin());
        auto x = std::find(rb, re, make<Pw>(S()));
        out << (re - x);
      } else if (op == "copy") {
        auto i = I(), j = I();
        digest f;
        std::vector<Pw> v;
        std::copy(it[i], it[j], std::back_inserter(v));
        for (auto& x: v) f.add(x);
        out << f.str();
      } else if (op == "all") {
        digest f;
        for (const auto& x: db) f.add(x);
        out << f.str();
      } else if (op == "rev") {
        digest f;
        for (auto x = db.end(); x != db.begin();) f.add(*--x);
        out << f.str();
      } else if (op == "rrev") {
        digest f;
        auto rb = std::make_reverse_iterator(db.end()), re = std::make_reverse_iterator(db.begin());
        for (auto x = rb; x != re; ++x) f.add(*x);
        out << f.str();
      } else if (op == "zip") { // two iterators in lockstep, k apart
        auto k = I();
        digest f;
        if (k <= db.number_records())
          for (auto a = db.begin(), b = db.begin() + k; b != db.end(); ++a, ++b) { f.add(*a); f.add(*b); }
        out << f.str();
      } else out << "?";
      if (!in) out << " badscript";
    } catch (const std::exception&) {
      out.str("");
      out << "E";
    }
    std::cout << out.str() << "\n";
  }
  return 0;
}

template <typename Pw>
static int run_writer() {
  using sw = flat_file::stream_writer<Pw>;
  using fw = flat_file::file_writer<Pw>;
  std::map<int, std::unique_ptr<std::ostringstream>> ss;
  std::map<int, std::unique_ptr<std::ofstream>>      fs;
  std::map<int, std::unique_ptr<sw>>                 w;
  std::map<int, std::unique_ptr<fw>>                 f;
  string                                             line;
  while (std::getline(std::cin, line)) {
    std::istringstream in(line);
    string             op;
    int                id = 0;
    in >> op >> id;
    std::ostringstream out;
    if (op == "ss") { ss[id] = std::make_unique<std::ostringstream>(); }
    else if (op == "fs") { string p; in >> p; fs[id] = std::make_unique<std::ofstream>(p, std::ios::binary); }
    else if (op == "new") { // new writer id on stream s (buf 0 = default)
      int s; std::size_t b; in >> s >> b;
      std::ostream& os = ss.count(s) ? static_cast<std::ostream&>(*ss[s]) : *fs[s];
      w[id] = b ? std::make_unique<sw>(os, b) : std::make_unique<sw>(os);
    } else if (op == "fnew") { string p; in >> p; f[id] = std::make_unique<fw>(p); }
    else if (op == "w") {
      string h; std::int32_t c = 0; in >> h >> c;
      if (w.count(id)) w[id]->write(make<Pw>(h, c)); else f[id]->write(make<Pw>(h, c));
    } else if (op == "wn") { // n records counting up from c
      std::int32_t c = 0, n = 0; in >> c >> n;
      Pw pw;
      for (int i = 0; i < n; ++i) {
        for (std::size_t k = 0; k < pw.hash.size(); ++k) pw.hash[k] = static_cast<std::byte>((c + i) * 31 + static_cast<int>(k) * 7);
        pw.count = c + i;
        if (w.count(id)) w[id]->write(pw); else f[id]->write(pw);
      }
    } else if (op == "f") { if (w.count(id)) w[id]->flush(); else f[id]->flush(); }
    else if (op == "F") { if (w.count(id)) w[id]->flush(true); else f[id]->flush(true); }
    else if (op == "mv") { // move writer id to a new writer
      int to; in >> to;
      if (w.count(id)) w[to] = std::make_unique<sw>(std::move(*w[id]));
      else f[to] = std::make_unique<fw>(std::move(*f[id]));
    } else if (op == "del") { w.erase(id); f.erase(id); }
    else if (op == "size") { string p; in >> p; std::ifstream i(p, std::ios::binary | std::ios::ate); out << i.tellg(); }
    else if (op == "len") out << ss[id]->str().size();
    else if (op == "dump") {
      string d = ss[id]->str();
      static const char* hx = "0123456789abcdef";
      for (unsigned char c: d) { out << hx[c >> 4] << hx[c & 15]; }
    } else out << "?";
    std::cout << out.str() << "\n";
  }
  w.clear();
  f.clear();
  return 0;
}

template <typename Pw>
static int run_sort(const string& file, std::size_t mem, const string& order, std::size_t buf) {
  flat_file::database<Pw> db(file, buf);
  string                  out;
  if (order == "count")
    out = db.disksort(
        [](auto& a, auto& b) {
          if (a.count == b.count) return a < b;
          return a.count > b.count;
        },
        {}, mem);
  else if (order == "proj") // by count ascending through a projection
    out = db.disksort({}, &Pw::count, mem);
  else if (order == "greater")
    out = db.disksort(std::greater<>{}, {}, mem);
  else
    out = db.disksort({}, {}, mem);
  std::cout << out << "\n";
  return 0;
}

template <typename Pw>
static int run_toc(const string& file, unsigned bits, std::size_t buf, const string& before) {
  // tables which were built or loaded before in this process: file:bits,...
  std::istringstream in(before);
  string             b;
  while (std::getline(in, b, ',')) {
    try {
      auto colon = b.rfind(':');
      hibp::toc_build<Pw>(b.substr(0, colon), static_cast<unsigned>(std::stoul(b.substr(colon + 1))));
    } catch (const std::exception&) {
    }
  }
  std::cout << "\nLAST\n";
  try {
    hibp::toc_build<Pw>(file, bits);
  } catch (const std::exception& e) {
    std::cout << "\nBUILDFAIL " << e.what() << "\n";
    return 0;
  }
  std::cout << "\nREADY\n";
  flat_file::database<Pw> db(file, buf);
  string                  line;
  while (std::getline(std::cin, line)) {
    try {
      auto r = hibp::toc_search<Pw>(db, make<Pw>(line), bits);
      std::cout << (r ? show(*r) : string("-")) << "\n";
    } catch (const std::exception&) {
      std::cout << "E\n";
    }
  }
  return 0;
}

// one text per line (in hex); prints what parsing and printing give
template <typename Pw>
static int run_codec() {
  string line;
  while (std::getline(std::cin, line)) {
    try {
      string t;
      for (std::size_t i = 0; i + 1 < line.size(); i += 2) t.push_back(static_cast<char>(std::stoi(line.substr(i, 2), nullptr, 16)));
      Pw          pw{t};
      std::ostringstream os;
      os << pw;
      static const char* digits = "0123456789abcdef";
      for (auto b: pw.hash) std::cout << digits[static_cast<unsigned>(b) >> 4] << digits[static_cast<unsigned>(b) & 15];
      const Pw back{pw.to_string()};
      std::cout << " " << pw.count << " " << pw.to_string() << " " << os.str() << " "
                << (back.hash == pw.hash && back.count == pw.count) << (hibp::is_valid_hash<Pw>(t) ? "v" : "-") << "\n";
    } catch (const std::exception&) {
      std::cout << "E\n";
    }
  }
  return 0;
}

template <typename Pw>
static int dispatch(const string& mode, char** a) {
  if (mode == "db") return run_db<Pw>(a[0], std::stoul(a[1]));
  if (mode == "writer") return run_writer<Pw>();
  if (mode == "sort") return run_sort<Pw>(a[0], std::stoul(a[1]), a[2], std::stoul(a[3]));
  if (mode == "codec") return run_codec<Pw>();
  if (mode == "toc") return run_toc<Pw>(a[0], static_cast<unsigned>(std::stoul(a[1])), std::stoul(a[2]), a[3] ? a[3] : "");
  if constexpr (!std::is_same_v<Pw, hibp::pawned_pw_sha1t64>) {
    if (mode == "diff") {
      hibp::diffutils::run_diff<Pw>(a[0], a[1], std::cout);
      return 0;
    }
  }
  return 64;
}

