// See probe_impl.hpp; one translation unit per record type, to build in parallel.
#include "ntlm.hpp"
#include <cstdio>
#include <exception>
#include <iostream>
#include <string>

using std::string;

int dispatch_sha1(const string& mode, char** a);
int dispatch_ntlm(const string& mode, char** a);
int dispatch_sha1t64(const string& mode, char** a);

static string unhex(const string& s) {
  string o;
  for (std::size_t i = 0; i + 1 < s.size(); i += 2)
    o.push_back(static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16)));
  return o;
}

int main(int argc, char** argv) {
  std::ios::sync_with_stdio(false);
  const string mode = argv[1];
  try {
    if (mode == "ntlm") {
      string line;
      while (std::getline(std::cin, line)) {
        try {
          auto h = hibp::ntlm(unhex(line));
          for (auto x: h) std::printf("%02x", static_cast<unsigned>(x));
          std::printf("\n");
        } catch (const std::exception&) {
          std::printf("E\n");
        }
      }
      return 0;
    }
    const string type = argv[2];
    int          rc   = 64;
    if (type == "sha1") rc = dispatch_sha1(mode, argv + 3);
    if (type == "ntlm") rc = dispatch_ntlm(mode, argv + 3);
    if (type == "sha1t64") rc = dispatch_sha1t64(mode, argv + 3);
    std::cout.flush();
    return rc;
  } catch (const std::exception& e) {
    std::cout.flush();
    std::cerr << "EXC " << e.what() << "\n";
    return 3;
  }
}
