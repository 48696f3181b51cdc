// In-memory text files: force-included in groups whose code reads files through std::ifstream/getline. Real headers first, then the class is replaced.
#pragma once
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include <utility>
namespace std {
struct vx_ifstream {
  static std::vector<std::pair<std::string, std::vector<std::string>>>& files() { static std::vector<std::pair<std::string, std::vector<std::string>>> f; return f; }
  static void add(const std::string& n, const std::vector<std::string>& l) { files().push_back(std::make_pair(n, l)); }
  const std::vector<std::string>* f = nullptr; size_t next = 0; bool ok = true;
  vx_ifstream() {}
  vx_ifstream(const char* n) { open(n); }
  vx_ifstream(const std::string& n) { open(n); }
  void open(const char* n) { f = nullptr; next = 0; for (auto& p : files()) if (p.first == n) f = &p.second; ok = f != nullptr; }
  void open(const std::string& n) { open(n.c_str()); }
  void close() { f = nullptr; }
  bool is_open() const { return f != nullptr; }
  bool good() const { return ok; } bool eof() const { return !ok; } bool fail() const { return !ok; }
  explicit operator bool() const { return ok; } bool operator!() const { return !ok; }
};
inline vx_ifstream& getline(vx_ifstream& s, string& l) { if (s.ok && s.f && s.next < s.f->size()) l = (*s.f)[s.next++]; else { l.clear(); s.ok = false; } return s; }
}
#define ifstream vx_ifstream
