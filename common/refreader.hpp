// Reference model of password extraction (C06), written from the property text.
#pragma once
#include "util.hpp"

namespace ref {

enum Decode { Never, Auto, Always };

inline bool isHex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline int hv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

inline std::vector<std::string> lines(const std::string &text)
{
  std::vector<std::string> r;
  std::string cur;
  bool open = false;
  for (char ch : text)
  {
    if (ch == '\n') { r.push_back(cur); cur.clear(); open = false; }
    else { open = true; if (ch != '\r') cur += ch; }
  }
  if (open) r.push_back(cur);
  return r;
}

// the separators allowed by the property (several if there is a tie)
inline std::vector<char> separators(const std::vector<std::string> &ls)
{
  std::map<char, int> n;
  for (size_t i = 0; i < ls.size() && i < 500; ++i)
    for (char s : {':', ';', '\t', ' '})
      if (ls[i].find(s) != std::string::npos) ++n[s];
  int best = 0;
  for (auto &e : n) best = std::max(best, e.second);
  std::vector<char> r;
  for (auto &e : n) if (e.second == best) r.push_back(e.first);
  if (r.empty()) r.push_back('\0');
  return r;
}

inline bool md5At(const std::string &s, size_t i)
{
  if (s.size() - i < 32) return false;
  for (size_t k = 0; k < 32; ++k) if (!isHex(s[i + k])) return false;
  return true;
}
// length of a $HEX[..] text starting at i, 0 if there is none
inline size_t hexAt(const std::string &s, size_t i)
{
  if (s.compare(i, 5, "$HEX[") != 0) return 0;
  size_t k = i + 5;
  while (k < s.size() && isHex(s[k])) ++k;
  const size_t n = k - i - 5;
  if (n == 0 || n % 2 || k >= s.size() || s[k] != ']') return 0;
  return k + 1 - i;
}

struct Reader
{
  char sep;
  bool md5, hex;
  std::vector<std::string> ls;
  Reader(const std::vector<std::string> &ls, char sep, Decode dmd5, Decode dhex) : sep(sep), md5(dmd5 == Always), hex(dhex == Always), ls(ls)
  {
    for (size_t i = 0; i < ls.size() && i < 500; ++i)
    {
      const std::string &l = ls[i];
      if (l.size() > 200 || (sep && l.find(sep) == std::string::npos)) continue;
      for (size_t k = 0; k < l.size(); ++k)
      {
        if (dmd5 == Auto && md5At(l, k)) md5 = true;
        if (dhex == Auto && hexAt(l, k)) hex = true;
      }
    }
  }
  std::string extract(const std::string &l) const
  {
    const size_t p = sep ? l.find(sep) : std::string::npos;
    return p == std::string::npos ? l : l.substr(p + 1);
  }
  // "" if the line has no password
  std::string password(const std::string &l) const { return l.size() > 200 ? std::string() : extract(l); }
  std::vector<std::string> passwords() const
  {
    std::vector<std::string> r;
    for (auto &l : ls) { std::string p = password(l); if (!p.empty()) r.push_back(p); }
    return r;
  }
  std::pair<uint64_t, uint64_t> hash(const std::string &p) const
  {
    if (md5 && p.size() == 32 && md5At(p, 0))
    {
      uint64_t a = 0, b = 0;
      for (int i = 0; i < 16; ++i) { a = a << 4 | (uint64_t)hv(p[(size_t)i]); b = b << 4 | (uint64_t)hv(p[(size_t)i + 16]); }
      return {a, b};
    }
    if (hex && hexAt(p, 0) == p.size())
    {
      std::string d;
      for (size_t i = 5; i + 1 < p.size(); i += 2) d += char(hv(p[i]) * 16 + hv(p[i + 1]));
      return refHash(d);
    }
    return refHash(p);
  }
};

} // namespace ref
