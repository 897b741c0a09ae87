// Exact counting of a Markov chain training (C20, C21, C22, C30).
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

// what a training must have counted
struct Model
{
  std::map<uint32_t, uint64_t> first;
  std::map<uint32_t, std::map<uint32_t, uint64_t>> next;
  static std::vector<uint32_t> decode(const std::string &s)
  {
    std::vector<uint32_t> r;
    for (size_t i = 0; i < s.size();)
    {
      unsigned char b = s[i];
      int n = b < 0x80 ? 0 : b < 0xe0 ? 1 : b < 0xf0 ? 2 : 3;
      uint32_t v = n == 0 ? b : n == 1 ? b & 31 : n == 2 ? b & 15 : b & 7;
      for (int k = 1; k <= n; ++k) v = v << 6 | (s[i + k] & 63);
      r.push_back(v);
      i += n + 1;
    }
    return r;
  }
  void train(const std::string &s, uint64_t times = 1)
  {
    auto d = decode(s);
    if (d.empty()) return;
    first[d[0]] += times;
    for (size_t i = 1; i < d.size(); ++i) next[d[i - 1]][d[i]] += times;
  }
  static double share(const std::map<uint32_t, uint64_t> &m, uint32_t s)
  {
    uint64_t sum = 0;
    for (auto &p : m) sum += p.second;
    auto i = m.find(s);
    return i == m.end() ? 0 : (double)i->second / (double)sum;
  }
  double firstProb(uint32_t s) const { return share(first, s); }
  double nextProb(uint32_t a, uint32_t b) const
  {
    auto i = next.find(a);
    return i == next.end() ? 0 : share(i->second, b);
  }
  double prob(const std::vector<uint32_t> &w) const
  {
    double p = firstProb(w[0]);
    for (size_t i = 1; i < w.size(); ++i) p *= nextProb(w[i - 1], w[i]);
    return p;
  }
};
