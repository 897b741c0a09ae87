#include <set>
// C20, C21, C22: Markov chains against exact counting.
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <memory>
#include <random>
#include "../common/markovmodel.hpp"
#include "../common/util.hpp"
// the random source is replaced by a controlled value
#define random uncontrolled_random
#include <pwned-lib/util.hpp>
#undef random
static double controlledRandom = 0;
namespace pwned
{
template <class Numeric = double, class Generator = std::mt19937>
static Numeric random() { return (Numeric)controlledRandom; }
}
#include <pwned-lib/markovchain.hpp>

using mc::Ctx;
namespace mk = pwned::markov;
using V = std::vector<std::string>;

static bool near(double a, double b, double eps) { return std::fabs(a - b) <= eps * std::max(1e-300, std::max(std::fabs(a), std::fabs(b))); }

static const std::vector<uint32_t> Symbols{'a', 'b', 0xe9, 0x20ac, 0x1f600, 'z', 0};

template <class C> static double firstProb(const C &chain, uint32_t s, bool &twice)
{
  double p = 0;
  int n = 0;
  for (auto &e : chain.firstSymbolProbs())
    if ((uint32_t)e.first == s) { p = e.second; ++n; }
  if (n > 1) twice = true;
  return p;
}

// every probability the chain answers is the one of the model
template <class C> static void compare(Ctx &c, C &chain, const Model &m, const std::string &how)
{
  const double eps = sizeof(typename C::prob_value_type) == 4 ? 1e-5 : 1e-12;
  auto hist = [&] { return how; };
  bool twice = false;
  for (uint32_t s : Symbols)
  {
    const double p = firstProb(chain, s, twice);
    if (twice) c.fail("first-twice", "a first symbol is listed twice; " + hist());
    if (!near(p, m.firstProb(s), eps)) c.fail("first", "first symbol " + std::to_string(s) + " has probability " + std::to_string(p) + " instead of " + std::to_string(m.firstProb(s)) + "; " + hist());
    auto n = chain.nodes().find((typename C::symbol_type)s);
    for (uint32_t t : Symbols)
    {
      const double q = n == chain.nodes().end() ? 0 : (double)n->second.probability((typename C::symbol_type)t);
      if (!near(q, m.nextProb(s, t), eps))
        c.fail("successor", "successor " + std::to_string(t) + " of " + std::to_string(s) + " has probability " + std::to_string(q) + " instead of " + std::to_string(m.nextProb(s, t)) + "; " + hist());
    }
    if (n != chain.nodes().end())
    {
      std::map<uint32_t, double> listed;
      for (auto &e : n->second.sortedSuccessors()) listed[(uint32_t)e.first] += e.second;
      for (auto &e : listed)
        if (!near(e.second, m.nextProb(s, e.first), eps)) c.fail("listed-successor", "listed successor " + std::to_string(e.first) + " of " + std::to_string(s) + " is wrong; " + hist());
      if (m.next.count(s) && listed.size() != m.next.at(s).size()) c.fail("listed-successor", "not all successors are listed; " + hist());
    }
  }
  c.step();
  // products along all words of up to three symbols
  static const std::vector<uint32_t> w{'a', 'b', 0xe9, 0x1f600, 'z'};
  for (uint32_t x : w)
    for (int y = -1; y < (int)w.size(); ++y)
      for (int z = -1; z < (y < 0 ? 0 : (int)w.size()); ++z)
      {
        std::vector<uint32_t> word{x};
        if (y >= 0) word.push_back(w[y]);
        if (z >= 0) word.push_back(w[z]);
        std::basic_string<typename C::symbol_type> s(word.begin(), word.end());
        const double p = chain.totalProbability(s), q = m.prob(word);
        if (!near(p, q, eps * 10)) c.fail("total", "word " + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + " has probability " + std::to_string(p) + " instead of " + std::to_string(q) + "; " + hist());
      }
}

static const V Words{"a", "b", "ab", "ba", "aab", "\xc3\xa9" "a", "a\xf0\x9f\x98\x80" "b", "", "\xe2\x82\xac", "abab"};

static std::string shown(const V &h)
{
  std::string s = "history:";
  for (auto &x : h) s += " " + mc::jstr(x);
  return s;
}

template <class C> static void histories(const std::string &name, unsigned N)
{
  mc::explore(name, [N](Ctx &c) {
    const unsigned n = c.choose(N) + 1;
    C chain;
    Model m;
    V h;
    for (unsigned i = 0; i < n; ++i)
    {
      const uint32_t k = c.choose(Words.size() + 1);
      if (i == 1) c.shard();
      if (k == Words.size())
      {
        chain.update();
        h.push_back("update");
        compare(c, chain, m, shown(h));
        continue;
      }
      const bool ok = chain.train(Words[k]);
      m.train(Words[k]);
      h.push_back(Words[k]);
      c.check(ok == !Words[k].empty(), "train-result", "training " + mc::jstr(Words[k]) + " returned " + std::to_string(ok));
    }
    c.shard();
    chain.update();
    compare(c, chain, m, shown(h));
    c.state(mc::hashOf(shown(h)));
    std::string o;
    for (auto &f : m.first) o += std::to_string(f.first) + ":" + std::to_string(f.second) + " ";
    for (auto &f : m.next)
      for (auto &g : f.second) o += std::to_string(f.first) + ">" + std::to_string(g.first) + ":" + std::to_string(g.second) + " ";
    c.outcome(o);
    if (c.wantNotes()) c.note(shown(h) + " -> counts " + o);
  });
}

using Chain = mk::Chain<wchar_t, double>;
using ChainF = mk::Chain<char32_t, float>;

// --- C21 -----------------------------------------------------------------
struct Layout
{
  std::vector<size_t> probs, counts, symbols;
  size_t size = 0;
};
template <class C> static bool layout(const std::string &f, Layout &l)
{
  const size_t S = sizeof(typename C::symbol_type), P = sizeof(typename C::prob_value_type);
  size_t o = 5;
  auto u32 = [&](uint32_t &v) {
    if (o + 4 > f.size()) return false;
    memcpy(&v, f.data() + o, 4);
    l.counts.push_back(o);
    o += 4;
    return true;
  };
  auto pairs = [&](uint32_t n) {
    for (uint32_t i = 0; i < n; ++i)
    {
      if (o + S + P > f.size()) return false;
      l.symbols.push_back(o);
      l.probs.push_back(o + S);
      o += S + P;
    }
    return true;
  };
  uint32_t n, k;
  if (f.size() < 5 || f.substr(0, 4) != "MRKV" || !u32(n) || !pairs(n) || !u32(k)) return false;
  for (uint32_t i = 0; i < k; ++i)
  {
    if (o + S > f.size()) return false;
    l.symbols.push_back(o);
    o += S;
    if (!u32(n) || !pairs(n)) return false;
  }
  l.size = o;
  return o == f.size();
}

template <class C> static std::string saved(C &chain)
{
  std::ostringstream os;
  chain.saveBinary(os);
  return os.str();
}
template <class C> static typename C::ErrCode load(C &chain, const std::string &f)
{
  std::istringstream is(f);
  const auto rc = chain.loadBinary(is);
  if (chain.errString(rc).empty()) throw mc::Fail{"errstring", "no text for the error code"};
  return rc;
}

static const std::vector<V> Corpora{{}, {"a"}, {"ab"}, {"a", "b", "ab"}, {"ab", "ac", "ad", "ba"}, {"\xc3\xa9" "a", "a\xf0\x9f\x98\x80" "b", "aab", "abab", "\xe2\x82\xac"},
                                    {"a", "a", "a", "b"}, {"abcdefghij"}, {"aaaa", "abab", "bbbb", "z"}};

template <class C> static void train(C &chain, Model &m, const V &words)
{
  for (auto &w : words) { chain.train(w); m.train(w); }
  chain.update();
}

template <class C> static void persistence(const std::string &tag)
{
  const bool T = mc::opt.thorough();
  // all multisets of words: saved, loaded over any other chain, saved again
  mc::explore("roundtrip-" + tag, [&](Ctx &c) {
    const unsigned n = c.choose(T ? 5 : 4);
    V words;
    uint32_t k = 0;
    for (unsigned i = 0; i < n; ++i) { k += c.choose(Words.size() - k); words.push_back(Words[k]); }
    const size_t over = c.choose(4);
    c.shard();
    C chain;
    Model m;
    train(chain, m, words);
    const std::string f = saved(chain);
    C other;
    Model unused;
    if (over == 1) train(other, unused, {"b", "bz", "z"});
    if (over == 2) { C x; Model y; train(x, y, {"zz", "bb"}); load(other, saved(x)); }
    if (over == 3) { train(other, unused, {"ab", "ba"}); load(other, std::string("MRKV\2\5\0\0\0", 9)); }
    const auto rc = load(other, f);
    c.check(rc == C::OK, "refused", "a saved chain is refused with " + other.errString(rc) + "; " + shown(words));
    compare(c, other, m, "loaded; " + shown(words));
    compare(c, chain, m, "after saving; " + shown(words));
    const std::string g = saved(other);
    C third;
    c.check(g.size() == f.size() && load(third, g) == C::OK, "resaved", "the file of the loaded chain is refused or has another size; " + shown(words));
    compare(c, third, m, "saved, loaded, saved and loaded; " + shown(words));
    c.state(mc::hashOf(f + char(over)));
    c.outcome(f);
    if (c.wantNotes()) c.note(shown(words) + " -> " + std::to_string(f.size()) + " bytes");
  });
  // damage
  mc::explore("truncated-" + tag, [&](Ctx &c) {
    const V words = c.pick(Corpora);
    c.shard();
    C chain;
    Model m;
    train(chain, m, words);
    const std::string f = saved(chain);
    for (size_t len = 0; len < f.size(); ++len)
    {
      C x;
      const auto rc = load(x, f.substr(0, len));
      c.step();
      c.state(mc::mix(mc::hashOf(f), len));
      c.outcome(x.errString(rc));
      c.check(rc != C::OK, "truncated", "a file of " + std::to_string(f.size()) + " bytes truncated to " + std::to_string(len) + " is accepted; " + shown(words));
      // the object can be used afterwards
      c.check(load(x, f) == C::OK, "after-damage", "a good file is refused after a damaged one; " + shown(words));
      if (len % 7 == 0) compare(c, x, m, "loaded after a damaged file; " + shown(words));
    }
  });
  mc::explore("substituted-" + tag, [&](Ctx &c) {
    const V words = c.pick(Corpora);
    C chain;
    Model m;
    train(chain, m, words);
    const std::string f = saved(chain);
    const size_t i = c.choose(f.size());
    c.shard();
    for (int b = 0; b < 256; ++b)
    {
      std::string g = f;
      if (g[i] == (char)b) continue;
      g[i] = (char)b;
      C x;
      const auto rc = load(x, g);
      c.step();
      c.outcome(x.errString(rc));
      c.state(mc::mix(mc::hashOf(g), 1));
      if (i < 4) c.check(rc != C::OK, "header", "a wrong header is accepted");
      if (i == 4) c.check(rc != C::OK, "version", "version " + std::to_string(b) + " is accepted");
    }
  });
  mc::explore("impossible-" + tag, [&](Ctx &c) {
    using P = typename C::prob_value_type;
    const V words = c.pick(Corpora);
    C chain;
    Model m;
    train(chain, m, words);
    const std::string f = saved(chain);
    Layout l;
    c.check(layout<C>(f, l), "format", "the saved file has another format; " + shown(words));
    static const std::vector<P> bad{P(-1), P(2), std::nextafter(P(1), P(2)), std::numeric_limits<P>::quiet_NaN(), std::numeric_limits<P>::infinity(), -std::numeric_limits<P>::infinity(),
                                    -std::numeric_limits<P>::denorm_min(), std::numeric_limits<P>::max(), -std::numeric_limits<P>::quiet_NaN(), P(1.5), P(100), P(-0.25)};
    if (!l.probs.empty())
    {
      const size_t slot = c.choose(l.probs.size());
      c.shard();
      for (P b : bad)
      {
        std::string g = f;
        memcpy(&g[l.probs[slot]], &b, sizeof b);
        C x;
        const auto rc = load(x, g);
        c.step();
        c.state(mc::hashOf(g));
        c.check(rc != C::OK, "impossible", "probability " + std::to_string(b) + " in slot " + std::to_string(slot) + " is accepted; " + shown(words));
      }
    }
    // counts that promise more than the file holds
    c.shard();
    for (size_t o : l.counts)
    {
      uint32_t old;
      memcpy(&old, f.data() + o, 4);
      for (uint32_t d : {1u, 2u, 255u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu})
      {
        std::string g = f;
        const uint32_t v = d < 1000 ? old + d : d;
        memcpy(&g[o], &v, 4);
        C x;
        const auto rc = load(x, g);
        c.step();
        c.state(mc::hashOf(g));
        c.outcome(x.errString(rc));
        if (d >= 65536u) c.check(rc != C::OK, "promise", "a count of " + std::to_string(v) + " at " + std::to_string(o) + " is accepted");
      }
    }
  });
  mc::explore("bytes-" + tag, [&](Ctx &c) {
    static const V prefixes{"", "MRKV", "MRKV\2", std::string("MRKV\2\1\0\0\0", 9), std::string("MRKV\2\0\0\0\0", 9), std::string("MRKV\2\0\0\0\0\1\0\0\0", 13)};
    static const std::string alpha("\0\1\2\377M\177", 6);
    const std::string p = c.pick(prefixes);
    const bool shortAll = c.flag();
    std::string s = p;
    if (shortAll)
    {
      const size_t a = c.choose(257);
      c.shard();
      if (a < 256)
      {
        s += (char)a;
        const size_t b = c.choose(257);
        if (b < 256) s += (char)b;
      }
    }
    else
    {
      const unsigned len = c.choose(T ? 9 : 7);
      for (unsigned i = 0; i < len; ++i)
      {
        s += c.pick(alpha);
        if (i == 1) c.shard();
      }
    }
    c.shard();
    C x;
    const auto rc = load(x, s);
    c.step();
    c.state(mc::hashOf(s));
    c.outcome(x.errString(rc));
    if (s.size() < 13) c.check(rc != C::OK, "too-short", "a file of " + std::to_string(s.size()) + " bytes is accepted: " + mc::jstr(s));
    if (s.compare(0, std::min<size_t>(5, s.size()), std::string("MRKV\2").substr(0, std::min<size_t>(5, s.size()))) != 0) c.check(rc != C::OK, "header", "accepted: " + mc::jstr(s));
  });
  // a stream that cannot be read
  mc::explore("streams-" + tag, [&](Ctx &c) {
    const bool eof = c.flag();
    c.shard();
    C x;
    std::istringstream is("MRKV");
    is.setstate(eof ? std::ios::eofbit : std::ios::failbit);
    c.step();
    c.check(x.loadBinary(is) != C::OK, "bad-stream", "a stream in a failed state is accepted");
    std::ifstream none(c.dir() + "/does-not-exist");
    c.check(x.loadBinary(none) != C::OK, "no-file", "a missing file is accepted");
  });
}

// --- C22 -----------------------------------------------------------------
static const unsigned Grid = 64;

template <class F> static void distribution(Ctx &c, const std::map<uint32_t, double> &want, uint64_t denominator, F draw, const std::string &what, double eps)
{
  std::map<uint32_t, uint64_t> hits;
  const uint64_t N = denominator * Grid;
  for (uint64_t i = 0; i < N; ++i)
  {
    controlledRandom = ((double)i + 0.5) / (double)N;
    ++hits[draw()];
  }
  c.step(N);
  for (auto &h : hits)
  {
    auto w = want.find(h.first);
    if (w == want.end() || !(w->second > 0)) c.fail("impossible-symbol", "symbol " + std::to_string(h.first) + " of probability 0 is generated; " + what);
    const double share = (double)h.second / (double)N;
    if (std::fabs(share - w->second) > eps) c.fail("share", "symbol " + std::to_string(h.first) + " is generated for a share of " + std::to_string(share) + " instead of " + std::to_string(w->second) + "; " + what);
  }
  for (auto &w : want)
    if (w.second > eps && !hits.count(w.first)) c.fail("never", "symbol " + std::to_string(w.first) + " of probability " + std::to_string(w.second) + " is never generated; " + what);
  // the borders of the random source and of every interval
  std::vector<double> borders{0.0, std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon(), std::nextafter(1.0, 0.0), std::nextafter(std::nextafter(1.0, 0.0), 0.0), 0.5};
  for (uint64_t k = 0; k <= denominator; ++k)
    for (int d = -2; d <= 2; ++d)
    {
      double v = (double)k / (double)denominator;
      for (int j = 0; j < std::abs(d); ++j) v = std::nextafter(v, d < 0 ? -1.0 : 2.0);
      if (v >= 0 && v < 1) borders.push_back(v);
    }
  for (double b : borders)
  {
    if (eps > 1e-6 && (float)b >= 1.0f) continue; // not in [0,1) for this type
    controlledRandom = b;
    const uint32_t s = draw();
    c.step();
    auto w = want.find(s);
    if (w == want.end() || !(w->second > 0)) c.fail("impossible-symbol", "symbol " + std::to_string(s) + " of probability 0 is generated for the random value " + std::to_string(b) + "; " + what);
  }
}

template <class C> static void distributions(Ctx &c, C &chain, const Model &m, const std::string &how)
{
  const double eps = sizeof(typename C::prob_value_type) == 4 ? 1e-4 : 1e-9;
  uint64_t sum = 0;
  std::map<uint32_t, double> want;
  for (auto &p : m.first) { sum += p.second; want[p.first] = m.firstProb(p.first); }
  if (sum) distribution(c, want, sum, [&] { return (uint32_t)chain.randomFirstSymbol(); }, "first symbol; " + how, eps);
  for (auto &n : m.next)
  {
    sum = 0;
    want.clear();
    for (auto &p : n.second) { sum += p.second; want[p.first] = m.nextProb(n.first, p.first); }
    auto it = chain.nodes().find((typename C::symbol_type)n.first);
    c.check(it != chain.nodes().end(), "no-node", "symbol " + std::to_string(n.first) + " has no successors; " + how);
    distribution(c, want, sum, [&] { return (uint32_t)it->second.randomSuccessor(); }, "successor of " + std::to_string(n.first) + "; " + how, eps);
  }
}

template <class C> static void randomness(const std::string &tag, unsigned N)
{
  mc::explore("random-" + tag, [N](Ctx &c) {
    const unsigned n = c.choose(N) + 1;
    V words;
    uint32_t k = 0;
    for (unsigned i = 0; i < n; ++i)
    {
      k += c.choose(Words.size() - k);
      words.push_back(Words[k]);
    }
    const bool loaded = c.flag();
    const unsigned split = n > 1 ? c.choose(n) : 0; // updated after so many words, too
    c.shard();
    C chain;
    Model m;
    if (split) train(chain, m, V(words.begin(), words.begin() + split));
    train(chain, m, V(words.begin() + split, words.end()));
    c.state(mc::hashOf(shown(words) + char(loaded) + char(split)));
    if (loaded)
    {
      C other;
      c.check(load(other, saved(chain)) == C::OK, "refused", "a saved chain is refused");
      distributions(c, other, m, "loaded; " + shown(words));
    }
    else distributions(c, chain, m, shown(words));
    c.outcome(shown(words));
    if (c.wantNotes()) c.note(shown(words) + (loaded ? " saved and loaded" : ""));
  });
}

// all distributions of counts over k symbols
template <class C> static void weights(const std::string &tag, unsigned maxCount, unsigned symbols, bool random)
{
  mc::explore("weights-" + tag, [=](Ctx &c) {
    C chain;
    Model m;
    std::string how = "counts";
    for (unsigned s = 0; s < symbols; ++s)
    {
      const unsigned n = c.choose(maxCount + 1);
      for (unsigned i = 0; i < n; ++i) { chain.addFirst((typename C::symbol_type)('a' + s)); chain.addPair((typename C::symbol_type)'a', (typename C::symbol_type)('a' + s)); }
      if (n) { m.first['a' + s] += n; m.next['a']['a' + s] += n; }
      how += " " + std::to_string(n);
      if (s == 1) c.shard();
    }
    c.shard();
    chain.update();
    c.state(mc::hashOf(how));
    c.outcome(how);
    if (random) distributions(c, chain, m, how);
    else compare(c, chain, m, how);
    if (c.wantNotes()) c.note(how);
  });
}

// counts that differ by orders of magnitude
template <class C> static void skewed(const std::string &tag)
{
  mc::explore("skewed-" + tag, [=](Ctx &c) {
    static const std::vector<unsigned> counts{0, 1, 3, 1000, 30000};
    C chain;
    Model m;
    std::string how = "counts";
    for (unsigned s = 0; s < 3; ++s)
    {
      const unsigned n = c.pick(counts);
      for (unsigned i = 0; i < n; ++i) { chain.addFirst((typename C::symbol_type)('a' + s)); chain.addPair((typename C::symbol_type)'a', (typename C::symbol_type)('a' + s)); }
      if (n) { m.first['a' + s] += n; m.next['a']['a' + s] += n; }
      how += " " + std::to_string(n);
    }
    const bool loaded = c.flag();
    c.shard();
    chain.update();
    c.state(mc::hashOf(how + char(loaded)));
    c.outcome(how);
    if (loaded)
    {
      C other;
      c.check(load(other, saved(chain)) == C::OK, "refused", "a saved chain is refused");
      distributions(c, other, m, "loaded; " + how);
    }
    else distributions(c, chain, m, how);
  });
}
// numbers of symbols around the limits of narrower types
template <class C> static void manySymbols(const std::string &tag, const std::vector<unsigned> &ns, bool random)
{
  mc::explore("many-symbols-" + tag, [=](Ctx &c) {
    const unsigned n = c.pick(ns);
    const int kind = (int)c.choose(3); // many first symbols, many successors of one symbol, many symbols with one successor each
    const int stage = (int)c.choose(3); // trained, loaded, loaded over another chain
    c.shard();
    C chain;
    Model m;
    for (unsigned i = 0; i < n; ++i)
    {
      const uint32_t sym = 0x100 + i * 3; // some beyond 16 bits
      if (kind == 0) { chain.addFirst((typename C::symbol_type)sym); ++m.first[sym]; }
      if (kind == 1) { chain.addPair((typename C::symbol_type)'a', (typename C::symbol_type)sym); ++m.next['a'][sym]; }
      if (kind == 2) { chain.addPair((typename C::symbol_type)sym, (typename C::symbol_type)(sym + 1)); ++m.next[sym][sym + 1]; }
    }
    chain.update();
    const std::string how = std::to_string(n) + " symbols of kind " + std::to_string(kind);
    c.state(mc::hashOf(how + char(stage)));
    c.outcome(how);
    C other;
    if (stage == 2)
    {
      Model unused;
      train(other, unused, {"b", "bz", "z"});
    }
    if (stage) c.check(load(other, saved(chain)) == C::OK, "refused", "a saved chain is refused; " + how);
    if (n > 5000)
    {
      C &x = stage ? other : chain;
      std::set<uint32_t> seen;
      const double p = kind == 2 ? 1.0 : 1.0 / n;
      c.check(x.firstSymbolProbs().size() == (kind == 0 ? n : 0) && x.nodes().size() == (kind == 0 ? 0 : kind == 1 ? 1 : n), "number", "wrong number of symbols; " + how);
      if (kind == 0) for (auto &e : x.firstSymbolProbs()) c.check(near((double)e.second, p, 1e-12) && m.first.count((uint32_t)e.first) && seen.insert((uint32_t)e.first).second, "first", "wrong first symbol; " + how);
      for (auto &node : x.nodes())
      {
        c.check(node.second.successors().size() == (kind == 1 ? n : 1), "number", "wrong number of successors; " + how);
        for (auto &e : node.second.successors())
          c.check(near((double)e.second, p, 1e-12) && m.next[(uint32_t)node.first].count((uint32_t)e.first), "successor", "wrong successor; " + how);
        c.check(node.second.sortedSuccessors().size() == node.second.successors().size(), "sorted", "wrong sorted successors; " + how);
      }
    }
    else if (random && kind < 2) distributions(c, stage ? other : chain, m, how);
    else compare(c, stage ? other : chain, m, how);
  });
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  const bool T = mc::opt.thorough();
  if (mc::opt.prop == "C20")
  {
    histories<Chain>("histories-double", T ? 6 : 4);
    histories<ChainF>("histories-float", T ? 5 : 3);
    weights<Chain>("double", T ? 9 : 5, 4, false);
    manySymbols<Chain>("double", {255, 256, 257, 4096, 65535, 65536, 65537}, false);
    // incremental training: any split of a long corpus by updates gives the same
    mc::explore("splits", [&](Ctx &c) {
      V words{"ab", "ba", "aab", "b", "a", "abab", "\xc3\xa9" "a", "ab"};
      if (c.flag()) std::reverse(words.begin(), words.end());
      Chain chain;
      Model m;
      std::string how;
      for (size_t i = 0; i < words.size(); ++i)
      {
        chain.train(words[i]);
        m.train(words[i]);
        how += words[i] + " ";
        const uint32_t u = c.choose(3);
        if (i == 2) c.shard();
        for (uint32_t k = 0; k < u; ++k) chain.update();
        if (u) { how += "update "; compare(c, chain, m, how); }
      }
      chain.update();
      compare(c, chain, m, how);
      c.state(mc::hashOf(how));
      c.outcome(how);
    });
    mc::explore("long", [&](Ctx &c) {
      const size_t len = c.pick(std::vector<size_t>{1, 2, 3, 100, 199, 200, 1000});
      c.shard();
      std::string w;
      for (size_t i = 0; i < len; ++i) w += "ab"[i % 2];
      Chain chain;
      Model m;
      const unsigned n = c.pick(std::vector<unsigned>{1, 2, 1000, 70000});
      for (unsigned i = 0; i < (len < 200 ? n : 1); ++i) { chain.train(w); m.train(w); }
      chain.train("b");
      m.train("b");
      chain.update();
      compare(c, chain, m, std::to_string(len) + " symbols");
    });
    if (T)
    {
      mc::ExploreOpts o;
      o.hang = 900;
      mc::explore("beyond-32-bit", [&](Ctx &c) {
        // sums beyond 2^32
        c.shard();
        Chain chain;
        Model m;
        const uint64_t n = (1ull << 32) + 5;
        mk::Node<wchar_t, double> node;
        for (uint64_t i = 0; i < n; ++i) node.increment(L'a');
        for (int i = 0; i < 3; ++i) node.increment(L'b');
        node.update();
        c.step();
        c.check(near(node.probability(L'a'), (double)n / (double)(n + 3), 1e-12) && near(node.probability(L'b'), 3.0 / (double)(n + 3), 1e-12), "overflow", "probabilities beyond 2^32 are wrong");
      }, o);
    }
  }
  else if (mc::opt.prop == "C21")
  {
    persistence<Chain>("double");
    persistence<ChainF>("float");
    manySymbols<Chain>("double", {255, 256, 257, 4096, 65535, 65536, 65537}, false);
  }
  else if (mc::opt.prop == "C22")
  {
    randomness<Chain>("double", T ? 6 : 4);
    randomness<ChainF>("float", T ? 4 : 3);
    weights<Chain>("double", T ? 8 : 5, T ? 5 : 4, true);
    weights<ChainF>("float", T ? 6 : 4, 3, true);
    skewed<Chain>("double");
    manySymbols<Chain>("double", {255, 256, 257, 700}, true);
    // loaded probabilities that no training yields, among them 0
    mc::explore("loaded-weights", [&](Ctx &c) {
      std::string list;
      std::map<uint32_t, double> want;
      unsigned sum = 0;
      std::vector<unsigned> w;
      for (unsigned s = 0; s < 4; ++s) { w.push_back(c.choose(9)); sum += w.back(); if (s == 1) c.shard(); }
      c.shard();
      if (sum != 8) return;
      auto u32 = [&](std::string &o, uint32_t v) { o.append((const char *)&v, 4); };
      uint32_t n = 0;
      for (unsigned s = 0; s < 4; ++s)
      {
        const double p = w[s] / 8.0;
        u32(list, 'a' + s);
        list.append((const char *)&p, 8);
        want['a' + s] = p;
        ++n;
      }
      std::string f = "MRKV\2";
      u32(f, n);
      f += list;
      u32(f, 1);
      u32(f, 'a');
      u32(f, n);
      f += list;
      Chain chain;
      c.check(load(chain, f) == Chain::OK, "refused", "a valid file is refused");
      distribution(c, want, 8, [&] { return (uint32_t)chain.randomFirstSymbol(); }, "loaded first symbols", 1e-9);
      auto it = chain.nodes().find(L'a');
      distribution(c, want, 8, [&] { return (uint32_t)it->second.randomSuccessor(); }, "loaded successors", 1e-9);
      c.state(mc::hashOf(f));
      c.outcome(f);
    });
  }
  return mc::finish();
}
