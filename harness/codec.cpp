// C04 hash codec and order, C05 record format, C26 formatting.
#include <cmath>
#include <cstdarg>
#include "../common/mc.hpp"
#include "../common/util.hpp"
#include <pwned-lib/hash.hpp>
#include <pwned-lib/passwordhashandcount.hpp>
#include <pwned-lib/util.hpp>

using mc::Ctx;
using pwned::Hash;
typedef std::pair<uint64_t, uint64_t> H;

static int hexVal(unsigned char c)
{
  static const std::string d = "0123456789abcdef";
  if (c >= 'A' && c <= 'F') c = (unsigned char)(c + 32);
  size_t p = d.find((char)c);
  return c != 0 && p != std::string::npos ? (int)p : -1;
}
static bool refParse(const std::string &t, H &h)
{
  if (t.size() != 32) return false;
  h = {0, 0};
  for (size_t i = 0; i < 32; ++i)
  {
    int v = hexVal((unsigned char)t[i]);
    if (v < 0) return false;
    uint64_t &q = i < 16 ? h.first : h.second;
    q = q << 4 | (uint64_t)v;
  }
  return true;
}
static std::string upper(std::string s)
{
  for (char &c : s) if (c >= 'a' && c <= 'z') c = char(c - 32);
  return s;
}
static void checkText(Ctx &c, const std::string &t)
{
  H want;
  const bool ok = refParse(t, want);
  const Hash h = Hash::fromHex(t);
  c.step();
  if (h.isValid != ok) c.fail("parse", "text " + mc::jstr(t) + (ok ? " is refused" : " is accepted"));
  if (!ok) return;
  if (h.quad.upper != want.first || h.quad.lower != want.second) c.fail("parse-value", "text " + t + " is read as " + h.toString());
  const std::string low = refHex(want);
  if (h.toString() != low || h.toString(false) != low) c.fail("text", "text of " + t + " is " + h.toString());
  if (h.toString(true) != upper(low)) c.fail("text-upper", "upper case text of " + t + " is " + h.toString(true));
  std::ostringstream os;
  os << h;
  if (os.str() != low) c.fail("text-stream", "streamed text of " + t + " is " + os.str());
}

static void c04(bool th)
{
  static const std::vector<std::string> bases = {"00000000000000000000000000000000", "ffffffffffffffffffffffffffffffff", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF",
                                                 "0123456789abcdefFEDCBA9876543210", "00000000000000010000000000000001", "80000000000000007fffffffffffffff"};
  mc::explore("every-byte-everywhere", [&](Ctx &c) {
    std::string t = c.pick(bases);
    const size_t p = c.choose(32);
    c.shard();
    for (int b = 0; b < 256; ++b)
    {
      std::string u = t;
      u[p] = char(b);
      checkText(c, u);
      c.state(mc::hashOf(u));
    }
  });
  mc::explore("every-byte-pair", [&](Ctx &c) {
    std::string t = bases[3];
    const size_t p = c.choose(31);
    const int b0 = (int)c.choose(256);
    c.shard();
    for (int b = 0; b < 256; ++b)
    {
      t[p] = char(b0);
      t[p + 1] = char(b);
      checkText(c, t);
    }
    c.state(mc::mix(p, (uint64_t)b0));
  });
  mc::explore("lengths", [&](Ctx &c) {
    const size_t n = c.choose(100);
    static const std::vector<std::string> fill = {"0", "f", "A", "0123456789abcdef", "aG", "0 "};
    const std::string f = c.pick(fill);
    c.shard();
    std::string t;
    while (t.size() < n) t += f[t.size() % f.size()];
    checkText(c, t);
    checkText(c, t + std::string(1, '\0'));
    c.state(mc::hashOf(t));
  });
  mc::explore("digest", [&](Ctx &c) {
    const size_t n = c.choose(th ? 2000 : 400);
    const int pat = c.choose(6);
    c.shard();
    std::string s;
    for (size_t i = 0; i < n; ++i) s += char(pat == 0 ? 'a' : pat == 1 ? 0 : pat == 2 ? 0xff : pat == 3 ? i : pat == 4 ? i * 37 + 11 : (i % 7 ? 'x' : '\n'));
    const H want = refHash(s);
    const Hash h(s);
    c.step();
    c.check(h.isValid && h.quad.upper == want.first && h.quad.lower == want.second, "digest", "digest of a text of " + std::to_string(n) + " bytes is " + h.toString() + " instead of " + refHex(want));
    c.check(h.toString() == refHex(want), "digest-text", "text of a digest differs");
    const Hash r = Hash::fromHex(h.toString(pat % 2 == 0));
    c.check(r == h && !(r != h) && r.isValid, "round-trip", "reading the text of " + h.toString() + " gives another hash");
    c.state(mc::hashOf(s));
  });
  mc::explore("digest-long", [&](Ctx &c) {
    const size_t n = c.pick(std::vector<size_t>{4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 65600, 131072, 1000003, 16777216});
    const int pat = (int)c.choose(3);
    c.shard();
    std::string s(n, 'a');
    if (pat) for (size_t i = 0; i < n; ++i) s[i] = char(pat == 1 ? i * 37 + 11 : 0);
    const Hash h(s);
    c.step();
    c.check(h.toString() == refHex(refHash(s)), "digest", "digest of a text of " + std::to_string(n) + " bytes is " + h.toString());
    c.state(mc::hashOf(std::to_string(n) + char(pat)));
  });
  mc::explore("digest-two-bytes", [&](Ctx &c) {
    const int a = (int)c.choose(256);
    c.shard();
    for (int b = -1; b < 256; ++b)
    {
      std::string s(1, char(a));
      if (b >= 0) s += char(b);
      const H want = refHash(s);
      const Hash h(s);
      c.step();
      if (h.toString() != refHex(want)) c.fail("digest", "digest of " + mc::jstr(s) + " is " + h.toString());
      c.state(mc::hashOf(s));
    }
  });
  static const std::vector<uint64_t> halves = {0, 1, 2, 0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xfffffffffffffffeULL, ~0ULL, 0x00000000ffffffffULL, 0xffffffff00000000ULL};
  mc::explore("order", [&](Ctx &c) {
    const H a{c.pick(halves), c.pick(halves)}, b{c.pick(halves), c.pick(halves)};
    c.shard();
    const Hash x(a.first, a.second), y(b.first, b.second);
    c.step();
    c.state(mc::mix(mc::mix(a.first, a.second), mc::mix(b.first, b.second)));
    const std::string who = x.toString() + " and " + y.toString();
    c.check((x == y) == (a == b), "==", "== is wrong for " + who);
    c.check((x != y) == (a != b), "!=", "!= is wrong for " + who);
    c.check((x < y) == (a < b), "<", "< is wrong for " + who);
    c.check((x <= y) == (a <= b), "<=", "<= is wrong for " + who);
    c.check((x > y) == (a > b), ">", "> is wrong for " + who);
    c.check((x >= y) == (a >= b), ">=", ">= is wrong for " + who);
    c.check((x.toString() < y.toString()) == (x < y), "text-order", "order of texts disagrees for " + who);
    c.check(pwned::HashLess()(x, y) == (a < b), "HashLess", "HashLess is wrong for " + who);
    c.check(pwned::PasswordHashAndCountLess()(pwned::PHC(x, 9), pwned::PHC(y, 1)) == (a < b), "record-order", "order of records is wrong for " + who);
    c.check((pwned::PHC(x, 9) == pwned::PHC(y, 1)) == (a == b), "record-equality", "equality of records is wrong for " + who);
    Hash z(x), w;
    w = y;
    c.check(z == x && w == y && (z < w) == (a < b), "copy", "copies differ for " + who);
  });
  mc::explore("decode-digit", [&](Ctx &c) {
    const int b = (int)c.choose(256);
    c.shard();
    c.step();
    c.state((uint64_t)b);
    c.check(pwned::decodeHex(char(b)) == hexVal((unsigned char)b), "digit", "value of digit " + std::to_string(b) + " is " + std::to_string(pwned::decodeHex(char(b))));
  });
  auto seq = [](Ctx &c, const std::string &t) {
    std::string got = "previous content", want;
    bool ok = t.size() % 2 == 0;
    for (size_t i = 0; ok && i < t.size(); i += 2)
    {
      int a = hexVal((unsigned char)t[i]), b = hexVal((unsigned char)t[i + 1]);
      if (a < 0 || b < 0) ok = false;
      else want += char(a * 16 + b);
    }
    const bool r = pwned::hexToCharSeq(t, got);
    c.step();
    c.state(mc::hashOf(t));
    if (r != ok) c.fail("sequence", "sequence " + mc::jstr(t) + (ok ? " is refused" : " is accepted"));
    if (ok && got != want) c.fail("sequence-value", "sequence " + mc::jstr(t) + " is decoded to " + mc::jstr(got));
  };
  mc::explore("sequences", [&](Ctx &c) {
    static const std::string al("09afAFgG/:@` \0\xff\x30", 15);
    const size_t n = c.choose(th ? 7 : 6);
    std::string t;
    for (size_t i = 0; i < n; ++i)
    {
      t += al[c.choose(i < 4 ? al.size() : 7)];
      if (i == 1) c.shard();
    }
    seq(c, t);
  });
  mc::explore("sequence-bytes", [&](Ctx &c) {
    const int a = (int)c.choose(256);
    c.shard();
    for (int b = 0; b < 256; ++b) seq(c, std::string(1, char(a)) + char(b));
    for (size_t n = 0; n < 70; ++n) seq(c, std::string(n, char(a)));
  });
}

static void c05(bool th)
{
  static const std::vector<H> hashes = {{0, 0}, {1, ~0ULL}, {0x0102030405060708ULL, 0x090a0b0c0d0e0f10ULL}, {~0ULL, ~0ULL}, {0x1a1a1a1a0a0d0a0dULL, 0x80ff00ffULL}};
  static const std::vector<uint32_t> counts = {0, 1, 255, 256, 0x0d0a0d0au, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  mc::explore("bytes", [&](Ctx &c) {
    const H h = c.pick(hashes);
    const uint32_t n = c.pick(counts);
    c.shard();
    const std::string f = c.dir() + "/r";
    {
      std::ofstream o(f, std::ios::binary | std::ios::trunc);
      pwned::PHC(Hash(h.first, h.second), n).dump(o);
    }
    c.step();
    c.check(slurp(f) == record(h, n), "layout", "record of " + refHex(h) + " with count " + std::to_string(n) + " has other bytes than defined");
    c.check(pwned::PHC::size == 20, "layout", "record size");
    std::istringstream is(record(h, n));
    Hash only;
    c.check(only.read(is) && only.quad.upper == h.first && only.quad.lower == h.second, "hash-read", "hash read alone");
    c.state(mc::mix(mc::hashOf(refHex(h)), n));
  });
  mc::explore("sequences", [&](Ctx &c) {
    const size_t n = c.choose(th ? 5 : 4);
    std::vector<std::pair<H, uint32_t>> recs;
    for (size_t i = 0; i < n; ++i) recs.push_back({c.pick(hashes), counts[(c.choose(2) * 5 + i * 2 + 1) % counts.size()]});
    c.shard();
    const std::string f = c.dir() + "/r";
    {
      std::ofstream o(f, std::ios::binary | std::ios::trunc);
      for (auto &r : recs) pwned::PHC(Hash(r.first.first, r.first.second), r.second).dump(o);
    }
    std::string all = slurp(f);
    c.check(all.size() == n * 20, "layout", "sequence of records has " + std::to_string(all.size()) + " bytes");
    for (size_t len = 0; len <= all.size(); ++len)
    {
      std::istringstream is(all.substr(0, len));
      size_t k = 0;
      pwned::PHC p;
      for (; k <= n; ++k)
      {
        const bool ok = p.read(is);
        c.step();
        const bool want = (k + 1) * 20 <= len;
        if (ok != want) c.fail("short-read", "read of record " + std::to_string(k) + " of " + std::to_string(len) + " bytes reports " + std::to_string(ok));
        if (!ok) break;
        if (p.hash.quad.upper != recs[k].first.first || p.hash.quad.lower != recs[k].first.second || p.count != recs[k].second)
          c.fail("content", "record " + std::to_string(k) + " differs after reading");
      }
      c.state(mc::mix(mc::hashOf(all), len));
      // the hash alone
      std::istringstream hs(all.substr(0, len));
      Hash h;
      c.check(h.read(hs) == (len >= 16), "short-read", "hash read from " + std::to_string(len) + " bytes");
    }
    // by position: all orders of three reads, any of them possibly incomplete
    std::ifstream in(f, std::ios::binary);
    pwned::PHC p;
    Hash h;
    for (size_t i = 0; i <= n; ++i)
      for (size_t j = 0; j <= n; ++j)
        for (size_t k = 0; k <= n; ++k)
          for (size_t pos : {i, j, k})
          {
            const bool ok = p.read(in, std::streamoff(pos * 20));
            c.step();
            if (ok != (pos < n)) c.fail("position", "read at record " + std::to_string(pos) + " of " + std::to_string(n) + " reports " + std::to_string(ok));
            if (ok && (p.hash.quad.upper != recs[pos].first.first || p.hash.quad.lower != recs[pos].first.second || p.count != recs[pos].second))
              c.fail("position-content", "record " + std::to_string(pos) + " differs after reading by position");
            in.clear();
            const bool hok = h.read(in, std::streamoff(pos * 20));
            if (hok != (pos < n)) c.fail("position", "hash read at record " + std::to_string(pos) + " reports " + std::to_string(hok));
            if (hok && (h.quad.upper != recs[pos].first.first || h.quad.lower != recs[pos].first.second)) c.fail("position-content", "hash " + std::to_string(pos) + " differs");
            in.clear();
          }
    // positions inside of records, up to the end
    for (size_t off = 0; off <= all.size(); ++off)
    {
      const bool ok = p.read(in, std::streamoff(off));
      c.step();
      if (ok != (off + 20 <= all.size())) c.fail("short-read", "read at byte " + std::to_string(off) + " of " + std::to_string(all.size()) + " reports " + std::to_string(ok));
      in.clear();
    }
  });
}

static std::string fmt(const char *f, ...)
{
  char *p = nullptr;
  va_list ap;
  va_start(ap, f);
  if (vasprintf(&p, f, ap) < 0) abort();
  va_end(ap);
  std::string s(p);
  free(p);
  return s;
}

static void c26(bool th)
{
  static const std::vector<double> frac = {0, 0.0001, 0.25, 0.4999, 0.5001, 0.75, 0.9999};
  mc::explore("durations", [&](Ctx &c) {
    const long long block = c.choose(th ? 9000 : 1800);
    c.shard();
    // blocks of 300 seconds over several days; the last blocks reach 10000 days
    for (long long s = block * 300; s < block * 300 + 300; ++s)
      for (double f : frac)
      {
        const double t = (double)s + f;
        const std::string got = pwned::readableTime(t);
        std::string want;
        if (t < 60) want = fmt("%.4fs", t);
        else
        {
          const long long r = s + (f > 0.5 ? 1 : 0);
          const long long d = r / 86400, h = r / 3600 % 24, m = r / 60 % 60, x = r % 60;
          want = d ? fmt("%lldd %lldh %lldm %llds", d, h, m, x) : h ? fmt("%lldh %lldm %llds", h, m, x) : fmt("%lldm %llds", m, x);
        }
        c.step();
        if (got != want) c.fail("duration", fmt("%.4f s is printed as '%s' instead of '%s'", t, got.c_str(), want.c_str()));
      }
    c.state((uint64_t)block);
  });
  mc::explore("long-durations", [&](Ctx &c) {
    const long long days = c.choose(400) * 97 + 1;
    c.shard();
    for (long long d : {-2LL, -1LL, 0LL, 1LL, 59LL, 60LL, 61LL, 3599LL, 3600LL, 3601LL, 86398LL})
    {
      const long long r = days * 86400 + d;
      const std::string got = pwned::readableTime((double)r), want = r / 86400 ? fmt("%lldd %lldh %lldm %llds", r / 86400, r / 3600 % 24, r / 60 % 60, r % 60) : fmt("%lldh %lldm %llds", r / 3600 % 24, r / 60 % 60, r % 60);
      c.step();
      c.state((uint64_t)r);
      if (got != want) c.fail("duration", fmt("%lld s is printed as '%s' instead of '%s'", r, got.c_str(), want.c_str()));
    }
  });
  mc::explore("seconds", [&](Ctx &c) {
    const int ms = (int)c.choose(600);
    c.shard();
    for (int k = 0; k < 100; ++k)
    {
      const double t = ms / 10.0 + k / 1000.0;
      if (t >= 60) break;
      const std::string got = pwned::readableTime(t), want = fmt("%.4fs", t);
      c.step();
      if (got != want) c.fail("duration", "'" + got + "' instead of '" + want + "'");
    }
    c.state((uint64_t)ms);
  });
  auto size = [](Ctx &c, uint64_t n) {
    const std::string got = pwned::readableSize(n);
    std::string want;
    const double d = (double)n, K = 1024;
    if (n > (1ULL << 40)) want = fmt("%.1f TB", d / K / K / K / K);
    else if (n > (1ULL << 30)) want = fmt("%.1f GB", d / K / K / K);
    else if (n > (1ULL << 20)) want = fmt("%.1f MB", d / K / K);
    else if (n > 1024) want = fmt("%.1f KB", d / K);
    else want = fmt("%llu B", (unsigned long long)n);
    c.step();
    c.state(n);
    if (got != want) c.fail("size", std::to_string(n) + " bytes are printed as '" + got + "' instead of '" + want + "'");
  };
  mc::explore("sizes", [&](Ctx &c) {
    const uint64_t k = c.choose(64 * 5);
    c.shard();
    const uint64_t b = (1ULL << (k / 5)) / 4 * (4 + k % 5); // 1, 1.25, 1.5, 1.75, 2 times a power of two
    for (uint64_t d = 0; d < 200; ++d) { size(c, b + d); if (b >= d) size(c, b - d); }
  });
  mc::explore("small-sizes", [&](Ctx &c) {
    const uint64_t k = c.choose(th ? 2000 : 200);
    c.shard();
    for (uint64_t d = 0; d < 1000; ++d) size(c, k * 1000 + d);
  });
  mc::explore("formats", [&](Ctx &c) {
    const size_t n = c.choose(th ? 1500 : 300);
    const int f = c.choose(8);
    c.shard();
    const std::string s(n, 'x'), e(n % 64, 'y');
    std::string got, want;
    switch (f)
    {
    case 0: got = pwned::string_format("%s", s.c_str()); want = s; break;
    case 1: got = pwned::string_format(s.empty() ? "" : s); want = s; break;
    case 2: got = pwned::string_format("%s%s", s.c_str(), e.c_str()); want = s + e; break;
    case 3: got = pwned::string_format("a%sb%dc", s.c_str(), (int)n); want = fmt("a%sb%dc", s.c_str(), (int)n); break;
    case 4: got = pwned::string_format("%*d", (int)n, 42); want = fmt("%*d", (int)n, 42); break;
    case 5: got = pwned::string_format("%.*f", (int)n % 100, 1.0 / 3 + (double)n); want = fmt("%.*f", (int)n % 100, 1.0 / 3 + (double)n); break;
    case 6: got = pwned::string_format("-%04x", (int)n * 4099); want = fmt("-%04x", (int)n * 4099); break;
    case 7: got = pwned::string_format("%%%c%%" + e + "%s", 'z', s.c_str()); want = fmt(("%%%c%%" + e + "%s").c_str(), 'z', s.c_str()); break;
    }
    c.step();
    c.state(mc::mix(n, (uint64_t)f));
    if (got != want) c.fail("format", "formatting gives '" + got + "' instead of '" + want + "'");
  });
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  const bool th = mc::opt.thorough();
  if (mc::opt.prop == "C04") c04(th);
  if (mc::opt.prop == "C05") c05(th);
  if (mc::opt.prop == "C26") c26(th);
  return mc::finish();
}
