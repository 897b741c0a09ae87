// C01, C02, C03: lookups against a reference model over all small databases.
#include <cmath>
#include <memory>
#include "../common/mc.hpp"
#include "../common/util.hpp"
#include <pwned-lib/passwordinspector.hpp>

using mc::Ctx;
using pwned::Hash;
using pwned::PasswordInspector;
typedef std::pair<uint64_t, uint64_t> H;
struct Rec { H h; uint32_t n; };

static const uint64_t MAX = ~0ULL;

static std::string encode(const std::vector<Rec> &db, size_t tail)
{
  std::string s;
  for (auto &r : db)
  {
    s.append((const char *)&r.h.first, 8);
    s.append((const char *)&r.h.second, 8);
    s.append((const char *)&r.n, 4);
  }
  // an incomplete record that looks like the beginning of a plausible one
  static const unsigned char junk[20] = {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 9, 9};
  s.append((const char *)junk, tail);
  return s;
}
static std::string hs(const H &h)
{
  char b[40];
  snprintf(b, sizeof b, "%016" PRIx64 ".%016" PRIx64, h.first, h.second);
  return b;
}
static uint32_t ref(const std::vector<Rec> &db, const H &q)
{
  for (auto &r : db) if (r.h == q) return r.n;
  return 0;
}
static std::string dbs(const std::vector<Rec> &db)
{
  std::string s = "{";
  for (auto &r : db) s += hs(r.h) + ":" + std::to_string(r.n) + " ";
  return s + "}";
}

enum Kind { Plain, Smart };
static void query(Ctx &c, PasswordInspector &insp, const std::vector<Rec> &db, const H &q, Kind kind, const char *what)
{
  int reads = -1;
  pwned::PHC r = kind == Plain ? insp.binsearch(Hash(q.first, q.second), &reads) : insp.smart_binsearch(Hash(q.first, q.second), &reads);
  const uint32_t want = ref(db, q);
  c.step();
  c.state(mc::mix(mc::mix(mc::hashOf(dbs(db)), mc::hashOf(hs(q))), kind));
  c.outcome((r.count ? "found" : "none") + std::to_string(reads));
  if (c.wantNotes()) c.note(std::string(what) + (kind == Plain ? " lookup " : " smart lookup ") + hs(q) + " -> " + std::to_string(r.count));
  if (r.count != want)
    c.fail("count", std::string(what) + (kind == Plain ? ": plain" : ": smart") + " lookup of " + hs(q) + " in " + dbs(db) + " gives " + std::to_string(r.count) + " instead of " + std::to_string(want));
  if (want && (r.hash.quad.upper != q.first || r.hash.quad.lower != q.second))
    c.fail("hash", std::string(what) + ": lookup of " + hs(q) + " in " + dbs(db) + " returns the hash of another record");
}

// values of a "half" with neighbours, extremes and equal parts
static const std::vector<H> A8 = {
    {0, 0}, {0, MAX}, {1, 5}, {0x7fffffffffffffffULL, 3}, {0x8000000000000000ULL, 0}, {0x8000000000000000ULL, 1}, {MAX, 0}, {MAX, MAX}};

static std::vector<H> around(const std::vector<H> &a)
{
  std::set<H> s;
  for (auto &h : a)
  {
    s.insert(h);
    s.insert({h.first, h.second + 1});
    s.insert({h.first, h.second - 1});
    s.insert({h.first + 1, h.second});
    s.insert({h.first - 1, h.second});
  }
  return {s.begin(), s.end()};
}

static std::vector<Rec> pickDb(Ctx &c, const std::vector<H> &alpha, size_t maxn, const std::vector<uint32_t> &counts, bool varyCounts)
{
  // all subsets of the alphabet of at most maxn elements
  std::vector<Rec> db;
  for (size_t i = 0; i < alpha.size() && db.size() < maxn; ++i)
    if (c.flag()) db.push_back({alpha[i], 0});
  if (varyCounts)
    for (auto &r : db) r.n = c.pick(counts);
  else
  {
    const size_t first = c.choose(counts.size());
    for (size_t i = 0; i < db.size(); ++i) db[i].n = counts[(first + i) % counts.size()];
  }
  return db;
}

static void c01(bool th)
{
  const std::vector<uint32_t> counts = {1, 2, 255, 65536, 0x7fffffffu, 0x80000000u, 0xffffffffu};
  const std::vector<H> Q = around(A8);
  // (1) every database x every query on a fresh object, every incomplete tail
  mc::explore("all-databases", [&](Ctx &c) {
    auto db = pickDb(c, A8, 8, counts, false);
    c.shard();
    const size_t tail = c.choose(20);
    const std::string f = c.dir() + "/db";
    spit(f, encode(db, tail));
    if (c.wantNotes()) c.note("db " + dbs(db) + " tail " + std::to_string(tail));
    PasswordInspector insp(f);
    c.check(insp.size() == db.size(), "size", "size() is " + std::to_string(insp.size()) + " for " + dbs(db));
    for (auto &q : Q) query(c, insp, db, q, Plain, "fresh");
  });
  // (2) each count at each place
  mc::explore("all-counts", [&](Ctx &c) {
    auto db = pickDb(c, {A8[0], A8[2], A8[5], A8[7]}, th ? 4 : 3, counts, true);
    c.shard();
    const std::string f = c.dir() + "/db";
    spit(f, encode(db, 0));
    PasswordInspector insp(f);
    for (auto &q : A8) query(c, insp, db, q, Plain, "fresh");
  });
  // (3) histories: all sequences of lookups and re-openings on one object
  const std::vector<std::vector<Rec>> dbsAll = {
      {}, {{A8[0], 7}}, {{A8[7], 9}}, {{A8[2], 1}, {A8[5], 2}}, {{A8[0], 3}, {A8[2], 4}, {A8[4], 5}, {A8[5], 6}, {A8[7], 8}}};
  const std::vector<H> qs = {A8[0], A8[2], A8[5], A8[7], {5, 5}};
  const size_t depth = th ? 6 : 5;
  mc::explore("histories", [&](Ctx &c) {
    size_t cur = c.choose(dbsAll.size());
    const size_t tail = 7 * c.choose(2);
    std::vector<std::string> files;
    std::vector<uint32_t> ops;
    for (size_t i = 0; i < 2; ++i) ops.push_back(c.choose(qs.size() + 1));
    c.shard();
    for (size_t i = 0; i < dbsAll.size(); ++i)
    {
      files.push_back(c.dir() + "/h" + std::to_string(i) + (tail ? "t" : ""));
      if (access(files.back().c_str(), F_OK)) spit(files.back(), encode(dbsAll[i], tail));
    }
    PasswordInspector insp(files[cur]);
    for (size_t i = 0; i < depth; ++i)
    {
      const uint32_t op = i < ops.size() ? ops[i] : c.choose(qs.size() + 1);
      if (op < qs.size()) query(c, insp, dbsAll[cur], qs[op], Plain, "history");
      else
      {
        cur = c.choose(dbsAll.size());
        c.step();
        if (c.wantNotes()) c.note("open " + dbs(dbsAll[cur]));
        c.check(insp.open(files[cur]), "open", "cannot open again");
        c.check(insp.size() == dbsAll[cur].size(), "size", "size() after opening again is " + std::to_string(insp.size()));
      }
    }
  });
  // (4) equidistant databases of every size, every record and gap looked up
  mc::explore("all-sizes", [&](Ctx &c) {
    const size_t n = c.choose(th ? 2100 : 700);
    c.shard();
    std::vector<Rec> db;
    for (size_t i = 0; i < n; ++i) db.push_back({{(i / 3 + 1) * 0x1000ULL, (i % 3) * 10}, uint32_t(i + 1)});
    const std::string f = c.dir() + "/db";
    spit(f, encode(db, n % 20));
    PasswordInspector insp(f);
    int maxReads = 0;
    for (size_t i = 0; i < n; ++i)
    {
      int reads = 0;
      const pwned::PHC r = insp.binsearch(Hash(db[i].h.first, db[i].h.second), &reads);
      maxReads = std::max(maxReads, reads);
      c.step();
      if (r.count != db[i].n) c.fail("count", "record " + std::to_string(i) + " of " + std::to_string(n) + ": count " + std::to_string(r.count));
      const pwned::PHC m = insp.binsearch(Hash(db[i].h.first, db[i].h.second + 1));
      c.step();
      if (m.count != 0) c.fail("count", "gap behind record " + std::to_string(i) + " of " + std::to_string(n) + ": count " + std::to_string(m.count));
    }
    const pwned::PHC z = insp.binsearch(Hash(0, 0));
    c.check(z.count == 0, "count", "hash before the first record of " + std::to_string(n) + " found");
    c.state(n);
  });
  // (5) sparse files beyond 2 and 4 GiB: records in all border positions; the
  // zeros in between are records with hash 0 and count 0, so only the upper
  // part is filled: {0...0} x many, then a few real records
  mc::explore("large-files", [&](Ctx &c) {
    static const std::vector<uint64_t> sizes = {0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x200000000ULL, 0x300000000ULL};
    const uint64_t base = c.pick(sizes) / 20 * 20;
    const size_t extra = c.choose(4) + 1;
    const size_t tail = c.choose(2) * 19;
    c.shard();
    const std::string f = c.dir() + "/big";
    std::vector<Rec> db;
    for (size_t i = 0; i < extra; ++i) db.push_back({{0x10 + i, 7}, uint32_t(40 + i)});
    {
      int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666);
      const std::string e = encode(db, tail);
      if (::pwrite(fd, e.data(), e.size(), (off_t)base) != (ssize_t)e.size()) throw std::runtime_error("scratch file system full");
      ::close(fd);
    }
    PasswordInspector insp(f);
    c.check(insp.size() == base / 20 + extra, "size", "size of a large database is " + std::to_string(insp.size()));
    for (auto &r : db) query(c, insp, db, r.h, Plain, "large");
    query(c, insp, db, {0xf, 0}, Plain, "large");
    query(c, insp, db, {MAX, MAX}, Plain, "large");
    query(c, insp, db, {0x10, 8}, Plain, "large");
    ::unlink(f.c_str());
  });
  // (6) two objects over different databases, used in any order: an object
  // may keep nothing that another one sees
  mc::explore("two-objects", [&](Ctx &c) {
    const size_t d0 = c.choose(dbsAll.size());
    size_t cur[2] = {d0, c.choose(dbsAll.size())};
    uint32_t first[2];
    first[0] = c.choose(2 * qs.size() + 2);
    first[1] = c.choose(2 * qs.size() + 2);
    c.shard();
    std::vector<std::string> files;
    for (size_t i = 0; i < dbsAll.size(); ++i)
    {
      files.push_back(c.dir() + "/o" + std::to_string(i));
      if (access(files.back().c_str(), F_OK)) spit(files.back(), encode(dbsAll[i], i));
    }
    std::unique_ptr<PasswordInspector> insp[2];
    for (int i = 0; i < 2; ++i) insp[i].reset(new PasswordInspector(files[cur[i]]));
    for (size_t i = 0; i < (th ? 4 : 3); ++i)
    {
      const uint32_t op = i < 2 ? first[i] : c.choose(2 * qs.size() + 2);
      const uint32_t who = op % 2, what = op / 2;
      if (what < qs.size()) query(c, *insp[who], dbsAll[cur[who]], qs[what], Plain, "two objects");
      else
      {
        // the object ends and another one takes its place
        cur[who] = (cur[who] + 1) % dbsAll.size();
        insp[who].reset(new PasswordInspector(files[cur[who]]));
        c.step();
      }
    }
    for (auto &q : qs)
      for (int i = 0; i < 2; ++i)
      {
        query(c, *insp[i], dbsAll[cur[i]], q, Plain, "two objects");
        c.check(insp[i]->size() == dbsAll[cur[i]].size(), "size", "size() of one of two objects is " + std::to_string(insp[i]->size()));
      }
  });
  // (7) the convenience lookup by password
  mc::explore("by-password", [&](Ctx &c) {
    static const std::vector<std::string> pw = {"", "a", "password", "p w", std::string("a\0b", 3), "\xc3\xa4"};
    std::vector<Rec> db;
    uint32_t k = 0;
    std::map<H, std::string> by;
    for (auto &p : pw) { auto d = refHash(p); by[d] = p; }
    for (auto &e : by) { ++k; if (c.flag()) db.push_back({e.first, k}); }
    c.shard();
    const std::string f = c.dir() + "/db";
    spit(f, encode(db, 0));
    PasswordInspector insp(f);
    for (auto &p : pw)
    {
      c.step();
      const uint32_t got = insp.lookup(p).count, want = ref(db, refHash(p));
      if (got != want) c.fail("count", "lookup of password '" + p + "' gives " + std::to_string(got) + " instead of " + std::to_string(want));
    }
  });
}

// ---------------------------------------------------------------- C02
static void c02(bool th)
{
  const std::string tool = mc::opt.arg("index");
  // prefixes that fall into few buckets, into neighbouring buckets, at the ends
  const std::vector<H> alpha = {{0, 0}, {0, 9}, {0x0fffffffffffffffULL, 1}, {0x1000000000000000ULL, 0}, {0x2ffffffffffffff0ULL, 4}, {0x7fffffffffffffffULL, MAX},
                                {0x8000000000000000ULL, 0}, {0x8000000000000000ULL, 2}, {0xe000000000000000ULL, 8}, {0xfffffffffffffffeULL, 0}, {MAX, MAX}};
  const std::vector<uint32_t> counts = {1, 3, 0xffffffffu};
  auto checkIndex = [](Ctx &c, const std::vector<Rec> &db, unsigned bits, const std::string &idx) {
    const uint64_t n = 1ULL << bits;
    c.check(idx.size() == n * 8, "index-size", "index of " + std::to_string(bits) + " bits has " + std::to_string(idx.size()) + " bytes");
    std::map<uint64_t, uint64_t> first;
    for (size_t i = 0; i < db.size(); ++i) first.emplace(db[i].h.first >> (64 - bits), i * 20);
    for (uint64_t k = 0; k < n; ++k)
    {
      uint64_t v;
      memcpy(&v, idx.data() + k * 8, 8);
      auto it = first.find(k);
      const uint64_t want = it == first.end() ? MAX : it->second;
      if (v != want) c.fail("index-entry", "index entry " + std::to_string(k) + "/" + std::to_string(n) + " is " + std::to_string(v) + " instead of " + std::to_string(want) + " for " + dbs(db));
    }
    c.step();
  };
  auto compare = [](Ctx &c, const std::vector<Rec> &db, const std::string &f, const std::string &x, const std::vector<H> &Q) {
    PasswordInspector with(f, x);
    for (auto &q : Q) query(c, with, db, q, Plain, "indexed");
  };
  auto borders = [](unsigned bits) {
    std::vector<H> b;
    const unsigned sh = 64 - bits;
    const uint64_t n = 1ULL << bits;
    for (uint64_t k = 0; k < n; k += (n > 64 ? n / 32 : 1))
    {
      b.push_back({k << sh, 0});
      b.push_back({((k + 1) << sh) - 1, MAX});
    }
    b.push_back({MAX, MAX});
    return b;
  };
  mc::explore("all-databases", [&](Ctx &c) {
    auto db = pickDb(c, alpha, th ? 7 : 4, counts, false);
    c.shard();
    const unsigned bits = 1 + c.choose(th ? 10 : 7);
    const size_t tail = c.flag() ? 11 : 0;
    const std::string f = c.dir() + "/db", x = c.dir() + "/ix";
    spit(f, encode(db, tail));
    ToolRun r = runTool({tool, "-I", f, "-O", x, "-B", std::to_string(bits)}, c.dir());
    c.step();
    c.check(r.ok(), "indexer-status", "indexer fails: " + r.text());
    if (c.wantNotes()) c.note("index " + dbs(db) + " with " + std::to_string(bits) + " bits");
    checkIndex(c, db, bits, slurp(x));
    std::vector<H> Q = around(alpha), B = borders(bits);
    Q.insert(Q.end(), B.begin(), B.end());
    compare(c, db, f, x, Q);
    ::unlink(x.c_str());
  });
  // dense buckets: many records per bucket and many buckets
  mc::explore("dense", [&](Ctx &c) {
    const unsigned bits = c.pick(th ? std::vector<unsigned>{1, 2, 3, 5, 8, 12, 16} : std::vector<unsigned>{1, 2, 3, 5, 8, 12});
    const size_t n = c.pick(th ? std::vector<size_t>{1, 2, 17, 64, 257, 1000, 5000} : std::vector<size_t>{1, 2, 17, 64, 257});
    const int layout = c.choose(3);
    c.shard();
    std::vector<Rec> db;
    for (size_t i = 0; i < n; ++i)
    {
      uint64_t u = layout == 0 ? uint64_t((double)i / (double)n * 18446744073709549568.0) : layout == 1 ? i / 2 : MAX - (n - i) / 2;
      db.push_back({{u, i}, uint32_t(i + 1)});
    }
    const std::string f = c.dir() + "/db", x = c.dir() + "/ix";
    spit(f, encode(db, 0));
    ToolRun r = runTool({tool, "--input", f, "--output", x, "--bits", std::to_string(bits)}, c.dir());
    c.check(r.ok(), "indexer-status", "indexer fails: " + r.text());
    checkIndex(c, db, bits, slurp(x));
    PasswordInspector with(f, x);
    for (auto &d : db)
    {
      c.step();
      auto p = with.binsearch(Hash(d.h.first, d.h.second));
      if (p.count != d.n) c.fail("count", "indexed lookup of record " + hs(d.h) + " gives " + std::to_string(p.count));
      p = with.binsearch(Hash(d.h.first, d.h.second + n + 1));
      if (p.count != 0) c.fail("count", "indexed lookup of a hash behind " + hs(d.h) + " gives " + std::to_string(p.count));
    }
    ::unlink(x.c_str());
  });
  // index for wide keys, written by the harness as a sparse file in the very
  // format the indexer is checked for above
  mc::explore("wide-keys", [&](Ctx &c) {
    auto db = pickDb(c, {alpha[0], alpha[3], alpha[6], alpha[10]}, 4, counts, false);
    const unsigned given = c.pick(th ? std::vector<unsigned>{12, 16, 18, 20, 24, 0} : std::vector<unsigned>{12, 16, 18, 0});
    c.shard();
    unsigned bits = given;
    if (!th && !bits && db.size() < 3) return; // one entry of each kind will do
    const std::string f = c.dir() + "/db", x = c.dir() + "/ix";
    spit(f, encode(db, 0));
    std::vector<std::string> args{tool, "-I", f, "-O", x};
    if (bits) args.insert(args.end(), {"-B", std::to_string(bits)});
    ToolRun r = runTool(args, c.dir());
    c.check(r.ok(), "indexer-status", "indexer fails: " + r.text());
    struct stat st;
    const uint64_t size = ::stat(x.c_str(), &st) ? 0 : (uint64_t)st.st_size;
    if (!bits) // the default, whatever it is
      for (unsigned b = 1; b < 30; ++b) if (size == 8ULL << b) bits = b;
    c.check(bits && size == 8ULL << bits, "index-size", "index of " + std::to_string(bits) + " bits has " + std::to_string(size) + " bytes");
    std::ifstream ix(x, std::ios::binary);
    for (size_t i = 0; i < db.size(); ++i)
    {
      const uint64_t k = db[i].h.first >> (64 - bits);
      if (i && db[i - 1].h.first >> (64 - bits) == k) continue;
      uint64_t v = 0;
      ix.seekg((std::streamoff)(k * 8));
      ix.read((char *)&v, 8);
      c.check(v == i * 20, "index-entry", "entry of " + hs(db[i].h) + " in an index of " + std::to_string(bits) + " bits is " + std::to_string(v));
    }
    // only lookups close to used buckets: an unused range of 2^24 buckets is scanned linearly
    if (!db.empty() && given)
    {
      PasswordInspector with(f, x);
      for (auto &d : db) query(c, with, db, d.h, Plain, "wide");
      for (auto &d : db) query(c, with, db, {d.h.first, d.h.second ^ 1}, Plain, "wide");
    }
    ::unlink(x.c_str());
  }, {20, 1e9, 4});
  // databases beyond 2 and 4 GiB: the lower part is a hole (records with hash
  // 0), so that the entries of all other prefixes lie beyond the limit; the
  // index is the indexer's own for one size (it reads everything) and in the
  // format it is checked for above for the others
  mc::explore("large-files", [&](Ctx &c) {
    static const std::vector<uint64_t> sizes = {0x100000000ULL, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x200000000ULL, 0x500000000ULL};
    const size_t which = c.choose(sizes.size());
    const uint64_t base = sizes[which] / 20 * 20;
    const unsigned bits = which == 0 ? 4 : c.pick(std::vector<unsigned>{1, 4, 8});
    const size_t tail = which == 0 ? 7 : c.choose(2) * 19;
    c.shard();
    const std::string f = c.dir() + "/big", x = c.dir() + "/bigix";
    const std::vector<Rec> db = {{{0x10, 7}, 40}, {{0x3000000000000000ULL, 1}, 41}, {{0x3000000000000000ULL, 9}, 42}, {{0x8000000000000000ULL, 0}, 43}, {{0x8fffffffffffffffULL, 0}, 44}, {{MAX, MAX}, 45}};
    {
      int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666);
      const std::string e = encode(db, tail);
      if (::pwrite(fd, e.data(), e.size(), (off_t)base) != (ssize_t)e.size()) throw std::runtime_error("scratch file system full");
      ::close(fd);
    }
    const uint64_t n = 1ULL << bits;
    std::vector<uint64_t> want(n, MAX);
    want[0] = 0;
    for (size_t i = db.size(); i-- > 0;)
      if (const uint64_t k = db[i].h.first >> (64 - bits)) want[k] = base + i * 20;
    if (which == 0)
    {
      ToolRun r = runTool({tool, "-I", f, "-O", x, "-B", std::to_string(bits)}, c.dir(), "", "", 300);
      c.check(r.ok(), "indexer-status", "indexer fails: " + r.text());
      const std::string idx = slurp(x);
      c.check(idx.size() == n * 8, "index-size", "index of " + std::to_string(bits) + " bits has " + std::to_string(idx.size()) + " bytes");
      for (uint64_t k = 0; k < n; ++k)
      {
        uint64_t v;
        memcpy(&v, idx.data() + k * 8, 8);
        c.step();
        if (v != want[k]) c.fail("index-entry", "index entry " + std::to_string(k) + "/" + std::to_string(n) + " of a database beyond 4 GiB is " + std::to_string(v) + " instead of " + std::to_string(want[k]));
      }
    }
    else spit(x, std::string((const char *)want.data(), n * 8));
    PasswordInspector with(f, x);
    for (auto &q : around({db[0].h, db[1].h, db[2].h, db[3].h, db[4].h, db[5].h, {0x1000000000000000ULL, 0}}))
      if (q != H{0, 0}) query(c, with, db, q, Plain, "large");
    ::unlink(x.c_str());
    ::unlink(f.c_str());
  }, {400, 1e9, 0});
  // two objects with different indexes, used in turn
  mc::explore("two-objects", [&](Ctx &c) {
    static const std::vector<std::vector<Rec>> D = {{{{5, 5}, 3}}, {{{0, 0}, 1}, {{1ULL << 63, 1}, 2}, {{MAX, 3}, 4}}, {{{1ULL << 62, 5}, 8}, {{3ULL << 62, 5}, 9}}};
    const uint32_t a = c.choose(9), b = c.choose(9);
    c.shard();
    std::string f[3], x[3][2];
    for (int i = 0; i < 3; ++i)
    {
      f[i] = c.dir() + "/td" + std::to_string(i);
      for (int k = 0; k < 2; ++k) x[i][k] = f[i] + ".ix" + std::to_string(k);
      if (access(f[i].c_str(), F_OK))
      {
        spit(f[i], encode(D[size_t(i)], 0));
        for (int k = 0; k < 2; ++k) runTool({tool, "-I", f[i], "-O", x[i][k], "-B", k ? "4" : "1"}, c.dir());
      }
    }
    const std::vector<H> Q = {{0, 0}, {5, 5}, {5, 6}, {1ULL << 62, 5}, {1ULL << 63, 1}, {1ULL << 63, 0}, {3ULL << 62, 5}, {MAX, 3}, {MAX, MAX}};
    auto make = [&](uint32_t o) { return std::unique_ptr<PasswordInspector>(new PasswordInspector(f[o / 3], o % 3 == 2 ? std::string() : x[o / 3][o % 3])); };
    auto p = make(a), q = make(b);
    const H h = c.pick(Q);
    const bool late = c.flag();
    query(c, *p, D[a / 3], h, Plain, "two objects");
    if (late) q = make(b);
    for (auto &y : Q)
    {
      query(c, *q, D[b / 3], y, Plain, "two objects");
      query(c, *p, D[a / 3], y, Plain, "two objects");
    }
  });
  // histories: opening with and without index in any order on one object
  mc::explore("histories", [&](Ctx &c) {
    static const std::vector<std::vector<Rec>> D = {{{{5, 5}, 3}}, {{{0, 0}, 1}, {{1ULL << 63, 1}, 2}, {{MAX, 3}, 4}}, {}};
    const unsigned bits[2] = {1, 4};
    std::string f[3], x[3][2];
    uint32_t op0 = c.choose(9), op1 = c.choose(9);
    c.shard();
    for (int i = 0; i < 3; ++i)
    {
      f[i] = c.dir() + "/hd" + std::to_string(i);
      for (int b = 0; b < 2; ++b) x[i][b] = f[i] + ".ix" + std::to_string(b);
      if (access(f[i].c_str(), F_OK))
      {
        spit(f[i], encode(D[size_t(i)], 0));
        for (int b = 0; b < 2; ++b) runTool({tool, "-I", f[i], "-O", x[i][b], "-B", std::to_string(bits[b])}, c.dir());
      }
    }
    auto openIt = [&](PasswordInspector &p, uint32_t op) {
      const int d = int(op / 3), k = int(op % 3);
      const bool ok = k == 2 ? (c.flag() ? p.open(f[d]) : p.open(f[d], "")) : p.open(f[d], x[d][k]);
      c.step();
      c.check(ok, "open", "cannot open");
      if (c.wantNotes()) c.note("open db " + std::to_string(d) + (k == 2 ? " without index" : " with index"));
      return D[size_t(d)];
    };
    const int d0 = int(op0 / 3), k0 = int(op0 % 3);
    PasswordInspector p(f[d0], k0 == 2 ? std::string() : x[d0][k0]);
    auto db = D[size_t(d0)];
    const std::vector<H> Q = {{0, 0}, {5, 5}, {5, 6}, {1ULL << 63, 1}, {1ULL << 63, 0}, {MAX, 3}, {MAX, MAX}};
    query(c, p, db, c.pick(Q), Plain, "history");
    db = openIt(p, op1);
    for (auto &q : Q) query(c, p, db, q, Plain, "history");
    db = openIt(p, c.choose(9));
    for (auto &q : Q) query(c, p, db, q, Plain, "history");
  });
  // refused key widths
  mc::explore("refused", [&](Ctx &c) {
    static const std::vector<std::string> bad = {"0", "64", "65", "128", "256", "1000000"};
    const std::string b = c.pick(bad);
    c.shard();
    const std::string f = c.dir() + "/db", x = c.dir() + "/ixr";
    spit(f, encode({{{5, 5}, 3}}, 0));
    ToolRun r = runTool({tool, "-I", f, "-O", x, "-B", b}, c.dir());
    c.step();
    c.check(r.exited && r.code != 0, "refuse", "key width " + b + " is not refused: " + r.text());
  });
}

// ---------------------------------------------------------------- C03
static void c03(bool th)
{
  const std::vector<uint32_t> counts = {1, 0xffffffffu, 2};
  const std::vector<H> Q = around(A8);
  mc::explore("all-databases", [&](Ctx &c) {
    auto db = pickDb(c, A8, 8, counts, false);
    c.shard();
    const size_t tail = c.pick(std::vector<size_t>{0, 1, 10, 19});
    const std::string f = c.dir() + "/db";
    spit(f, encode(db, tail));
    if (c.wantNotes()) c.note("db " + dbs(db));
    for (auto &q : Q)
    {
      PasswordInspector insp(f); // fresh for each
      query(c, insp, db, q, Smart, "fresh");
    }
    PasswordInspector insp(f);
    for (auto &q : Q)
    {
      query(c, insp, db, q, Smart, "in a row");
      query(c, insp, db, q, Plain, "in a row");
    }
  });
  const std::vector<std::vector<Rec>> D = {
      {}, {{A8[0], 7}}, {{A8[7], 9}}, {{A8[2], 1}, {A8[5], 2}}, {{A8[0], 3}, {A8[2], 4}, {A8[4], 5}, {A8[5], 6}, {A8[7], 8}}};
  const std::vector<H> qs = {A8[0], A8[5], A8[7], {5, 5}};
  mc::explore("histories", [&](Ctx &c) {
    size_t cur = c.choose(D.size());
    uint32_t o0 = c.choose(9), o1 = c.choose(9);
    c.shard();
    std::vector<std::string> files;
    for (size_t i = 0; i < D.size(); ++i)
    {
      files.push_back(c.dir() + "/h" + std::to_string(i));
      if (access(files.back().c_str(), F_OK)) spit(files.back(), encode(D[i], i));
    }
    PasswordInspector insp(files[cur]);
    for (int i = 0; i < (th ? 5 : 4); ++i)
    {
      uint32_t op = i == 0 ? o0 : i == 1 ? o1 : c.choose(9);
      if (op < 8) query(c, insp, D[cur], qs[op / 2], op % 2 ? Plain : Smart, "history");
      else { cur = c.choose(D.size()); insp.open(files[cur]); c.step(); }
    }
  });
  // beyond 4096 records (the first step of the search grows with the size) and
  // beyond 2 and 4 GiB (a hole of records with hash 0 before the real ones)
  mc::explore("large", [&](Ctx &c) {
    static const std::vector<uint64_t> sizes = {4095 * 20, 4096 * 20, 4097 * 20, 9000 * 20, 0x1000000, 0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x300000000ULL};
    const uint64_t base = c.pick(sizes) / 20 * 20;
    const size_t tail = c.choose(2) * 19;
    c.shard();
    const std::string f = c.dir() + "/big";
    std::vector<Rec> db = {{{0x10, 7}, 40}, {{0x3000000000000000ULL, 1}, 41}, {{0x3000000000000000ULL, 9}, 42}, {{0x8000000000000000ULL, 0}, 43}, {{0x8fffffffffffffffULL, 0}, 44}, {{MAX, MAX}, 45}};
    {
      int fd = ::open(f.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0666);
      const std::string e = encode(db, tail);
      if (::pwrite(fd, e.data(), e.size(), (off_t)base) != (ssize_t)e.size()) throw std::runtime_error("scratch file system full");
      ::close(fd);
    }
    PasswordInspector insp(f);
    for (auto &q : around({db[0].h, db[1].h, db[2].h, db[3].h, db[4].h, db[5].h, {0x1000000000000000ULL, 0}}))
      if (q != H{0, 0})
      {
        query(c, insp, db, q, Smart, "large");
        query(c, insp, db, q, Plain, "large");
      }
    ::unlink(f.c_str());
  });
  mc::explore("two-objects", [&](Ctx &c) {
    const size_t a = c.choose(D.size()), b = c.choose(D.size());
    c.shard();
    std::vector<std::string> files;
    for (size_t i = 0; i < D.size(); ++i)
    {
      files.push_back(c.dir() + "/h" + std::to_string(i));
      if (access(files.back().c_str(), F_OK)) spit(files.back(), encode(D[i], i));
    }
    std::unique_ptr<PasswordInspector> p(new PasswordInspector(files[a])), q(new PasswordInspector(files[b]));
    for (int i = 0; i < 3; ++i)
    {
      const uint32_t op = c.choose(qs.size() * 4);
      query(c, op % 2 ? *p : *q, D[op % 2 ? a : b], qs[op / 4], op / 2 % 2 ? Plain : Smart, "two objects");
    }
  });
  // distributions: uniform, all at the low end, all at the high end, two clusters; every size
  mc::explore("distributions", [&](Ctx &c) {
    const int layout = c.choose(5);
    const size_t n = c.choose(th ? 700 : 260);
    c.shard();
    std::vector<Rec> db;
    for (size_t i = 0; i < n; ++i)
    {
      uint64_t u = 0;
      switch (layout)
      {
      case 0: u = (MAX / (n + 1)) * (i + 1); break;
      case 1: u = i; break;
      case 2: u = MAX - n + i; break;
      case 3: u = i < n / 2 ? i : MAX - n + i; break;
      case 4: u = 0x8000000000000000ULL; break;
      }
      db.push_back({{u, i * 2}, uint32_t(i + 1)});
    }
    const std::string f = c.dir() + "/db";
    spit(f, encode(db, n % 20));
    PasswordInspector insp(f);
    for (size_t i = 0; i < n; ++i)
    {
      auto p = insp.smart_binsearch(Hash(db[i].h.first, db[i].h.second));
      c.step();
      if (p.count != db[i].n) c.fail("count", "smart lookup of record " + std::to_string(i) + " of " + std::to_string(n) + " layout " + std::to_string(layout) + " gives " + std::to_string(p.count));
      p = insp.smart_binsearch(Hash(db[i].h.first, db[i].h.second + 1));
      c.step();
      if (p.count != 0) c.fail("count", "smart lookup behind record " + std::to_string(i) + " of " + std::to_string(n) + " layout " + std::to_string(layout) + " gives " + std::to_string(p.count));
    }
    for (auto &q : A8) query(c, insp, db, q, Smart, "edge");
    c.state(n * 8 + layout);
  });
}

int main(int argc, char **argv)
{
  mc::parseArgs(argc, argv);
  const bool th = mc::opt.thorough();
  if (mc::opt.prop == "C01") c01(th);
  if (mc::opt.prop == "C02") c02(th);
  if (mc::opt.prop == "C03") c03(th);
  return mc::finish();
}
