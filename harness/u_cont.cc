// Histories of the containers in src/util: operations and what they returned.
#include <algorithm>
#include "util/char_buffer.h"
#include "util/flatmap.h"
#include "util/flatset.h"
#include "util/inlined_vector.h"
#include "util/lru_cache.h"
#include "util/memory.hpp"
#include "vh.h"
using namespace jumanpp;
using namespace vh;

namespace {
// a value that knows how many of its kind are alive
struct Tracked {
  static long live;
  int v;
  Tracked(int x = 0) : v{x} { ++live; }
  Tracked(const Tracked& o) : v{o.v} { ++live; }
  Tracked(Tracked&& o) noexcept : v{o.v} {
    o.v = -77;
    ++live;
  }
  Tracked& operator=(const Tracked&) = default;
  ~Tracked() {
    v = -99;
    --live;
  }
  bool operator==(const Tracked& o) const { return v == o.v; }
  bool operator!=(const Tracked& o) const { return v != o.v; }
};
long Tracked::live = 0;

int num(int x) { return x; }
int num(const Tracked& x) { return x.v; }
int num(const std::string& x) { return std::stoi(x); }
template <typename T>
struct Make {
  static T of(int x) { return T(x); }
};
template <>
struct Make<std::string> {
  static std::string of(int x) { return std::to_string(x); }
};

// hash functions of different quality
int hashKind = 0;
struct TestHash {
  template <typename T>
  size_t operator()(const T& t) const {
    size_t k = (size_t)num(t);
    switch (hashKind) {
      case 0: return k * 0x9e3779b97f4a7c15ULL >> 13;
      case 1: return 0;
      case 2: return (k % 3) << 8;
      case 3: return k % 2;
      case 4: return k << 8;
      default: return (k % 5) * 0x107;
    }
  }
};

struct Trace {
  std::vector<std::string> ev;
  void add(const char* op, int t, int k, int v, int r) {
    ev.push_back(std::string("[\"") + op + "\"," + std::to_string(t) + "," + std::to_string(k) + "," + std::to_string(v) + "," +
                 std::to_string(r) + "]");
  }
  void seq(const char* op, int t, const std::vector<int>& r) {
    ev.push_back(std::string("[\"") + op + "\"," + std::to_string(t) + ",0,0," + jints(r) + "]");
  }
};

template <typename M>
void dumpMap(Trace& t, int i, const M& m) {
  std::vector<int> r;
  for (auto& p : m) {
    r.push_back(num(p.first));
    r.push_back(num(p.second));
  }
  t.seq("dump", i, r);
}

template <typename K, typename V>
void mapTrace(Rng& r, std::ostream& out, int nops, int nkeys, bool tracked, const char* name) {
  using M = util::FlatMap<K, V, TestHash>;
  Trace t;
  bool narrow = r.chance(25);
  {
    M m[2];
    for (int i = 0; i < nops; ++i) {
      int a = r.chance(80) ? 0 : 1;
      int k = r.below(nkeys), v = r.below(1000);
      auto key = Make<K>::of(k);
      // some histories only insert, remove and empty
      int z = narrow ? (r.chance(50) ? r.below(55) : r.chance(75) ? 60 : 83) : r.below(100);
      M& x = m[a];
      const M& cx = m[a];
      if (z < 20) {
        auto res = x.insert(std::make_pair(key, Make<V>::of(v)));
        t.add("put", a, k, v, res.second ? 1 : 0);
        t.add("get", a, k, 0, num(res.first->second));
      } else if (z < 30) {
        x[key] = Make<V>::of(v);
        t.add("set", a, k, v, 0);
      } else if (z < 36) {
        auto& w = x.findOrInsert(key, [&]() { return Make<V>::of(v); });
        t.add("foi", a, k, v, num(w));
      } else if (z < 40) {
        auto res = x.emplace(key, Make<V>::of(v));
        t.add("put", a, k, v, res.second ? 1 : 0);
      } else if (z < 55) {
        auto it = cx.find(key);
        t.add("get", a, k, 0, it == cx.end() ? -1 : num(it->second));
        t.add("has", a, k, 0, r.chance(50) ? (x.exists(key) ? 1 : 0) : (int)x.count(key));
        if (it != cx.end()) t.add("get", a, k, 0, num(cx.at(key)));
      } else if (z < 75) {
        t.add("erase", a, k, 0, (int)x.erase(key));
      } else if (z < 80) {
        auto it = x.find(key);
        if (it != x.end()) {
          x.erase(it);
          t.add("erase", a, k, 0, 1);
        }
      } else if (z < 82) {
        x.clear();
        t.add("clear", a, 0, 0, 0);
      } else if (z < 85) {
        x.clear_no_resize();
        t.add("clear", a, 0, 0, 0);
      } else if (z < 87) {
        x.reserve(r.below(40));
      } else if (z < 89) {
        x = m[1 - a];
        t.add("copy", a, 0, 0, 0);
      } else if (z < 90) {
        x.swap(m[1 - a]);
        t.add("swap", a, 0, 0, 0);
      } else if (z < 92) {
        t.add("eq", a, 0, 0, m[0] == m[1] ? 1 : 0);
      } else if (z < 93) {
        // a run of fresh keys: growth
        int n = r.range(3, 30);
        for (int j = 0; j < n; ++j) {
          x[Make<K>::of(1000 + j)] = Make<V>::of(j);
          t.add("set", a, 1000 + j, j, 0);
        }
        for (int j = 0; j < n; ++j) {
          if (r.chance(70)) t.add("erase", a, 1000 + j, 0, (int)x.erase(Make<K>::of(1000 + j)));
        }
      } else {
        t.add("size", a, 0, 0, (int)x.size());
        dumpMap(t, a, x);
      }
      if (tracked && r.chance(10)) t.add("live", 0, 0, 0, (int)Tracked::live);
    }
    for (int a = 0; a < 2; ++a) {
      t.add("size", a, 0, 0, (int)m[a].size());
      dumpMap(t, a, m[a]);
    }
  }
  Obj o;
  o.str("kind", "map").str("name", name).num("hash", hashKind).num("left", tracked ? Tracked::live : 0).raw("ev", jarr(t.ev));
  out << o.done() << "\n";
}

template <typename K>
void setTrace(Rng& r, std::ostream& out, int nops, int nkeys, const char* name) {
  using M = util::FlatSet<K, TestHash>;
  Trace t;
  bool narrow = r.chance(25);
  M m[2];
  auto dump = [&](int a) {
    std::vector<int> v;
    for (auto& k : m[a]) {
      v.push_back(num(k));
      v.push_back(0);
    }
    t.add("size", a, 0, 0, (int)m[a].size());
    t.seq("dump", a, v);
  };
  for (int i = 0; i < nops; ++i) {
    int a = r.chance(80) ? 0 : 1;
    int k = r.below(nkeys);
    auto key = Make<K>::of(k);
    int z = narrow ? (r.chance(50) ? r.below(50) : r.chance(75) ? 60 : 79) : r.below(100);
    M& x = m[a];
    if (z < 35) {
      auto res = r.chance(50) ? x.insert(key) : x.emplace(key);
      t.add("put", a, k, 0, res.second ? 1 : 0);
    } else if (z < 50) {
      t.add("has", a, k, 0, r.chance(50) ? (x.contains(key) ? 1 : 0) : (int)x.count(key));
    } else if (z < 75) {
      t.add("erase", a, k, 0, (int)x.erase(key));
    } else if (z < 78) {
      x.clear();
      t.add("clear", a, 0, 0, 0);
    } else if (z < 81) {
      x.clear_no_resize();
      t.add("clear", a, 0, 0, 0);
    } else if (z < 84) {
      x.reserve(r.below(40));
    } else if (z < 87) {
      x = m[1 - a];
      t.add("copy", a, 0, 0, 0);
    } else if (z < 89) {
      x.swap(m[1 - a]);
      t.add("swap", a, 0, 0, 0);
    } else if (z < 91) {
      t.add("eq", a, 0, 0, m[0] == m[1] ? 1 : 0);
    } else if (z < 93) {
      int n = r.range(3, 30);
      for (int j = 0; j < n; ++j) t.add("put", a, 1000 + j, 0, x.insert(Make<K>::of(1000 + j)).second ? 1 : 0);
      for (int j = 0; j < n; ++j) {
        if (r.chance(70)) t.add("erase", a, 1000 + j, 0, (int)x.erase(Make<K>::of(1000 + j)));
      }
    } else {
      dump(a);
    }
  }
  dump(0);
  dump(1);
  Obj o;
  o.str("kind", "map").str("name", name).num("hash", hashKind).num("left", 0).raw("ev", jarr(t.ev));
  out << o.done() << "\n";
}

template <typename K, typename V>
void lruTrace(Rng& r, std::ostream& out, int nops, const char* name) {
  int cap = r.range(1, 6), nkeys = r.range(cap, 4 * cap + 2);
  util::LruCache<K, V, TestHash> c(cap);
  Trace t;
  for (int i = 0; i < nops; ++i) {
    int k = r.chance(60) ? r.below(nkeys) : r.below(2 * cap);
    V res = Make<V>::of(-5);
    bool f = c.tryFind(Make<K>::of(k), &res);
    t.add("find", 0, k, 0, f ? num(res) : -1);
    if (!f && r.chance(85)) {
      c.insert(Make<K>::of(k), Make<V>::of(i));
      t.add("ins", 0, k, i, 0);
    }
  }
  Obj o;
  o.str("kind", "lru").str("name", name).num("hash", hashKind).num("cap", cap).raw("ev", jarr(t.ev));
  out << o.done() << "\n";
}

template <typename T, int N>
void vecTrace(Rng& r, std::ostream& out, int nops, bool tracked, const char* name) {
  Trace t;
  {
    using Vc = util::InlinedVector<T, N>;
    Vc m[2];
    auto dump = [&](int a) {
      std::vector<int> v;
      const Vc& x = m[a];
      for (size_t i = 0; i < x.size(); ++i) v.push_back(num(x[i]));
      t.seq("list", a, v);
      t.add("len", a, 0, 0, (int)(x.end() - x.begin()));
    };
    for (int i = 0; i < nops; ++i) {
      int a = r.chance(80) ? 0 : 1, v = r.below(1000), z = r.below(100);
      Vc& x = m[a];
      int n = (int)x.size();
      if (z < 30) {
        if (r.chance(50)) x.push_back(Make<T>::of(v));
        else x.emplace_back(Make<T>::of(v));
        t.add("push", a, 0, v, 0);
      } else if (z < 36 && n) {
        t.add("back", a, 0, 0, num(x.back()));
        t.add("front", a, 0, 0, num(x.front()));
        x.pop_back();
        t.add("pop", a, 0, 0, 0);
      } else if (z < 46) {
        int p = r.below(n + 1);
        auto it = x.insert(x.begin() + p, Make<T>::of(v));
        t.add("insert", a, p, v, 0);
        t.add("at", a, (int)(it - x.begin()), 0, v);
      } else if (z < 54 && n) {
        int p = r.below(n);
        x.erase(x.begin() + p);
        t.add("cut", a, p, p + 1, 0);
      } else if (z < 60 && n) {
        int p = r.below(n), q = r.range(p, n);
        x.erase(x.begin() + p, x.begin() + q);
        t.add("cut", a, p, q, 0);
      } else if (z < 66) {
        int k = r.below(2 * N + 6);
        x.resize(k, Make<T>::of(v));
        t.add("resize", a, k, v, 0);
      } else if (z < 68) {
        x.clear();
        t.add("resize", a, 0, 0, 0);
      } else if (z < 72) {
        x = m[1 - a];
        t.add("copy", a, 0, 0, 0);
      } else if (z < 76) {
        x.swap(m[1 - a]);
        t.add("swap", a, 0, 0, 0);
      } else if (z < 78) {
        x.reserve(r.below(30));
      } else if (z < 80) {
        Vc y{x};
        x = y;
      } else {
        dump(a);
      }
      if (tracked && r.chance(10)) t.add("live", 0, 0, 0, (int)Tracked::live);
    }
    dump(0);
    dump(1);
  }
  Obj o;
  o.str("kind", "vec").str("name", name).num("left", tracked ? Tracked::live : 0).raw("ev", jarr(t.ev));
  out << o.done() << "\n";
}

// addresses as small numbers: gaps are shortened by multiples of 2^16
struct Blocks {
  struct B {
    size_t addr, size, align;
    int epoch;
    unsigned fill;
  };
  std::vector<B> all;
  bool intact = true;
  static void paint(const B& b) {
    auto p = (unsigned char*)b.addr;
    for (size_t i = 0; i < b.size; ++i) p[i] = (unsigned char)(b.fill + i * 7);
  }
  static bool same(const B& b) {
    auto p = (unsigned char*)b.addr;
    for (size_t i = 0; i < b.size; ++i)
      if (p[i] != (unsigned char)(b.fill + i * 7)) return false;
    return true;
  }
  void check(int epoch) {
    for (auto& b : all)
      if (b.epoch == epoch && !same(b)) intact = false;
  }
  std::string json() {
    std::vector<size_t> idx(all.size());
    for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
    std::sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return all[a].addr < all[b].addr; });
    std::vector<std::string> res(all.size());
    size_t shift = 0, end = 0;
    for (auto i : idx) {
      auto& b = all[i];
      size_t gap = b.addr - shift > end ? b.addr - shift - end : 0;
      if (gap > 65536) shift += gap / 65536 * 65536;
      size_t at = b.addr - shift;
      end = std::max(end, at + b.size);
      res[i] = "[" + std::to_string(b.epoch) + "," + std::to_string(at) + "," + std::to_string(b.size) + "," +
               std::to_string(b.align) + "]";
    }
    return jarr(res);
  }
};

void poolTrace(Rng& r, std::ostream& out, int nops) {
  size_t page = (size_t)4096 << r.below(3);
  Blocks bl;
  int epoch = 0, np = r.range(1, 3);
  {
    util::memory::Manager mgr{page};
    std::vector<std::unique_ptr<util::memory::PoolAlloc>> p;
    for (int i = 0; i < np; ++i) p.push_back(mgr.core());
    for (int i = 0; i < nops; ++i) {
      if (r.chance(3)) {
        bl.check(epoch);
        ++epoch;
        mgr.reset();
        for (auto& x : p) x->reset();
        continue;
      }
      auto& x = p[r.below(np)];
      size_t align = (size_t)1 << r.below(8);
      size_t size = r.chance(70) ? r.range(0, 200) : r.chance(80) ? r.range(0, (int)page) : r.range(1, 4 * (int)page);
      void* m;
      if (r.chance(20)) {
        size = (size + 7) / 8 * 8;
        align = std::max<size_t>(align, 8);
        auto s = x->allocateBuf<u64>(size / 8, align);
        m = s.data();
        if (s.size() != size / 8) bl.intact = false;
      } else if (r.chance(10)) {
        size_t rows = r.range(1, 9), cols = r.range(1, 9);
        align = 4;
        auto s = x->allocate2d<u32>(rows, cols);
        size = rows * cols * 4;
        m = s.row(0).data();
        if (s.numRows() != rows || s.rowSize() != cols) bl.intact = false;
      } else {
        m = x->allocate_memory(size, align);
      }
      Blocks::B b{(size_t)m, size, align, epoch, (unsigned)r.below(256)};
      if ((size_t)m % align != 0) bl.intact = false;
      Blocks::paint(b);
      bl.all.push_back(b);
    }
    bl.check(epoch);
  }
  Obj o;
  o.str("kind", "pool").num("page", (long long)page).boolean("intact", bl.intact).raw("blocks", bl.json());
  out << o.done() << "\n";
}

void charTrace(Rng& r, std::ostream& out, int nops) {
  constexpr size_t Page = 64;
  util::CharBuffer<Page> buf;
  Blocks bl;
  std::vector<std::string> refused;
  int epoch = 0;
  for (int i = 0; i < nops; ++i) {
    if (r.chance(4)) {
      bl.check(epoch);
      ++epoch;
      buf.reset();
      continue;
    }
    size_t len = r.chance(60) ? r.range(1, 12) : r.range(0, 80);
    std::vector<char> src(len);
    Blocks::B b{(size_t)src.data(), len, 1, epoch, (unsigned)r.below(256)};
    Blocks::paint(b);
    StringPiece sp{src.data(), src.data() + len};
    if (!buf.import(&sp)) {
      refused.push_back(std::to_string(len));
      continue;
    }
    if (sp.size() != len || (len && sp.data() == src.data())) bl.intact = false;
    if (len == 0) continue;
    b.addr = (size_t)sp.data();
    bl.all.push_back(b);
    if (r.chance(5)) {
      util::CharBuffer<Page> other{std::move(buf)};
      buf = std::move(other);
    }
  }
  bl.check(epoch);
  Obj o;
  o.str("kind", "chars").num("page", Page).boolean("intact", bl.intact).raw("refused", jarr(refused)).raw("blocks", bl.json());
  out << o.done() << "\n";
}
}  // namespace

// cont OUT SEED N
VH_COMMAND(cont) {
  watchdog(120);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  int n = std::stoi(args[2]);
  for (int i = 0; i < n; ++i) {
    hashKind = r.below(6);
    int nops = r.chance(70) ? r.range(5, 60) : r.range(60, 250);
    int nkeys = r.chance(50) ? r.range(1, 9) : r.range(9, 80);
    switch (i % 10) {
      case 0: mapTrace<int, int>(r, out, nops, nkeys, false, "int-int"); break;
      case 1: mapTrace<std::string, Tracked>(r, out, nops, nkeys, true, "string-tracked"); break;
      case 2: mapTrace<int, std::string>(r, out, nops, nkeys, false, "int-string"); break;
      case 3: setTrace<int>(r, out, nops, nkeys, "int"); break;
      case 4: setTrace<std::string>(r, out, nops, nkeys, "string"); break;
      case 5: r.chance(50) ? lruTrace<int, int>(r, out, nops, "int-int") : lruTrace<std::string, std::string>(r, out, nops, "string-string"); break;
      case 6: vecTrace<int, 4>(r, out, nops, false, "int-4"); break;
      case 7: vecTrace<Tracked, 3>(r, out, nops, true, "tracked-3"); break;
      case 8: poolTrace(r, out, nops); break;
      case 9: charTrace(r, out, nops); break;
    }
  }
  return 0;
}
