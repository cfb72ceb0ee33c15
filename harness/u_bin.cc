#include <cstring>
#include "util/coded_io.h"
#include "util/flatmap.h"
#include "util/serialization.h"
#include "util/serialization_flatmap.h"
#include "vh.h"
using namespace jumanpp;
using namespace vh;

namespace {
std::string digits(u64 v) {
  std::vector<int> d;
  do {
    d.push_back(static_cast<int>(v & 127));
    v >>= 7;
  } while (v);
  return jints(d);
}
struct Op {
  int t;  // 0 int 1 str 2 word 3 raw(4)
  u64 i = 0;
  std::string s;
};
const char* names[] = {"int", "str", "word", "raw"};
std::string word(u32 w) {
  std::string r;
  for (int i = 0; i < 4; ++i) r += static_cast<char>((w >> (8 * i)) & 255);
  return r;
}
std::string opv(const Op& o) { return o.t == 0 ? digits(o.i) : o.t == 2 ? jbytes(word(static_cast<u32>(o.i))) : jbytes(o.s); }

u64 someInt(Rng& r) {
  int bits = r.range(0, 64);
  u64 v = r.next();
  if (bits < 64) v &= ((1ull << bits) - 1);
  if (r.chance(20)) v = bits < 64 ? (1ull << bits) : ~0ull;
  if (r.chance(10)) v = bits < 64 ? (1ull << bits) - 1 : ~0ull;
  return v;
}
std::string someStr(Rng& r, int big) {
  int n = r.chance(20) ? 0 : r.chance(big) ? r.range(120, 300) : r.range(1, 12);
  std::string s;
  for (int i = 0; i < n; ++i) s += static_cast<char>(r.below(256));
  return s;
}

// reads with the real parser; returns number of values read before refusal
int readOps(const std::vector<Op>& ops, const std::string& bytes, std::vector<std::string>* vals, long* consumed, bool* overrun) {
  std::vector<char> mem(bytes.begin(), bytes.end());  // exact size
  util::CodedBufferParser p{StringPiece{mem.data(), mem.data() + mem.size()}};
  int n = 0;
  for (auto& o : ops) {
    if (o.t == 0) {
      u64 v = 0;
      if (!p.readVarint64(&v)) break;
      if (vals) vals->push_back(digits(v));
    } else if (o.t == 1) {
      StringPiece sp;
      if (!p.readStringPiece(&sp)) break;
      if (sp.char_begin() < mem.data() || sp.char_end() > mem.data() + mem.size()) {
        *overrun = true;
        break;
      }
      if (vals) vals->push_back(jbytes(sp.char_begin(), sp.char_end()));
    } else {
      u32 w = 0;
      if (!p.readFixed32(&w)) break;
      if (vals) vals->push_back(jbytes(word(w)));
    }
    ++n;
  }
  if (p.numReadBytes() > static_cast<ptrdiff_t>(bytes.size())) *overrun = true;
  if (consumed) *consumed = p.numReadBytes();
  return n;
}

struct Inner {
  std::string s;
  i32 x = 0;
  bool b = false;
  bool operator==(const Inner& o) const { return s == o.s && x == o.x && b == o.b; }
};
template <typename A>
void Serialize(A& a, Inner& o) {
  a& o.s;
  a& o.x;
  a& o.b;
}
enum class Color : int { Red, Green = 5, Blue = 1000 };
SERIALIZE_ENUM_CLASS(Color, int);
struct Outer {
  u32 a = 0;
  std::vector<Inner> v;
  i64 q = 0;
  float f = 0;
  Color c = Color::Red;
  std::vector<i32> w;
  u64 u = 0;
  bool operator==(const Outer& o) const {
    return a == o.a && v == o.v && q == o.q && std::memcmp(&f, &o.f, 4) == 0 && c == o.c && w == o.w && u == o.u;
  }
};
template <typename A>
void Serialize(A& a, Outer& o) {
  a& o.a;
  a& o.v;
  a& o.q;
  a& o.f;
  a& o.c;
  a& o.w;
  a& o.u;
}
}  // namespace

VH_COMMAND(bin_ops) {
  watchdog(200);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  int n = std::stoi(args[2]);
  for (int i = 0; i < n; ++i) {
    std::vector<Op> ops;
    int cnt = r.range(1, 8);
    for (int k = 0; k < cnt; ++k) {
      Op o;
      o.t = r.below(3);
      o.i = o.t == 2 ? r.next() & 0xffffffffu : someInt(r);
      if (o.t == 1) o.s = someStr(r, 10);
      ops.push_back(o);
    }
    util::CodedBuffer buf;
    if (r.chance(30)) {  // a used and reset buffer
      buf.writeString("something else");
      buf.writeVarint(5);
      buf.reset();
    }
    std::vector<std::string> js;
    for (auto& o : ops) {
      if (o.t == 0) buf.writeVarint(o.i);
      if (o.t == 1) {
        if (r.chance(30)) {
          buf.writeVarint(o.s.size());
          buf.writeStringDataWithoutLengthPrefix(o.s);
        } else {
          buf.writeString(o.s);
        }
      }
      if (o.t == 2) buf.writeFixed32(static_cast<u32>(o.i));
      js.push_back(Obj().str("t", names[o.t]).raw("v", opv(o)).done());
    }
    auto c = buf.contents();
    std::string bytes(c.char_begin(), c.char_end());
    if (bytes.size() != buf.position()) bytes += "POSITION";
    std::vector<std::string> vals;
    long consumed = 0;
    bool overrun = false;
    readOps(ops, bytes, &vals, &consumed, &overrun);
    std::vector<int> cuts;
    for (size_t k = 0; k < bytes.size(); ++k) cuts.push_back(readOps(ops, bytes.substr(0, k), nullptr, nullptr, &overrun));
    // trailing data must not matter
    std::vector<std::string> vals2;
    long consumed2 = 0;
    readOps(ops, bytes + std::string(r.range(1, 12), '\xff'), &vals2, &consumed2, &overrun);
    if (vals2 != vals || consumed2 != consumed) overrun = true;
    out << Obj().str("kind", "ops").raw("ops", jarr(js)).bytes("bytes", bytes).raw("vals", jarr(vals)).num("consumed", consumed)
               .boolean("overrun", overrun).raw("cuts", jints(cuts)).done() << "\n";
  }
  return 0;
}

VH_COMMAND(bin_raw) {
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  int n = std::stoi(args[2]);
  for (int i = 0; i < n; ++i) {
    std::string s;
    int len = r.range(0, 14);
    int cont = r.range(0, 100);
    for (int k = 0; k < len; ++k) s += static_cast<char>((r.chance(cont) ? 128 : 0) | r.below(128));
    std::vector<char> mem(s.begin(), s.end());
    util::CodedBufferParser p{StringPiece{mem.data(), mem.data() + mem.size()}};
    u64 v = 0;
    bool ok = p.readVarint64(&v);
    out << Obj().str("kind", "raw").bytes("in", s).boolean("ok", ok).raw("v", ok ? digits(v) : "[]").num("consumed", p.numReadBytes()).done() << "\n";
  }
  return 0;
}

VH_COMMAND(bin_struct) {
  watchdog(200);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  int n = std::stoi(args[2]);
  for (int i = 0; i < n; ++i) {
    std::vector<std::string> js;
    auto jint = [&](u64 v) { js.push_back(Obj().str("t", "int").raw("v", digits(v)).done()); };
    auto jst = [&](const std::string& v) { js.push_back(Obj().str("t", "str").bytes("v", v).done()); };
    auto jword = [&](u32 v) { js.push_back(Obj().str("t", "word").bytes("v", word(v)).done()); };
    bool back;
    std::vector<std::string> cutok;
    std::string bytes;
    bool extra = false;
    int kind = r.below(100);
    if (kind < 30) {
      Inner in;
      in.s = someStr(r, 3);
      in.x = static_cast<i32>(someInt(r));
      in.b = r.chance(50);
      jst(in.s);
      jint(static_cast<u32>(in.x));
      jint(in.b ? 1 : 0);
      util::serialization::Saver s;
      s.save(in);
      bytes = s.result().str();
      Inner b;
      util::serialization::Loader l{StringPiece{bytes}};
      back = l.load(&b) && b == in;
      for (size_t k = 0; k < bytes.size(); ++k) {
        std::vector<char> mem(bytes.begin(), bytes.begin() + k);
        Inner z;
        util::serialization::Loader l2{StringPiece{mem.data(), mem.data() + mem.size()}};
        cutok.push_back(l2.load(&z) ? "true" : "false");
      }
    } else if (kind < 75) {
      Outer o;
      o.a = static_cast<u32>(someInt(r));
      jint(o.a);
      int nv = r.below(4);
      jint(nv);
      for (int k = 0; k < nv; ++k) {
        Inner in;
        in.s = someStr(r, 3);
        in.x = static_cast<i32>(someInt(r));
        in.b = r.chance(50);
        jst(in.s);
        jint(static_cast<u32>(in.x));
        jint(in.b ? 1 : 0);
        o.v.push_back(in);
      }
      o.q = static_cast<i64>(someInt(r));
      jint(static_cast<u64>(o.q));
      u32 fb = static_cast<u32>(r.next());
      std::memcpy(&o.f, &fb, 4);
      jword(fb);
      o.c = r.chance(50) ? Color::Green : Color::Blue;
      jint(static_cast<u64>(static_cast<int>(o.c)));
      int nw = r.below(5);
      jint(nw);
      for (int k = 0; k < nw; ++k) {
        o.w.push_back(static_cast<i32>(someInt(r)));
        jint(static_cast<u32>(o.w.back()));
      }
      o.u = someInt(r);
      jint(o.u);
      util::serialization::Saver s;
      s.save(o);
      bytes = s.result().str();
      Outer b;
      util::serialization::Loader l{StringPiece{bytes}};
      back = l.load(&b) && b == o;
      for (size_t k = 0; k < bytes.size(); ++k) {
        std::vector<char> mem(bytes.begin(), bytes.begin() + k);
        Outer z;
        util::serialization::Loader l2{StringPiece{mem.data(), mem.data() + mem.size()}};
        cutok.push_back(l2.load(&z) ? "true" : "false");
      }
      Outer z;
      std::string more = bytes + "x";
      util::serialization::Loader l3{StringPiece{more}};
      extra = l3.load(&z);
    } else {
      util::FlatMap<std::string, i32> m;
      std::map<std::string, i32> ref;
      int nm = r.range(0, 20);
      for (int k = 0; k < nm; ++k) {
        auto key = someStr(r, 3);
        auto v = static_cast<i32>(r.below(100000));
        m[key] = v;
        ref[key] = v;
      }
      util::serialization::Saver s;
      s.save(m);
      bytes = s.result().str();
      util::FlatMap<std::string, i32> b;
      util::serialization::Loader l{StringPiece{bytes}};
      back = l.load(&b) && b.size() == ref.size();
      size_t seen = 0;
      if (back) {
        for (auto& e : b) {
          auto it = ref.find(e.first);
          if (it == ref.end() || it->second != e.second) back = false;
          ++seen;
        }
        back = back && seen == ref.size();
      }
      // the iteration order is the map's own: describe the bytes by themselves
      js.push_back(Obj().str("t", "raw").bytes("v", bytes).done());
      for (size_t k = 0; k < bytes.size(); ++k) {
        std::vector<char> mem(bytes.begin(), bytes.begin() + k);
        util::FlatMap<std::string, i32> z;
        util::serialization::Loader l2{StringPiece{mem.data(), mem.data() + mem.size()}};
        cutok.push_back(l2.load(&z) ? "true" : "false");
      }
    }
    out << Obj().str("kind", "struct").raw("ops", jarr(js)).bytes("bytes", bytes).boolean("back", back).raw("cutok", jarr(cutok)).boolean("extra", extra).done() << "\n";
  }
  return 0;
}
