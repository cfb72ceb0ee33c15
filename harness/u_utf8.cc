#include "util/characters.h"
#include "vh.h"
using namespace jumanpp;
using namespace vh;
namespace {
std::string observe(const std::string& in) {
  std::vector<char> mem(in.begin(), in.end());
  StringPiece sp{mem.data(), mem.data() + mem.size()};
  std::vector<chars::InputCodepoint> res;
  bool ok = static_cast<bool>(chars::preprocessRawData(sp, &res));
  std::vector<std::string> cs;
  if (ok) {
    for (auto& c : res) {
      cs.push_back(jints(std::vector<long long>{static_cast<long long>(c.codepoint), static_cast<long long>(c.charClass),
                                                c.bytes.char_begin() - sp.char_begin(),
                                                c.bytes.char_end() - sp.char_begin()}));
    }
  }
  Obj o;
  o.str("kind", "decode").bytes("in", in).boolean("ok", ok).raw("chars", jarr(cs)).num("count", chars::numCodepoints(sp));
  return o.done();
}
}  // namespace

// utf8_all OUT MAXLEN hexalphabet
VH_COMMAND(utf8_all) {
  watchdog(200);
  std::ofstream out{args[0]};
  int maxLen = std::stoi(args[1]);
  std::string alpha = unhex(args[2]);
  std::vector<std::string> cur{""};
  for (int l = 0; l <= maxLen; ++l) {
    std::vector<std::string> nxt;
    for (auto& s : cur) {
      out << observe(s) << "\n";
      if (l < maxLen)
        for (char c : alpha) nxt.push_back(s + c);
    }
    cur.swap(nxt);
  }
  return 0;
}

// utf8_random OUT SEED N: encoded random code points, sometimes damaged
VH_COMMAND(utf8_random) {
  watchdog(200);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  int n = std::stoi(args[2]);
  for (int i = 0; i < n; ++i) {
    std::string s;
    int len = r.range(1, 12);
    for (int k = 0; k < len; ++k) {
      int z = r.below(6);
      unsigned c = z == 0 ? r.below(0x80) : z == 1 ? r.range(0x80, 0x7ff) : z == 2 ? r.range(0x3000, 0x30ff)
                   : z == 3 ? r.range(0x800, 0xffff) : z == 4 ? r.range(0x10000, 0x10ffff) : r.range(0x4e00, 0x9fff);
      if (c < 0x80) {
        s += static_cast<char>(c);
      } else if (c < 0x800) {
        s += static_cast<char>(0xc0 | (c >> 6));
        s += static_cast<char>(0x80 | (c & 63));
      } else if (c < 0x10000) {
        s += static_cast<char>(0xe0 | (c >> 12));
        s += static_cast<char>(0x80 | ((c >> 6) & 63));
        s += static_cast<char>(0x80 | (c & 63));
      } else {
        s += static_cast<char>(0xf0 | (c >> 18));
        s += static_cast<char>(0x80 | ((c >> 12) & 63));
        s += static_cast<char>(0x80 | ((c >> 6) & 63));
        s += static_cast<char>(0x80 | (c & 63));
      }
    }
    if (r.chance(40)) {
      int pos = r.below(static_cast<int>(s.size()));
      if (r.chance(50)) s[pos] = static_cast<char>(r.below(256));
      else s.erase(pos, 1);
    }
    out << observe(s) << "\n";
  }
  return 0;
}

// utf8_class OUT FROM TO STEP: blocks of 256 code points, every STEP-th block
VH_COMMAND(utf8_class) {
  std::ofstream out{args[0], std::ios::app};
  long from = std::stol(args[1]), to = std::stol(args[2]), step = std::stol(args[3]);
  for (long b = from; b < to; b += 256 * step) {
    std::vector<long long> cls;
    for (long c = b; c < b + 256; ++c) cls.push_back(static_cast<long long>(chars::getCodeType(static_cast<char32_t>(c))));
    out << Obj().str("kind", "class").num("from", b).raw("cls", jints(cls)).done() << "\n";
  }
  return 0;
}
