#include <cstring>
#include "util/csv_reader.h"
#include "vh.h"
using namespace jumanpp;
using namespace vh;

namespace {
std::string observe(const std::string& in, char sep, char quote, const std::string& viaFile) {
  util::CsvReader rd{sep, quote};
  bool ok;
  // an exactly sized heap block: reads past the end are not masked
  std::vector<char> mem(in.begin(), in.end());
  if (!viaFile.empty()) {
    std::ofstream o{viaFile, std::ios::binary | std::ios::trunc};
    o << in;
    o.close();
    ok = static_cast<bool>(rd.open(viaFile));
  } else {
    ok = static_cast<bool>(rd.initFromMemory(StringPiece{mem.data(), mem.data() + mem.size()}));
  }
  if (!ok) die("csv reader does not open");
  std::vector<std::string> rows;
  bool runaway = false, again = false;
  i64 lineno = 0;
  while (rd.nextLine()) {
    std::vector<std::string> f;
    for (int i = 0; i < rd.numFields(); ++i) {
      auto p = rd.field(i);
      f.push_back(jbytes(p.char_begin(), p.char_end()));
    }
    rows.push_back(jarr(f));
    if (rows.size() > in.size() + 2) {
      rows.clear();
      runaway = true;
      break;
    }
  }
  lineno = rd.lineNumber();
  bool bad = rd.bytePosition() != rd.byteSize();
  if (!runaway) again = rd.nextLine() || rd.nextLine();
  Obj o;
  o.num("sep", sep).num("quote", quote).bytes("in", in).raw("rows", jarr(rows)).boolean("bad", bad);
  o.boolean("runaway", runaway).boolean("again", again).num("lineno", lineno);
  return o.done();
}
}  // namespace

// csv_all OUT MAXLEN: every string over the alphabet
VH_COMMAND(csv_all) {
  watchdog(200);
  std::ofstream out{args[0]};
  int maxLen = std::stoi(args[1]);
  const char alpha[] = {'a', ',', '"', '\n', '\r'};
  std::vector<std::string> cur{""};
  for (int l = 0; l <= maxLen; ++l) {
    std::vector<std::string> nxt;
    for (auto& s : cur) {
      out << observe(s, ',', '"', "") << "\n";
      if (l < maxLen)
        for (char c : alpha) nxt.push_back(s + c);
    }
    cur.swap(nxt);
  }
  return 0;
}

// csv_random OUT SEED N TMPFILE
VH_COMMAND(csv_random) {
  watchdog(200);
  std::ofstream out{args[0]};
  Rng r{std::stoull(args[1])};
  int n = std::stoi(args[2]);
  for (int i = 0; i < n; ++i) {
    char sep = r.chance(70) ? ',' : (r.chance(50) ? '\t' : ' ');
    char quote = r.chance(80) ? '"' : '\'';
    std::string s;
    int kind = r.below(10);
    if (kind < 4) {  // raw noise
      int len = r.range(1, 40);
      std::string al = std::string("ab\xe3\x81\x82") + sep + sep + quote + quote + "\n\n\r\r\n";
      for (int k = 0; k < len; ++k) s += al[r.below(static_cast<int>(al.size()))];
    } else {  // well formed rows, any quoting and line ends
      int rows = r.range(1, 6);
      for (int a = 0; a < rows; ++a) {
        int cols = r.range(1, 5);
        for (int b = 0; b < cols; ++b) {
          if (b) s += sep;
          int len = r.chance(30) ? 0 : r.range(1, 8);
          if (kind == 9 && r.chance(30)) len = r.range(200, 1500);
          std::string f;
          for (int k = 0; k < len; ++k) {
            int z = r.below(12);
            f += z == 0 ? sep : z == 1 ? quote : z == 2 ? '\n' : z == 3 ? '\r' : static_cast<char>('a' + r.below(3));
          }
          bool need = f.find_first_of(std::string("\r\n") + sep + quote) != std::string::npos;
          if (need || r.chance(20)) {
            s += quote;
            for (char c : f) {
              s += c;
              if (c == quote) s += c;
            }
            s += quote;
          } else {
            s += f;
          }
        }
        if (a + 1 < rows || r.chance(60)) s += r.chance(50) ? "\n" : r.chance(70) ? "\r\n" : "\n\r";
      }
    }
    // an empty file cannot be mapped
    out << observe(s, sep, quote, (!s.empty() && r.chance(30)) ? args[3] : "") << "\n";
  }
  return 0;
}
