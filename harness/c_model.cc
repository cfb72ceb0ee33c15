// mfile <job> <observations>: model files, saved, loaded, cut and damaged.
//   FILE pre=none|N|again limit=N parts=kind:commenthex:seed.size,...;... cuts=a,b dmg=pos.byte+pos.byte,...
#include "c_env.h"
#include <sys/resource.h>
#include <sys/stat.h>
#include <csignal>
#include "core/impl/model_io.h"
using namespace vh;
namespace model = jumanpp::core::model;

namespace {
std::vector<std::string> split(const std::string& s, char c) {
  std::vector<std::string> r;
  std::string cur;
  for (char x : s) {
    if (x == c) {
      r.push_back(cur);
      cur.clear();
    } else {
      cur += x;
    }
  }
  if (!s.empty()) r.push_back(cur);
  return r;
}
inline unsigned char patByte(long seed, long i) { return (unsigned char)((seed + i * 7 + (i / 256) * 13) % 251); }

std::string loadFile(const std::string& fn) {
  model::FilesystemModel m;
  model::ModelInfo info;
  Status s = Status::Ok();
  bool exc = false;
  try {
    s = m.open(fn);
    if (s) s = m.load(&info);
  } catch (std::exception&) {
    exc = true;
    info.parts.clear();
  }
  Obj o;
  o.boolean("exc", exc);
  o.boolean("ok", (bool)s);
  std::vector<std::string> ps;
  if (s) {
    for (auto& p : info.parts) {
      std::vector<std::string> bs;
      for (auto& b : p.data) {
        long n = (long)b.size(), k = std::min(n, 4l);
        auto* d = (const unsigned char*)b.begin();
        long seed = n > 0 ? d[0] : 0;
        for (long i = 0; i < n && seed >= 0; ++i) {
          if (d[i] != patByte(seed, i)) seed = -1;
        }
        bs.push_back(Obj().num("n", n).raw("first", jbytes(d, d + k)).raw("last", jbytes(d + n - k, d + n)).num("seed", seed).done());
      }
      ps.push_back(Obj().num("kind", (int)p.kind).raw("comment", jbytes(p.comment.begin(), p.comment.end())).raw("blocks", jarr(bs)).done());
    }
  }
  return o.raw("parts", jarr(ps)).done();
}

void writeFile(const std::string& fn, const std::string& s) {
  std::ofstream o{fn, std::ios::binary | std::ios::trunc};
  o.write(s.data(), (std::streamsize)s.size());
  if (!o) die("can't write " + fn);
}
}  // namespace

VH_COMMAND(mfile) {
  std::ofstream out{args.at(1)};
  std::string dir = args.at(1) + ".dir";
  mkdir(dir.c_str(), 0777);
  std::string fn = dir + "/m", copy = dir + "/c";
  signal(SIGXFSZ, SIG_IGN);
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(60);
    std::map<std::string, std::string> kv;
    for (size_t i = 1; i < l.size(); ++i) {
      auto e = l[i].find('=');
      kv[l[i].substr(0, e)] = l[i].substr(e + 1);
    }
    if (kv["pre"] == "none") {
      unlink(fn.c_str());
    } else if (kv["pre"] != "again") {
      writeFile(fn, std::string((size_t)std::stol(kv["pre"]), 'z'));
    }
    model::ModelInfo info;
    std::vector<std::string> saved;
    std::vector<std::unique_ptr<std::string>> mem;
    for (auto& p : split(kv["parts"], ';')) {
      auto f = split(p + ":", ':');
      model::ModelPart mp;
      mp.kind = static_cast<model::ModelPartKind>(std::stoi(f[0]));
      mp.comment = unhex(f[1] == "-" ? "" : f[1]);
      std::vector<std::string> bs;
      if (f.size() > 2) {
        for (auto& b : split(f[2], ',')) {
          auto x = split(b, '.');
          long seed = std::stol(x[0]), n = std::stol(x[1]);
          mem.emplace_back(new std::string((size_t)n, '\0'));
          for (long i = 0; i < n; ++i) (*mem.back())[(size_t)i] = (char)patByte(seed, i);
          mp.data.push_back(jumanpp::StringPiece{*mem.back()});
          bs.push_back("[" + x[0] + "," + x[1] + "]");
        }
      }
      saved.push_back(Obj().num("kind", (int)mp.kind).raw("comment", jbytes(mp.comment.begin(), mp.comment.end())).raw("blocks", jarr(bs)).done());
      info.parts.push_back(std::move(mp));
    }
    long limit = std::stol(kv["limit"]);
    struct rlimit old, lim;
    getrlimit(RLIMIT_FSIZE, &old);
    lim = old;
    if (limit > 0) {
      lim.rlim_cur = (rlim_t)limit;
      setrlimit(RLIMIT_FSIZE, &lim);
    }
    Status s = Status::Ok();
    std::string before = kv["pre"] == "again" ? loadFile(fn) : "{\"ok\":false}";
    {
      model::ModelSaver ms;
      s = ms.open(fn);
      if (s) s = ms.save(info);
    }
    setrlimit(RLIMIT_FSIZE, &old);
    std::string bytes = slurp(fn);
    std::string h = bytes.substr(0, 4096);
    h.resize(h.find_last_not_of('\0') + 1);
    Obj o;
    o.raw("saved", jarr(saved)).boolean("ok", (bool)s).num("size", (long)bytes.size()).raw("h", jbytes(h.begin(), h.end()));
    o.num("limit", limit).num("hlen", std::stol(kv["hlen"])).raw("load", loadFile(fn)).raw("before", before).boolean("fresh", kv["pre"] == "none");
    std::vector<std::string> cuts, dmg;
    if (s) {
      for (auto& c : split(kv["cuts"], ',')) {
        long at = std::stol(c);
        if (at < 0) at = (long)bytes.size() + at;
        if (at < 0 || at >= (long)bytes.size()) continue;
        writeFile(copy, bytes.substr(0, (size_t)at));
        cuts.push_back(Obj().num("at", at).raw("load", loadFile(copy)).done());
      }
      for (auto& d : split(kv["dmg"], ',')) {
        std::string b = bytes;
        std::vector<std::string> ch;
        for (auto& x : split(d, '+')) {
          auto pv = split(x, '.');
          size_t p = (size_t)std::stol(pv[0]);
          if (p >= b.size()) continue;
          b[p] = (char)std::stoi(pv[1]);
          ch.push_back("[" + pv[0] + "," + pv[1] + "]");
        }
        writeFile(copy, b);
        dmg.push_back(Obj().raw("ch", jarr(ch)).raw("load", loadFile(copy)).done());
      }
    }
    out << o.raw("cuts", jarr(cuts)).raw("dmg", jarr(dmg)).done() << "\n";
  }
  unlink(fn.c_str());
  unlink(copy.c_str());
  rmdir(dir.c_str());
  return 0;
}
