// pexan <job file> <observations>: analyses with partial annotations.
//   MODEL spec dic prio | CONF k=v ... | W seed bits | ANN <hex of a text> <seed> <values: hex,hex,...>
// The text is analysed; an annotation that is made of its lattice (or not quite) is read and the
// text is analysed with it and then again without.
#include <random>
#include "c_env.h"
#include "core/analysis/analyzer.h"
#include "core/input/partial_example_io.h"
#include "core/input/pex_stream_reader.h"
using namespace vh;
using namespace jumanpp::core::input;

namespace {
struct PexAn {
  std::unique_ptr<Model> model;
  std::unique_ptr<TrainFieldsIndex> tio;
  std::vector<std::string> names;  // fields that can be annotated
  std::vector<std::string> vals;
  std::mt19937 rng;

  int rnd(int n) { return (int)(rng() % (unsigned)n); }
  bool chance(double p) { return (rng() & 0xffff) < p * 0x10000; }

  void fields() {
    names.clear();
    for (auto& f : tio->fields()) {
      if (f.dicFieldIdx >= 0) names.push_back(f.name.str());
    }
  }

  // rows of values of the node
  std::vector<std::vector<std::string>> rows(OpenAnalyzer& a, int b, int i) {
    auto& om = a.output();
    NodeWalker w = om.nodeWalker();
    std::vector<std::vector<std::string>> res;
    if (!om.locate(a.lattice()->boundary(b)->starts()->nodeInfo().at(i).entryPtr(), &w)) return res;
    while (w.next()) {
      std::vector<std::string> r;
      for (auto& n : names) {
        StringField x;
        if (!om.stringField(n, &x)) die("no field " + n);
        r.push_back(x[w].str());
      }
      if (std::find(res.begin(), res.end(), r) == res.end()) res.push_back(r);
    }
    return res;
  }

  static bool clean(const std::string& s) {
    for (char c : s) {
      if (c == '\t' || c == '\n' || c == '\r' || c == '\0') return false;
    }
    return true;
  }

  // a sentence whose lines go along a path of the lattice
  std::string annotate(OpenAnalyzer& a) {
    auto* l = a.lattice();
    int n = (int)l->createdBoundaryCount();
    std::vector<bool> alive(n, false);
    alive[n - 1] = true;
    auto endOf = [&](int b, int i) { return b + l->boundary(b)->starts()->nodeInfo().at(i).numCodepoints(); };
    for (int b = n - 2; b >= 2; --b) {
      for (size_t i = 0; i < l->boundary(b)->localNodeCount(); ++i) {
        if (alive[endOf(b, i)]) alive[b] = true;
      }
    }
    auto& cps = a.input().codepoints();
    std::string out;
    double tagp = chance(0.3) ? 1 : chance(0.5) ? 0.4 : 0.1, wordp = chance(0.3) ? 1 : chance(0.5) ? 0.4 : 0.15, cutp = chance(0.5) ? 0.5 : 0.1, joinp = chance(0.5) ? 0.5 : 0.15, bad = chance(0.3) ? 0.2 : 0;
    std::string line;  // a stretch that is being written
    if (chance(0.3)) out += "# c\n";
    for (int b = 2; b < n - 1;) {
      std::vector<int> cand;
      for (size_t i = 0; i < l->boundary(b)->localNodeCount(); ++i) {
        if (alive[endOf(b, i)]) cand.push_back(i);
      }
      if (cand.empty()) return "";
      int i = cand[rnd(cand.size())], e = endOf(b, i);
      if (chance(bad)) e = std::min(n - 1, b + 1 + rnd(3));
      std::string text;
      for (int p = b; p < e; ++p) text += cps.at(p - 2).bytes.str();
      if (chance(wordp) && clean(text)) {
        if (!line.empty()) out += line + "\n";
        line.clear();
        out += "\t" + text;
        auto rs = rows(a, b, i);
        if (!rs.empty()) {
          auto& r = rs[rnd(rs.size())];
          for (size_t k = 0; k < names.size(); ++k) {
            if (!chance(tagp)) continue;
            std::string v = chance(bad) && !vals.empty() ? vals[rnd(vals.size())] : r[k];
            if (clean(v)) out += "\t" + names[k] + ":" + v;
          }
        }
        out += "\n";
      } else {
        bool join = chance(joinp);
        for (int p = b; p < e; ++p) {
          if (p > b && join) line += "&";
          line += cps.at(p - 2).bytes.str();
        }
        if (chance(bad)) line += "&";
        if (chance(cutp)) {
          out += line + "\n";
          line.clear();
        }
      }
      b = e;
      while (b < n - 1 && !alive[b]) {
        line += cps.at(b - 2).bytes.str();
        ++b;
      }
    }
    if (!line.empty()) out += line + "\n";
    return out + "\n";
  }

  static long score(float f) {
    if (f != f || f > 1e9f || f < -1e9f || (float)(long)f != f) return -1000000000;
    return (long)f;
  }

  static std::string node(const ConnectionPtr* p) {
    return "[" + std::to_string(p->boundary) + "," + std::to_string(p->right + 1) + "]";
  }

  // the end of sentence beam: [score, [[boundary, node] ...]] in the order of the text
  std::string beam(OpenAnalyzer& a, bool top) {
    std::vector<std::string> res;
    auto* l = a.lattice();
    int n = (int)l->createdBoundaryCount();
    if (n > 3) {
      for (auto& e : l->boundary(n - 1)->starts()->beamData().row(0)) {
        if (EntryBeam::isFake(e)) break;
        std::vector<std::string> path;
        for (auto* p = e.ptr.previous; p != nullptr && p->boundary >= 2; p = p->previous) path.push_back(node(p));
        std::reverse(path.begin(), path.end());
        res.push_back("[" + std::to_string(score(e.totalScore)) + "," + jarr(path) + "]");
        if (top) break;
      }
    }
    return jarr(res);
  }

  std::string nodes(OpenAnalyzer& a) {
    auto* l = a.lattice();
    int n = (int)l->createdBoundaryCount();
    std::vector<std::string> bs;
    for (int b = 0; b < n; ++b) {
      std::vector<std::string> ns;
      for (size_t i = 0; b >= 2 && b < n - 1 && i < l->boundary(b)->localNodeCount(); ++i) {
        auto& ni = l->boundary(b)->starts()->nodeInfo().at(i);
        std::vector<std::string> rs;
        for (auto& r : rows(a, b, i)) {
          std::vector<std::string> v;
          for (auto& x : r) v.push_back(jbytes(x));
          rs.push_back(jarr(v));
        }
        ns.push_back("[" + std::to_string(ni.end()) + "," + jarr(rs) + "]");
      }
      bs.push_back(jarr(ns));
    }
    return jarr(bs);
  }
};
}  // namespace

VH_COMMAND(pexan) {
  std::ofstream out{args.at(1)};
  PexAn r;
  std::string tmp = args.at(1) + ".model";
  Weights w;
  w.make(1, 12);
  Conf conf;
  std::unique_ptr<OpenAnalyzer> an;
  std::unique_ptr<PexStreamReader> sr;
  int used = 0;
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(60);
    if (l[0] == "MODEL") {
      sr.reset();
      an.reset();
      r.tio.reset();
      r.model.reset(new Model);
      if (!r.model->build(l[1], l[2], l.size() > 3 ? l[3] : "-", tmp)) refused("model: " + r.model->failStage + ": " + r.model->failMsg);
      r.tio.reset(new TrainFieldsIndex);
      Status s = r.tio->initialize(*r.model->core);
      if (!s) refused("training fields: " + msgOf(s));
      r.fields();
      sr.reset(new PexStreamReader);
      s = sr->initialize(*r.model->core);
      if (!s) refused("stream reader: " + msgOf(s));
    } else if (l[0] == "CONF") {
      conf = Conf::parse(l, 1);
      an.reset();
    } else if (l[0] == "W") {
      w.make(std::stoi(l[1]), std::stoi(l[2]));
      an.reset();
    } else if (l[0] == "ANN") {
      std::string text = unhex(l[1]);
      r.rng.seed(std::stoul(l[2]));
      r.vals.clear();
      std::istringstream cs{l.size() > 3 ? l[3] : ""};
      for (std::string c; std::getline(cs, c, ',');) r.vals.push_back(unhex(c == "-" ? "" : c));
      if (!an || ++used % 7 == 0) {
        ScoringConfig sc{conf.get("beam", 3), 1};
        an.reset(new OpenAnalyzer(r.model->core.get(), sc, conf.aconf()));
      }
      Analyzer a;
      Status s = a.initialize(an.get(), &w.def);
      if (!s) refused("analyser: " + msgOf(s));
      if (!a.analyze(text)) continue;
      std::string pex = r.annotate(*an);
      if (pex.empty()) continue;
      std::istringstream in{pex};
      s = sr->readExample(&in);
      Obj o;
      o.bytes("pex", pex).raw("c", conf.json()).boolean("ok", (bool)s);
      if (!s) {
        o.str("msg", msgOf(s));
        std::vector<std::string> ns;
        for (auto& n : r.names) ns.push_back(jbytes(n));
        o.raw("names", jarr(ns));
        out << o.done() << "\n";
        continue;
      }
      std::string surf = sr->surface().str();
      if (!a.analyze(surf)) continue;
      std::vector<std::string> ns, em;
      for (auto& n : r.names) {
        ns.push_back(jbytes(n));
        for (auto& f : r.model->core->spec().dictionary.fields) {
          if (f.name == n) em.push_back(jbytes(f.emptyString));
        }
      }
      o.bytes("text", surf).raw("names", jarr(ns)).raw("emp", jarr(em));
      o.raw("N", r.nodes(*an)).raw("base", r.beam(*an, false));
      s = sr->analyzeWith(&a);
      o.boolean("aok", (bool)s);
      o.raw("same", r.nodes(*an)).raw("res", r.beam(*an, true));
      // the result that is shown
      o.raw("path", s ? pathJson(*an) : "[]");
      {
        PartialExampleReader fr;
        PartialExample ex;
        bool eof = false;
        if (!fr.initialize(r.tio.get()) || !fr.setData(pex) || !fr.readExample(&ex, &eof)) refused("the reader refuses what the stream reader reads");
        auto* lat = an->lattice();
        std::vector<std::string> bs;
        for (int b = 0; b < (int)lat->createdBoundaryCount(); ++b) {
          std::vector<int> m;
          for (size_t i = 0; b >= 2 && b + 1 < (int)lat->createdBoundaryCount() && i < lat->boundary(b)->localNodeCount(); ++i) m.push_back(ex.doesNodeMatch(lat, b, i));
          bs.push_back(jints(m));
        }
        o.raw("match", jarr(bs));
      }
      s = a.analyze(surf);
      if (!s) refused("analysis: " + msgOf(s));
      o.raw("again", r.beam(*an, false));
      out << o.done() << "\n";
    } else {
      die("bad job line " + l[0]);
    }
  }
  unlink(tmp.c_str());
  return 0;
}
