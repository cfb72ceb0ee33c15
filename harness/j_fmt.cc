// jfmt <job file> <observations> [tables]: the text formats of one analysis.
//   MODEL @jumandic dic | CONF k=v ... (n= paths of the lattice format) | W seed bits | COM hex | SEP hex |
//   RT 0/1 (import the dictionary subset again) | IN hex
#include <algorithm>
#include "c_env.h"
#include "core/analysis/charlattice.h"
#include "core/impl/segmented_format.h"
#include "jumandic/shared/jumandic_id_resolver.h"
#include "jumandic/shared/jumandic_ids.h"
#include "jumandic/shared/juman_format.h"
#include "jumandic/shared/lattice_format.h"
#include "jumandic/shared/morph_format.h"
#include "jumandic/shared/subset_format.h"
#include "jpp_jumandic_cg.h"
using namespace vh;

namespace {
const char* NAMES[] = {"surface", "reading", "baseform", "pos", "subpos", "conjtype", "conjform", "canonic"};

// fields of a row: the eight strings, then [[key, value?] ...]
std::string row(const Model& m, const OutputManager& om, const NodeWalker& w, bool bytes) {
  auto js = [bytes](const std::string& s) { return bytes ? jbytes(s) : jstr(s); };
  std::vector<std::string> r;
  for (std::string n : NAMES) {
    StringField f;
    if (!om.stringField(n, &f)) refused("field " + n);
    r.push_back(js(f[w].str()));
  }
  KVListField kv;
  if (!om.kvListField("features", &kv)) refused("features");
  auto it = kv[w];
  std::vector<std::string> l;
  while (it.next()) {
    std::vector<std::string> e{js(it.key().str())};
    if (it.hasValue()) e.push_back(js(it.value().str()));
    l.push_back(jarr(e));
  }
  r.push_back(jarr(l));
  return jarr(r);
}

std::string rows(const Model& m, const OutputManager& om, EntryPtr e, bool bytes) {
  NodeWalker w = om.nodeWalker();
  std::vector<std::string> r;
  if (!om.locate(e, &w)) return "[]";
  while (w.next()) r.push_back(row(m, om, w, bytes));
  return jarr(r);
}

// names of the changes of a normalised surface
std::string norm(int v) {
  using M = charlattice::Modifiers;
  static const std::pair<M, const char*> all[] = {
      {M::REPLACE, "replace"}, {M::REPLACE_SMALLKANA, "replace-small"}, {M::REPLACE_PROLONG, "replace-prolong"},
      {M::REPLACE_EROW_WITH_E, "replace-erow"}, {M::DELETE, "delete"}, {M::DELETE_PROLONG, "delete-prolong"},
      {M::DELETE_SMALLKANA, "delete-small"}, {M::DELETE_HASTSUON, "delete-hatsuon"}, {M::DELETE_LAST, "delete-last"}};
  std::vector<std::string> r;
  for (auto& p : all) {
    if (v & static_cast<int>(p.first)) r.push_back(jstr(p.second));
  }
  return jarr(r);
}

long score(float f) {
  if (f != f || f > 9e5f || f < -9e5f || (float)(long)f != f) return -1000000000;
  return (long)f;
}

std::string tuples(const jumandic::JumandicTuple* t, unsigned n) {
  std::vector<std::string> r;
  for (unsigned i = 0; i < n; ++i) {
    r.push_back("[" + jstr(t[i].part1.str()) + "," + jstr(t[i].part2.str()) + "," + std::to_string(t[i].id1) + "," + std::to_string(t[i].id2) + "]");
  }
  return jarr(r);
}

template <typename F>
std::string text(F& f, const Analyzer& a, const std::string& com) {
  Status s = f.format(a, com);
  if (!s) refused("format: " + msgOf(s));
  return f.result().str();
}
}  // namespace

VH_COMMAND(jfmt) {
  std::ofstream out{args.at(1)};
  if (args.size() > 2) {
    std::ofstream t{args[2]};
    Obj o;
    o.raw("pos", tuples(jumandic::posInfo, jumandic::posInfoCount)).raw("conj", tuples(jumandic::conjInfo, jumandic::conjInfoCount));
    auto lab = [&](const char* k, const char* v) { o.str(k, v); };
    lab("feature", "特徴量スコア:");
    lab("total", "形態素解析スコア:");
    lab("rank", "ランク:");
    lab("canonic", "代表表記:");
    lab("nonstd", "非標準表記:");
    lab("blank", "\\␣");
    t << o.done() << "\n";
  }
  jumanpp_generated::JumandicStatic feats;
  std::unique_ptr<Model> model;
  std::string tmp = args.at(1) + ".model", com, sep = " ";
  std::string dicFile;
  Weights w;
  w.make(1, 14);
  Conf conf;
  std::unique_ptr<OpenAnalyzer> an;
  bool rt = false;
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(60);
    if (l[0] == "MODEL") {
      an.reset();
      model.reset(new Model);
      model->factory = &feats;
      dicFile = l[2];
      if (!model->build(l[1], l[2], "-", tmp)) refused("model: " + model->failStage + ": " + model->failMsg);
    } else if (l[0] == "CONF") {
      conf = Conf::parse(l, 1);
      an.reset();
    } else if (l[0] == "W") {
      w.make(std::stoi(l[1]), std::stoi(l[2]));
      an.reset();
    } else if (l[0] == "COM") {
      com = unhex(l[1]);
    } else if (l[0] == "SEP") {
      sep = unhex(l[1]);
    } else if (l[0] == "RT") {
      rt = l[1] == "1";
    } else if (l[0] == "IN") {
      if (!an) an.reset(new OpenAnalyzer(model->core.get(), ScoringConfig{conf.get("beam", 3), 1}, conf.aconf()));
      Analyzer a;
      Status s = a.initialize(an.get(), &w.def);
      if (!s) refused("analyser: " + msgOf(s));
      std::string in = unhex(l[1]);
      s = a.analyze(in);
      if (!s) continue;
      auto& om = a.output();
      auto lat = an->lattice();
      int nb = (int)lat->createdBoundaryCount();
      // paths
      std::set<std::pair<int, int>> used;
      std::vector<std::string> paths;
      if (nb > 3) {
        for (auto& e : lat->boundary(nb - 1)->starts()->beamData().row(0)) {
          if (EntryBeam::isFake(e)) break;
          std::vector<std::string> p;
          for (auto* c = e.ptr.previous; c != nullptr && c->boundary >= 2; c = c->previous) {
            used.insert({c->boundary, c->right});
            p.push_back("[" + std::to_string(c->boundary) + "," + std::to_string(c->right) + "," +
                        std::to_string(score(lat->boundary(c->boundary)->scores()->forPtr(*c)[0])) + "]");
          }
          std::reverse(p.begin(), p.end());
          paths.push_back("[" + std::to_string(score(e.totalScore)) + "," + jarr(p) + "]");
        }
      }
      std::vector<std::string> ns, ents;
      std::set<int> seen;
      for (int b = 2; b < nb - 1; ++b) {
        auto st = lat->boundary(b)->starts();
        for (int i = 0; i < (int)st->numEntries(); ++i) {
          auto& ni = st->nodeInfo().at(i);
          auto e = ni.entryPtr();
          if (used.count({b, i})) {
            int v = e.isSpecial() ? om.valueOfUnkPlaceholder(e, jumandic::NormalizedPlaceholderIdx) : 0;
            ns.push_back("[" + std::to_string(b) + "," + std::to_string(i) + "," + std::to_string(ni.end()) + "," +
                         (e.isSpecial() ? "1" : "0") + "," + norm(v) + "," + rows(*model, om, e, false) + "]");
          }
          if (e.isDic() && seen.insert(e.rawValue()).second) ents.push_back(rows(*model, om, e, true));
        }
      }
      jumandic::output::JumanFormat juman;
      jumandic::output::MorphFormat morph{false}, full{true};
      jumandic::output::SubsetFormat subset;
      jumandic::output::LatticeFormat lattice{conf.get("n", 1)};
      core::output::SegmentedFormat seg;
      s = juman.initialize(om);
      if (s) s = morph.initialize(om);
      if (s) s = full.initialize(om);
      if (s) s = subset.initialize(om);
      if (s) s = lattice.initialize(om);
      if (s) s = seg.initialize(om, *model->core, sep);
      if (!s) refused("formats: " + msgOf(s));
      Obj o;
      o.str("in", in).str("com", com).str("sep", sep).raw("c", conf.json());
      o.num("K", an->lcfg().beamSize).raw("P", jarr(paths)).raw("N", jarr(ns)).raw("E", jarr(ents));
      o.str("lattice", text(lattice, a, com)).str("juman", text(juman, a, com)).str("morph", text(morph, a, com)).str("full", text(full, a, com));
      o.str("segment", text(seg, a, com));
      std::string sub = text(subset, a, com);
      const std::string mark = "### SUBSET OF DICTIONARY\n";
      auto at = sub.find(mark);
      at = at == std::string::npos ? sub.size() : at + mark.size();
      o.str("head", sub.substr(0, at)).bytes("mdic", sub.substr(at));
      if (rt) {
        // the templates and the subset make a dictionary again
        std::string all = slurp(dicFile), fn = tmp + ".csv";
        size_t pos = 0;
        for (int i = 0; i < 8; ++i) pos = all.find('\n', pos) + 1;
        {
          std::ofstream f{fn};
          f << all.substr(0, pos) << sub.substr(at);
        }
        Model again;
        again.factory = &feats;
        bool ok = again.build("@jumandic", fn, "-", tmp + ".rt");
        std::vector<std::string> e2;
        if (ok) {
          OpenAnalyzer an2(again.core.get(), ScoringConfig{1, 1}, AnalyzerConfig{});
          Analyzer a2;
          s = a2.initialize(&an2, &w.def);
          if (!s) refused("analyser: " + msgOf(s));
          s = a2.analyze(in);
          std::set<int> seen2;
          auto l2 = an2.lattice();
          for (int b = 2; s && b < (int)l2->createdBoundaryCount() - 1; ++b) {
            for (auto& ni : l2->boundary(b)->starts()->nodeInfo()) {
              auto e = ni.entryPtr();
              if (e.isDic() && seen2.insert(e.rawValue()).second) e2.push_back(rows(again, a2.output(), e, true));
            }
          }
        }
        o.boolean("rtok", ok && (bool)s).str("rtmsg", again.failMsg).raw("E2", jarr(e2));
        unlink(fn.c_str());
        unlink((tmp + ".rt").c_str());
      }
      out << o.done() << "\n";
    } else {
      die("bad job line " + l[0]);
    }
  }
  unlink(tmp.c_str());
  return 0;
}
