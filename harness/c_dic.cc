// dic <job> <out>: looks up keys in the dictionary of a model.
//   MODEL spec dic | Q hex chunk  (chunk = bytes per step, 0 = all at once) | T (template rows)
#include "c_env.h"
using namespace vh;

VH_COMMAND(dic) {
  std::ofstream out{args.at(1)};
  std::unique_ptr<Model> model;
  std::unique_ptr<OpenAnalyzer> an;
  int m = 0;
  std::string tmp = args.at(1) + ".model";
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(120);
    if (l[0] == "MODEL") {
      an.reset();
      model.reset(new Model);
      ++m;
      if (!model->build(l[1], l[2], "-", tmp)) {
        out << Obj().num("m", m).str("kind", "fail").str("stage", model->failStage)
                   .str("msg", model->failMsg).done() << "\n";
        model.reset();
        continue;
      }
      an.reset(new OpenAnalyzer(model->core.get(), ScoringConfig{1, 1}, AnalyzerConfig{}));
    } else if (!model) {
      continue;
    } else if (l[0] == "Q") {
      std::string q = unhex(l[1]);
      size_t chunk = std::stoul(l[2]);
      if (chunk == 0) chunk = q.size();
      auto tr = model->holder.entries().traversal();
      dic::TraverseStatus st = dic::TraverseStatus::NoNode;
      for (size_t i = 0; i < q.size(); i += chunk) {
        size_t e = std::min(q.size(), i + chunk);
        std::string part = q.substr(i, e - i);
        st = tr.step(part);
        if (st == dic::TraverseStatus::NoNode) break;
      }
      std::vector<std::string> rows;
      if (st == dic::TraverseStatus::Ok) {
        auto es = tr.entries();
        while (es.readOnePtr()) {
          auto& om = an->output();
          NodeWalker w = om.nodeWalker();
          if (!om.locate(es.currentPtr(), &w)) {
            rows.push_back("[]");
            continue;
          }
          while (w.next()) rows.push_back(fieldsJson(*model, om, w));
        }
      }
      out << Obj().num("m", m).str("kind", "q").bytes("q", q)
                 .str("st", st == dic::TraverseStatus::Ok ? "ok" : st == dic::TraverseStatus::NoLeaf ? "prefix" : "none")
                 .raw("rows", jarr(rows)).done() << "\n";
    } else if (l[0] == "T") {
      std::vector<std::string> ts;
      for (auto& u : model->dic.spec.unkCreators) {
        ts.push_back("[" + std::to_string(u.patternRow) + "," +
                     (u.patternPtr == spec::InvalidInt ? std::string("[]")
                                                       : nodeRows(*model, *an, EntryPtr{u.patternPtr})) + "]");
      }
      out << Obj().num("m", m).str("kind", "t").raw("t", jarr(ts)).done() << "\n";
    }
  }
  unlink(tmp.c_str());
  return 0;
}
