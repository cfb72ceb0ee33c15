// corpus <job file> <observations>: annotated corpora as the training reader sees them.
//   MODEL spec dic | CORPUS csv|morph <batch size> <file> <hex of a JSON object with facts for the specification>
#include "c_env.h"
#include "core/training/trainer.h"
using namespace vh;
using namespace jumanpp::core::training;

namespace {
struct Reader {
  std::unique_ptr<Model> model;
  std::unique_ptr<TrainFieldsIndex> tio;

  std::string example(const FullyAnnotatedExample& ex) {
    std::vector<std::string> words;
    auto flds = tio->fields();
    for (int i = 0; i < ex.numNodes(); ++i) {
      auto n = ex.nodeAt(i);
      std::vector<std::string> vals;
      for (size_t k = 0; k < n.data.size(); ++k) {
        int v = n.data[k];
        StringPiece text;
        if (v > 0) {
          auto fld = model->core->dic().fieldByName(flds[k].name);
          if (!fld->strings.readAt(v, &text)) die("no string " + std::to_string(v));
        }
        vals.push_back("[" + std::to_string(v >= 0) + "," + jbytes(text.str()) + "]");
      }
      words.push_back("[" + std::to_string(n.length) + "," + jarr(vals) + "," + jbytes(n.surface.str()) + "]");
    }
    return Obj().bytes("s", ex.surface().str()).bytes("c", ex.exampleInfo().comment.str()).raw("w", jarr(words)).done();
  }

  Status init(FullExampleReader& r, const std::string& fmt, StringPiece data) {
    r.setTrainingIo(tio.get());
    r.setFilename("corpus");
    return fmt == "csv" ? r.initCsv(data) : r.initDoubleCsv(data);
  }

  void run(const std::string& fmt, int size, const std::string& fn, const std::string& extra, std::ostream& out) {
    std::string data = slurp(fn);
    Obj o;
    o.str("fmt", fmt).num("size", size).raw("x", extra);
    o.bytes("text", data);
    {
      FullExampleReader r;
      std::vector<std::string> got;
      Status s = init(r, fmt, data);
      FullyAnnotatedExample ex;
      for (int guard = 0; s && !r.finished(); ++guard) {
        if (guard > 100000) die("the reader does not come to an end");
        ex.reset();
        s = r.readFullExample(&ex);
        if (s) got.push_back(example(ex));
      }
      o.boolean("ok", (bool)s).raw("read", jarr(got));
      if (!s) o.str("msg", msgOf(s));
    }
    {
      TrainingConfig tc;
      tc.featureNumberExponent = 4;
      tc.beamSize = 1;
      AnalyzerConfig ac;
      Weights w;
      w.make(1, 4);
      TrainerFullConfig full{&ac, model->core.get(), &model->core->spec().training, &tc};
      TrainerBatch batch;
      Status s = batch.initialize(full, &w.def, size);
      if (!s) refused("trainers: " + msgOf(s));
      FullExampleReader r;
      s = init(r, fmt, data);
      std::vector<std::string> got;
      for (int guard = 0; s && !r.finished(); ++guard) {
        if (guard > 100000) die("the batches do not come to an end");
        s = batch.readFullBatch(&r);
        if (!s) break;
        batch.shuffleData(false);
        std::vector<std::string> one;
        for (int i = 0; i < batch.totalTrainers(); ++i) {
          one.push_back(example(dynamic_cast<OwningFullTrainer*>(batch.trainer(i))->trainer().example()));
        }
        got.push_back(jarr(one));
      }
      o.boolean("bok", (bool)s).raw("batches", jarr(got));
    }
    out << o.done() << "\n";
  }
};
}  // namespace

VH_COMMAND(corpus) {
  std::ofstream out{args.at(1)};
  Reader r;
  std::string tmp = args.at(1) + ".model";
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(60);
    if (l[0] == "MODEL") {
      r.tio.reset();
      r.model.reset(new Model);
      if (!r.model->build(l[1], l[2], "-", tmp)) refused("model: " + r.model->failStage + ": " + r.model->failMsg);
      r.tio.reset(new TrainFieldsIndex);
      Status s = r.tio->initialize(*r.model->core);
      if (!s) refused("training fields: " + msgOf(s));
    } else if (l[0] == "CORPUS") {
      r.run(l[1], std::stoi(l[2]), l[3], unhex(l[4]), out);
    } else {
      die("bad job line " + l[0]);
    }
  }
  unlink(tmp.c_str());
  return 0;
}
