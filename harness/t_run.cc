// train <job file> <observations>: whole training runs, their exported models and what these do.
//   RUN key=value ...   (batch threads iters epochs bits beam mode seed c100 phi100 fmt corpus dic spec sents twice tmp)
#include "c_env.h"
#include <sys/stat.h>
#include "core/env.h"
#include "core/training/training_env.h"
using namespace vh;
using namespace jumanpp::core::training;

namespace {
using KV = std::map<std::string, std::string>;

std::string bitsJson(const float* f, size_t n) {
  std::vector<int> v(n);
  for (size_t i = 0; i < n; ++i) memcpy(&v[i], f + i, 4);
  return jints(v);
}

// the words of the best path: JSON with entries, extents and score; rows of the training fields
struct Path {
  std::string json, csv;
  bool unk = false;
};

bool csvQuoted(const std::string& s) { return s.find_first_of(",\"\n\r# ") != std::string::npos || s.empty() || s == "EOS"; }

Path bestPath(const Analyzer& a, const spec::TrainingSpec& ts, const spec::DictionarySpec& ds) {
  Path r;
  auto* l = a.impl()->lattice();
  std::vector<std::string> out;
  int n = (int)l->createdBoundaryCount();
  if (n <= 3) return r;
  auto& eos = l->boundary(n - 1)->starts()->beamData().row(0).at(0);
  std::vector<const ConnectionPtr*> ps;
  for (auto* p = eos.ptr.previous; p->boundary >= 2; p = p->previous) ps.insert(ps.begin(), p);
  auto& om = a.output();
  for (auto* p : ps) {
    auto& ni = l->boundary(p->boundary)->starts()->nodeInfo().at(p->right);
    auto e = ni.entryPtr();
    if (e.isSpecial()) r.unk = true;
    out.push_back("[" + std::to_string(ni.start()) + "," + std::to_string(ni.end()) + "," +
                  std::to_string(e.rawValue()) + "]");
    NodeWalker nw = om.nodeWalker();
    if (!om.locate(e, &nw) || !nw.next()) die("no node");
    bool first = true;
    for (auto& tf : ts.fields) {
      StringField sf;
      if (!om.stringField(ds.fields[tf.fieldIdx].name, &sf)) die("no field");
      std::string t = sf[nw].str(), q = "\"";
      for (char c : t) q += c == '"' ? "\"\"" : std::string(1, c);
      r.csv += (first ? "" : ",") + (csvQuoted(t) ? q + "\"" : t);
      first = false;
    }
    r.csv += "\n";
  }
  int score;
  memcpy(&score, &eos.totalScore, 4);
  r.json = "[" + std::to_string(score) + "," + jarr(out) + "]";
  return r;
}

struct Run {
  KV kv;
  std::string tmp;
  std::vector<std::string> ev;
  int dumps = 0;
  size_t numWeights;

  int num(const char* k) { return std::stoi(kv.at(k)); }

  std::string weights(TrainingEnv& te) {
    te.dumpScw(tmp, "w", dumps);
    char nm[64];
    snprintf(nm, 64, "/w.%06d.mdldump", dumps++);
    model::FilesystemModel f;
    model::ModelInfo i;
    Status s = f.open(tmp + nm);
    if (s) s = f.load(&i);
    if (!s) throw std::runtime_error("dump of weights: " + msgOf(s));
    if (i.parts.empty() || i.parts[0].data.size() < 2) throw std::runtime_error("dump of weights has no weights");
    auto d = i.parts[0].data[1];
    if (d.size() != numWeights * 4) throw std::runtime_error("dump of weights has a wrong size");
    std::vector<float> w(numWeights);
    memcpy(w.data(), d.begin(), numWeights * 4);
    unlink((tmp + nm).c_str());
    return bitsJson(w.data(), numWeights);
  }

  Status epoch(TrainingEnv& te, bool own, bool first, bool fromStart) {
    if (!fromStart) te.resetInput();
    te.changeGlobalBeam(0);
    Status s = te.trainOneEpoch();
    if (!s) return s;
    ev.push_back(Obj().str("op", "epoch").boolean("own", own).boolean("first", first).boolean("zero", te.epochLoss() == 0)
                     .raw("w", weights(te)).done());
    return s;
  }

  Status go(const std::string& model) {
    TrainingArguments args;
    args.batchSize = num("batch");
    args.numThreads = num("threads");
    args.batchMaxIterations = num("iters");
    args.comment = "trained";
    args.trainingConfig.featureNumberExponent = num("bits");
    args.trainingConfig.beamSize = num("beam");
    args.trainingConfig.randomSeed = num("seed");
    args.trainingConfig.scw.C = num("c100") / 100.f;
    args.trainingConfig.scw.phi = num("phi100") / 100.f;
    args.trainingConfig.inputFormat = kv["fmt"] == "csv" ? InputFormat::Csv : InputFormat::Morph;
    auto& md = kv["mode"];
    args.trainingConfig.mode = md == "full" ? TrainingMode::Full : md == "falloff" ? TrainingMode::FalloffBeam : TrainingMode::MaxViolation;
    numWeights = size_t(1) << num("bits");

    JumanppEnv env;
    Status s = env.loadModel(model);
    if (!s) return s;
    env.setBeamSize(num("beam"));
    TrainingEnv te{args, &env};
    s = te.initFeatures(nullptr);
    if (s) s = te.initOther();
    if (s) s = te.loadInput(kv["corpus"]);
    if (!s) return s;
    ev.push_back(Obj().str("op", "init").raw("w", weights(te)).done());
    for (int i = 0; i < num("epochs"); ++i) {
      s = epoch(te, false, i == 0, i == 0);
      if (!s) return s;
    }
    // sentences the trained weights decide about, by the trainer's own analyser
    std::vector<std::string> sents, ours;
    std::istringstream in{slurp(kv["sents"])};
    for (std::string l; std::getline(in, l);) sents.push_back(l);
    auto an = te.makeAnalyzer();
    if (!an) return Status::InvalidState() << "no analyser";
    std::string corpus;
    bool unk = false;
    for (auto& t : sents) {
      if (!an->analyze(t)) {
        ours.push_back("[0]");
        continue;
      }
      auto p = bestPath(*an, env.spec().training, env.spec().dictionary);
      ours.push_back(p.json);
      if (!p.unk && !p.csv.empty()) corpus += p.csv + "\n";
    }
    std::string out = tmp + "/out.model";
    {
      model::ModelInfo info = env.modelInfoCopy();
      te.exportScwParams(&info, args.comment);
      model::ModelSaver saver;
      s = saver.open(out);
      if (s) s = saver.save(info);
      if (!s) return s;
    }
    JumanppEnv env2;
    s = env2.loadModel(out);
    if (!s) return s;
    env2.setBeamSize(num("beam"));
    s = env2.initFeatures(nullptr);
    if (!s) return s;
    {
      auto w = env2.featureScorer()->weights();
      std::vector<float> wf(w.size());
      for (size_t i = 0; i < w.size(); ++i) wf[i] = w.at(i);
      VersionInfo vi;
      env2.fillVersion(&vi);
      ev.push_back(Obj().str("op", "export").raw("w", bitsJson(wf.data(), wf.size())).str("comment", vi.model).done());
    }
    Analyzer an2;
    s = env2.makeAnalyzer(&an2);
    if (!s) return s;
    for (size_t i = 0; i < sents.size(); ++i) {
      Path p;
      if (an2.analyze(sents[i])) {
        p = bestPath(an2, env2.spec().training, env2.spec().dictionary);
      } else {
        p.json = "[0]";
      }
      ev.push_back(Obj().str("op", "analyse").raw("a", ours[i].empty() ? "[]" : ours[i]).raw("b", p.json.empty() ? "[]" : p.json).done());
    }
    // what the model says about the sentences is a corpus which it reproduces
    if (!corpus.empty() && kv["fmt"] == "csv") {
      std::string own = tmp + "/own.csv";
      std::ofstream{own} << corpus;
      s = te.loadInput(own);
      if (s) s = epoch(te, true, false, true);
      if (s) s = epoch(te, true, false, false);
      unlink(own.c_str());
      if (!s) return s;
    }
    if (num("twice")) {
      // training goes on from a model which has weights already
      kv["twice"] = "0";
      kv["seed"] = std::to_string(num("seed") + 1);
      std::string again = tmp + "/again.model";
      if (rename(out.c_str(), again.c_str()) != 0) die("rename");
      s = go(again);
      unlink(again.c_str());
    }
    unlink(out.c_str());
    return s;
  }
};
}  // namespace

// modelw <model file> <out>: its weights as a JSON list
VH_COMMAND(modelw) {
  JumanppEnv env;
  Status s = env.loadModel(args.at(0));
  if (!s || !env.hasPerceptronModel()) {
    std::ofstream{args.at(1)} << "[]\n";
    return 0;
  }
  auto w = env.featureScorer()->weights();
  std::vector<float> wf(w.size());
  for (size_t i = 0; i < w.size(); ++i) wf[i] = w.at(i);
  std::ofstream{args.at(1)} << bitsJson(wf.data(), wf.size()) << "\n";
  return 0;
}

// dicmodel <spec> <dic> <out>: a model file which is not trained
VH_COMMAND(dicmodel) {
  Model m;
  if (!m.build(args.at(0), args.at(1), "-", args.at(2))) refused(m.failStage + ": " + m.failMsg);
  return 0;
}

VH_COMMAND(train) {
  std::ofstream out{args.at(1)};
  std::string tmp = args.at(1) + ".dir";
  mkdir(tmp.c_str(), 0777);
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(120);
    Run r;
    r.tmp = tmp;
    for (size_t i = 1; i < l.size(); ++i) {
      auto e = l[i].find('=');
      r.kv[l[i].substr(0, e)] = l[i].substr(e + 1);
    }
    {
      Model m;
      if (!m.build(r.kv["spec"], r.kv["dic"], "-", tmp + "/seed.model")) refused(m.failStage + ": " + m.failMsg);
    }
    Status s = Status::Ok();
    try {
      s = r.go(tmp + "/seed.model");
    } catch (std::runtime_error& e) {
      s = Status::InvalidState() << e.what();
    }
    Obj o;
    o.boolean("ok", (bool)s).num("bits", r.num("bits")).num("iters", r.num("iters")).raw("ev", jarr(r.ev));
    if (!s) o.str("msg", msgOf(s));
    out << o.done() << "\n";
  }
  unlink((tmp + "/seed.model").c_str());
  rmdir(tmp.c_str());
  return 0;
}
