// jargs JOB OBS: options from the command line and configuration files
//   DIR hex        working directory (exists)
//   FILE path text GLOBAL text   (hex) written for the next run
//   ARG hex        HOME hex      NEST hex depth  (parse this configuration file instead)
//   SPEC json      what the generator meant
//   RUN
#include <sys/stat.h>
#include <unistd.h>
#include <cstdlib>
#include "core_config.h"
#include "jumandic/shared/jumanpp_args.h"
#include "util/logging.hpp"
#include "vh.h"

using namespace vh;
using namespace jumanpp;

namespace {
void put(const std::string& fn, const std::string& text) {
  for (size_t p = fn.find('/', 1); p != std::string::npos; p = fn.find('/', p + 1)) mkdir(fn.substr(0, p).c_str(), 0755);
  std::ofstream f{fn, std::ios::binary};
  f << text;
  if (!f) die("can not write " + fn);
}

std::string flt(const util::Cfg<float>& f) {
  char b[60];
  snprintf(b, sizeof b, "%.6g", f.value());
  return b;
}

std::string confJson(const jumandic::JumanppConf& c) {
  auto strs = [](const std::vector<std::string>& v) {
    std::vector<std::string> r;
    for (auto& s : v) r.push_back(jstr(s));
    return jarr(r);
  };
  auto& r = c.rnnConfig;
  return Obj()
      .str("config", c.configFile.value())
      .str("model", c.modelFile.value())
      .num("type", static_cast<int>(c.outputType.value()))
      .num("itype", static_cast<int>(c.inputType.value()))
      .str("output", c.outputFile.value())
      .raw("input", strs(c.inputFiles.value()))
      .str("rnn_model", c.rnnModelFile.value())
      .str("graphviz", c.graphvizDir.value())
      .num("beam", c.beamSize.value())
      .num("N", c.beamOutput.value())
      .num("gbeam", c.globalBeam.value())
      .num("rbeam", c.rightBeam.value())
      .num("rcheck", c.rightCheck.value())
      .num("log", c.logLevel.value())
      .num("step", c.autoStep.value())
      .boolean("auto", c.autoStep.defined())
      .str("sep", c.segmentSeparator.value())
      .str("bias", flt(r.nceBias))
      .str("uconst", flt(r.unkConstantTerm))
      .str("ulen", flt(r.unkLengthPenalty))
      .str("wperc", flt(r.perceptronWeight))
      .str("wrnn", flt(r.rnnWeight))
      .str("unk", r.unkSymbol.value())
      .str("eos", r.eosSymbol.value())
      .raw("fields", strs(r.rnnFields.value()))
      .str("rsep", r.fieldSeparator.value())
      .done();
}
}  // namespace

VH_COMMAND(jargs) {
  std::ifstream job{args[0]};
  std::ofstream out{args[1]};
  const std::string global = std::string(core::JPP_DEFAULT_CONFIG_DIR) + "/jumandic.config";
  // never write to directories of the system
  if (global.find("/build/") == std::string::npos) die("installation directory is " + global);
  std::string line, spec = "{}", nest;
  int depth = 0;
  std::vector<std::string> argv{"jumanpp"}, files;
  unsetenv("HOME");
  while (std::getline(job, line)) {
    std::istringstream is{line};
    std::string cmd, a, b;
    is >> cmd >> a >> b;
    if (cmd == "DIR") {
      if (chdir(unhex(a).c_str()) != 0) die("no directory");
    } else if (cmd == "FILE") {
      put(unhex(a), unhex(b));
      files.push_back(unhex(a));
    } else if (cmd == "GLOBAL") {
      put(global, unhex(a));
      files.push_back(global);
    } else if (cmd == "ARG") {
      argv.push_back(unhex(a));
    } else if (cmd == "HOME") {
      setenv("HOME", unhex(a).c_str(), 1);
    } else if (cmd == "NEST") {
      nest = unhex(a);
      depth = std::stoi(b);
    } else if (cmd == "SPEC") {
      spec = line.substr(5);
    } else if (cmd == "RUN") {
      watchdog(60);
      jumandic::JumanppConf conf;
      std::vector<const char*> av;
      for (auto& x : argv) av.push_back(x.c_str());
      Status s = nest.empty() ? jumandic::parseArgs(static_cast<int>(av.size()), av.data(), &conf)
                              : jumandic::parseCfgFile(nest, &conf, depth);
      util::logging::CurrentLogLevel = util::logging::Level::None;
      Obj o;
      o.raw("s", spec).boolean("ok", (bool)s);
      if (s) o.raw("conf", confJson(conf));
      else o.boolean("msg", s.message().size() > 0).str("text", s.message().str().substr(0, 200));
      out << o.done() << std::endl;
      for (auto& f : files) unlink(f.c_str());
      files.clear();
      argv.resize(1);
      spec = "{}";
      nest.clear();
      unsetenv("HOME");
    } else {
      die("bad job line " + line);
    }
  }
  return 0;
}
