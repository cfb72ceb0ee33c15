// pexread <job file> <observations>: streams of partially annotated sentences as the readers see them.
//   MODEL spec dic | PEX <file> <hex of facts for the specification> <candidates: hex,hex,...>
#include "c_env.h"
#include "core/analysis/unk_nodes_creator.h"
#include "core/input/partial_example_io.h"
#include "core/input/pex_stream_reader.h"
#include "core/training/training_types.h"
using namespace vh;
using namespace jumanpp::core::input;

namespace {
struct PexJob {
  std::unique_ptr<Model> model;
  std::unique_ptr<TrainFieldsIndex> tio;
  std::vector<std::string> cands;

  // a field of the dictionary by its place in the entries
  const jumanpp::core::spec::FieldDescriptor& field(int idx) {
    for (auto& f : model->core->spec().dictionary.fields) {
      if (f.dicIndex == idx) return f;
    }
    die("a tag of an unknown field");
    abort();
  }

  std::string value(int idx, int v) {
    auto& f = field(idx);
    StringPiece text;
    if (v >= 0) {
      if (v > 0) {
        auto fld = model->core->dic().fieldByName(f.name);
        if (!fld->strings.readAt(v, &text)) return "1,[63,63]";
      }
      return "1," + jbytes(text.str());
    }
    for (auto& c : cands) {
      if (jumanpp::core::analysis::hashUnkString(c) == v) return "0," + jbytes(c);
    }
    return "0,[63,63]";
  }

  std::string example(const PartialExample& ex) {
    std::vector<int> req, no;
    for (auto b : ex.boundaries()) req.push_back(b - 2);
    for (auto b : ex.forbidBreak()) no.push_back(b - 2);
    std::vector<std::string> words;
    for (auto& n : ex.nodes()) {
      std::vector<std::string> tags;
      for (auto& t : n.tags) {
        tags.push_back("[" + jbytes(field(t.field).name) + "," + value(t.field, t.value) + "]");
      }
      words.push_back(Obj().num("at", n.boundary - 2).num("n", n.length).bytes("s", n.surface).raw("tags", jarr(tags)).done());
    }
    auto ei = ex.exampleInfo();
    return Obj().bytes("text", ex.surface().str()).bytes("com", ei.comment.str()).num("line", (long)ei.line)
        .raw("req", jints(req)).raw("no", jints(no)).raw("words", jarr(words)).done();
  }

  static std::vector<int> numbers(const std::string& s) {
    std::vector<int> r;
    for (size_t i = 0; i < s.size();) {
      if (isdigit((unsigned char)s[i])) {
        long v = 0;
        for (; i < s.size() && isdigit((unsigned char)s[i]); ++i) v = std::min(v * 10 + (s[i] - '0'), 100000000l);
        r.push_back((int)v);
      } else {
        ++i;
      }
    }
    return r;
  }

  void run(const std::string& fn, const std::string& extra, std::ostream& out) {
    std::string data = slurp(fn);
    Obj o;
    o.bytes("text", data).raw("x", extra);
    {
      PartialExampleReader r;
      std::vector<std::string> got;
      Status s = r.initialize(tio.get());
      if (s) s = r.openFile(fn);
      PartialExample ex;
      for (int guard = 0; s; ++guard) {
        if (guard > 100000) die("the reader does not come to an end");
        bool eof = false;
        s = r.readExample(&ex, &eof);
        if (!s || eof) break;
        got.push_back(example(ex));
      }
      auto m = s ? std::string() : msgOf(s);
      for (auto at = m.find(fn); at != std::string::npos; at = m.find(fn)) m.replace(at, fn.size(), "F");
      o.boolean("ok", (bool)s).raw("read", jarr(got)).raw("at", jints(numbers(m)));
      if (!s) o.str("msg", m);
    }
    {
      PexStreamReader r;
      std::istringstream in{data};
      std::vector<std::string> got;
      Status s = r.initialize(*model->core);
      if (!s) refused("stream reader: " + msgOf(s));
      while (in.good() && in.peek() != std::char_traits<char>::eof()) {
        s = r.readExample(&in);
        Obj x;
        x.boolean("ok", (bool)s);
        x.bytes("text", s ? r.surface().str() : "").bytes("com", s ? r.comment().str() : "");
        got.push_back(x.done());
      }
      o.raw("stream", jarr(got));
    }
    out << o.done() << "\n";
  }
};
}  // namespace

VH_COMMAND(pexread) {
  std::ofstream out{args.at(1)};
  PexJob r;
  std::string tmp = args.at(1) + ".model";
  for (auto& l : readCases(args.at(0))) {
    if (l.empty()) continue;
    watchdog(60);
    if (l[0] == "MODEL") {
      r.tio.reset();
      r.model.reset(new Model);
      if (!r.model->build(l[1], l[2], "-", tmp)) refused("model: " + r.model->failStage + ": " + r.model->failMsg);
      r.tio.reset(new TrainFieldsIndex);
      Status s = r.tio->initialize(*r.model->core);
      if (!s) refused("training fields: " + msgOf(s));
    } else if (l[0] == "PEX") {
      r.cands.clear();
      std::istringstream cs{l.size() > 3 ? l[3] : ""};
      for (std::string c; std::getline(cs, c, ',');) r.cands.push_back(unhex(c == "-" ? "" : c));
      r.run(l[1], unhex(l[2]), out);
    } else {
      die("bad job line " + l[0]);
    }
  }
  unlink(tmp.c_str());
  return 0;
}
