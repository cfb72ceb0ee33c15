#include "c_env.h"

namespace vh {

std::string fieldsJson(const Model& m, const OutputManager& om, const NodeWalker& w) {
  std::vector<std::string> out;
  for (auto& f : m.dic.spec.dictionary.fields) {
    if (f.position == 0) continue;  // generated fields
    switch (f.fieldType) {
      case spec::FieldType::String: {
        StringField sf;
        if (!om.stringField(f.name, &sf)) {
          out.push_back("\"?\"");
          break;
        }
        out.push_back(jstr(sf[w].str()));
        break;
      }
      case spec::FieldType::Int: {
        IntField x;
        if (!om.intField(f.name, &x)) {
          out.push_back("\"?\"");
          break;
        }
        out.push_back(std::to_string(x[w]));
        break;
      }
      case spec::FieldType::StringList: {
        StringListField x;
        if (!om.stringListField(f.name, &x)) {
          out.push_back("\"?\"");
          break;
        }
        auto it = x[w];
        StringPiece sp;
        std::vector<std::string> l;
        while (it.next(&sp)) l.push_back(jstr(sp.str()));
        out.push_back(jarr(l));
        break;
      }
      case spec::FieldType::StringKVList: {
        KVListField x;
        if (!om.kvListField(f.name, &x)) {
          out.push_back("\"?\"");
          break;
        }
        auto it = x[w];
        std::vector<std::string> l;
        while (it.next()) {
          std::vector<std::string> kv{jstr(it.key().str())};
          if (it.hasValue()) kv.push_back(jstr(it.value().str()));
          l.push_back(jarr(kv));
        }
        out.push_back(jarr(l));
        break;
      }
      default:
        out.push_back("\"??\"");
    }
  }
  return jarr(out);
}

std::string nodeRows(const Model& m, OpenAnalyzer& a, EntryPtr e) {
  auto& om = a.output();
  NodeWalker w = om.nodeWalker();
  std::vector<std::string> rows;
  if (!om.locate(e, &w)) return "[]";
  while (w.next()) rows.push_back(fieldsJson(m, om, w));
  return jarr(rows);
}

// [[boundary start, end, unknown?, rows, placeholders], ...]
std::string latticeNodes(const Model& m, OpenAnalyzer& a, bool fields, bool ph) {
  std::vector<std::string> out;
  auto* l = a.lattice();
  int n = (int)l->createdBoundaryCount();
  for (int b = 2; b < n - 1; ++b) {
    auto st = l->boundary(b)->starts();
    for (auto& ni : st->nodeInfo()) {
      std::vector<std::string> o{std::to_string(ni.start()), std::to_string(ni.end()),
                                 ni.entryPtr().isSpecial() ? "1" : "0"};
      if (fields) o.push_back(nodeRows(m, a, ni.entryPtr()));
      if (ph) {
        std::vector<int> p;
        if (ni.entryPtr().isSpecial()) {
          // in the order of their names
          std::map<std::string, int> holders;
          for (auto& f : m.dic.spec.features.primitive) {
            if (f.kind == spec::PrimitiveFeatureKind::Provided) holders[f.name] = f.references[0];
          }
          for (auto& h : holders) p.push_back(a.output().valueOfUnkPlaceholder(ni.entryPtr(), h.second));
        }
        o.push_back(jints(p));
      }
      out.push_back(jarr(o));
    }
  }
  return jarr(out);
}

std::string cpJson(OpenAnalyzer& a) {
  std::vector<std::string> o;
  for (auto& c : a.input().codepoints()) o.push_back(jstr(c.bytes.str()));
  return jarr(o);
}

static long long sc(float f) {
  // scores are sums of small integers: exact
  if (f != f || f > 1e9f || f < -1e9f) return -1000000000;
  long long v = (long long)f;
  if ((float)v != f) return -999999999;
  return v;
}

static std::string prevJson(const ConnectionPtr* p) {
  if (p == nullptr) return "[]";
  return "[" + std::to_string(p->boundary) + "," + std::to_string(p->right) + "," +
         std::to_string(p->left) + "," + std::to_string(p->beam) + "]";
}

// boundaries: {ends:[[b,p]..], nodes:[ [[left,beam,score]..] .. ], gb: [[left,beam]..],
//              ng: [[left,beam,right,[indices..]]..]}
std::string beamJson(const Model& m, OpenAnalyzer& a, const Weights& w, bool ngrams) {
  auto* l = a.lattice();
  int n = (int)l->createdBoundaryCount();
  std::vector<std::string> out;
  if (n <= 3) return "[]";  // no characters: nothing is scored
  u32 mask = (1u << w.bits) - 1;
  size_t nf = m.dic.spec.features.ngram.size();
  for (int b = 0; b < n; ++b) {
    auto bnd = l->boundary(b);
    Obj o;
    std::vector<std::string> ends, nodes, ng;
    for (auto& p : bnd->ends()->nodePtrs()) {
      ends.push_back("[" + std::to_string(p.boundary) + "," + std::to_string(p.position) + "]");
    }
    auto beams = bnd->starts()->beamData();
    std::vector<std::string> se;
    for (int i = 0; i < (int)bnd->starts()->numEntries(); ++i) {
      auto& ni = bnd->starts()->nodeInfo().at(i);
      se.push_back("[" + std::to_string(ni.start()) + "," + std::to_string(ni.end()) + "]");
      std::vector<std::string> els;
      bool gap = false;
      for (auto& e : beams.row(i)) {
        if (EntryBeam::isFake(e)) {
          gap = true;
          continue;
        }
        if (gap) els.push_back("[-1,-1,0,0,[]]");  // an element after an empty place
        els.push_back("[" + std::to_string(e.ptr.left) + "," + std::to_string(e.ptr.beam) + "," +
                      std::to_string(sc(e.totalScore)) + "," +
                      (e.ptr.boundary == b && e.ptr.right == i ? "1" : "0") + "," + prevJson(e.ptr.previous) + "]");
      }
      nodes.push_back(jarr(els));
    }
    if (ngrams && b >= 2) {
      // for every left node, each of its beam elements, and all right nodes
      auto t0 = bnd->starts()->patternFeatureData();
      int left = -1;
      for (auto& p : bnd->ends()->nodePtrs()) {
        ++left;
        std::vector<std::string> ofLeft;
        auto lb = l->boundary(p.boundary)->starts();
        auto t1 = lb->patternFeatureData().row(p.position);
        int k = -1;
        for (auto& e : lb->beamData().row(p.position)) {
          ++k;
          if (EntryBeam::isFake(e)) break;
          auto prev = e.ptr.previous;
          auto t2 = l->boundary(prev->boundary)->starts()->patternFeatureData().row(prev->right);
          std::vector<u32> buf(nf * t0.numRows(), 0);
          util::Sliceable<u32> sl{util::MutableArraySlice<u32>{&buf}, nf, t0.numRows()};
          features::impl::NgramFeatureData nd{sl, t2, t1, t0};
          m.core->features().ngram->applyBatch(&nd);
          std::vector<std::string> ofBeam;
          for (int i = 0; i < (int)t0.numRows(); ++i) {
            std::vector<u32> ix;
            for (size_t j = 0; j < nf; ++j) ix.push_back(buf[i * nf + j] & mask);
            ofBeam.push_back(jints(ix));
          }
          ofLeft.push_back(jarr(ofBeam));
        }
        ng.push_back(jarr(ofLeft));
      }
    }
    std::vector<std::string> gb;
    for (auto* e : bnd->ends()->globalBeam()) {
      // identify the element: which (left, beam) it is
      std::string id = "[-1,-1]";
      int left = 0;
      for (auto& p : bnd->ends()->nodePtrs()) {
        auto row = l->boundary(p.boundary)->starts()->beamData().row(p.position);
        for (int k = 0; k < (int)row.size(); ++k) {
          if (&row.at(k) == e) id = "[" + std::to_string(left) + "," + std::to_string(k) + "]";
        }
        ++left;
      }
      gb.push_back(id);
    }
    o.raw("e", jarr(ends)).raw("se", jarr(se)).raw("b", jarr(nodes));
    // (no global beam is made where no node starts)
    if (a.cfg().globalBeamSize > 0 && b >= 2 && bnd->localNodeCount() > 0) o.raw("g", jarr(gb));
    if (ngrams) o.raw("ng", jarr(ng));
    out.push_back(o.done());
  }
  return jarr(out);
}

// what features see: nodes (numbered from 0: the two BOS, the lattice, EOS) as
// [start, end, values of the first row, values of the template row, from the text?, placeholders]
// and the hashes of all templates for triples [t0, t1, t2, [hash ..]]
void featJson(const Model& m, OpenAnalyzer& a, size_t limit, const features::NgramFeatureApply* ngram,
              std::string* nodesOut, std::string* triplesOut) {
  auto* l = a.lattice();
  int n = (int)l->createdBoundaryCount();
  std::vector<std::string> nodes, triples;
  std::vector<int> base(n, 0);
  int total = 0;
  auto& om = a.output();
  auto& spec = m.dic.spec;
  std::map<std::string, int> holders;
  for (auto& f : spec.features.primitive) {
    if (f.kind == spec::PrimitiveFeatureKind::Provided) holders[f.name] = f.references[0];
  }
  auto firstRow = [&](EntryPtr e) {
    NodeWalker w = om.nodeWalker();
    if (!om.locate(e, &w) || !w.next()) return std::string("[]");
    return fieldsJson(m, om, w);
  };
  for (int b = 0; b < n; ++b) {
    base[b] = total;
    auto st = l->boundary(b)->starts();
    total += (int)st->numEntries();
    for (int i = 0; i < (int)st->numEntries(); ++i) {
      auto& ni = st->nodeInfo().at(i);
      auto e = ni.entryPtr();
      std::vector<std::string> o{std::to_string(ni.start()), std::to_string(ni.end())};
      std::vector<int> flags, ph;
      if (b < 2 || b == n - 1) {
        o.insert(o.end(), {"[]", "[]"});
      } else {
        o.push_back(firstRow(e));
        auto data = st->entryData().row(i);
        bool unk = e.isSpecial();
        o.push_back(unk ? firstRow(a.extraNodesContext()->node(e)->header.unk.templatePtr) : "[]");
        for (auto& f : spec.dictionary.fields) {
          if (f.position == 0) continue;
          flags.push_back(unk && f.fieldType == spec::FieldType::String && f.dicIndex >= 0 && data.at(f.dicIndex) < 0);
        }
        for (auto& h : holders) ph.push_back(unk ? om.valueOfUnkPlaceholder(e, h.second) : 0);
      }
      o.push_back(jints(flags));
      o.push_back(jints(ph));
      nodes.push_back(jarr(o));
    }
  }
  size_t nf = spec.features.ngram.size();
  for (int b = 2; b < n; ++b) {
    auto bnd = l->boundary(b);
    auto t0 = bnd->starts()->patternFeatureData();
    for (auto& p : bnd->ends()->nodePtrs()) {
      auto lb = l->boundary(p.boundary)->starts();
      auto t1 = lb->patternFeatureData().row(p.position);
      std::set<std::pair<int, int>> seen;
      for (auto& e : lb->beamData().row(p.position)) {
        if (EntryBeam::isFake(e)) break;
        auto prev = e.ptr.previous;
        if (!seen.insert({prev->boundary, prev->right}).second) continue;
        if (triples.size() > limit) continue;
        auto t2 = l->boundary(prev->boundary)->starts()->patternFeatureData().row(prev->right);
        std::vector<u32> buf(nf * t0.numRows(), 0);
        util::Sliceable<u32> sl{util::MutableArraySlice<u32>{&buf}, nf, t0.numRows()};
        features::impl::NgramFeatureData nd{sl, t2, t1, t0};
        ngram->applyBatch(&nd);
        for (int i = 0; i < (int)t0.numRows(); ++i) {
          std::vector<int> hs;
          for (size_t j = 0; j < nf; ++j) hs.push_back((i32)buf[i * nf + j]);
          triples.push_back("[" + std::to_string(base[b] + i + 1) + "," + std::to_string(base[p.boundary] + p.position + 1) +
                            "," + std::to_string(base[prev->boundary] + prev->right + 1) + "," + jints(hs) + "]");
        }
      }
    }
  }
  *nodesOut = jarr(nodes);
  *triplesOut = jarr(triples);
}

std::string pathJson(OpenAnalyzer& a) {
  AnalysisPath p;
  if (!p.fillIn(a.lattice())) return "[]";
  std::vector<std::string> o;
  p.reset();
  while (p.nextBoundary()) {
    ConnectionPtr c;
    while (p.nextNode(&c)) {
      auto& ni = a.lattice()->boundary(c.boundary)->starts()->nodeInfo().at(c.right);
      o.push_back("[" + std::to_string(c.boundary) + "," + std::to_string(c.right) + "," +
                  std::to_string(ni.start()) + "," + std::to_string(ni.end()) + "]");
    }
  }
  return jarr(o);
}
}  // namespace vh
