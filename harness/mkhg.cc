// mkhg: writes the forest of an acyclic context-free grammar ("[S] ||| [A] b ||| F=1" lines on standard input) to a file.
#include <iostream>
#include <map>
#include "filelib.h"
#include "hg.h"
#include "hg_io.h"
#include "tdict.h"
#include "trule.h"

using namespace std;

int main(int, char** argv) {
  Hypergraph hg;
  map<WordID, int> id;
  string line;
  auto node = [&](WordID cat) {
    if (!id.count(cat)) id[cat] = hg.AddNode(cat)->id_;
    return id[cat];
  };
  while (getline(cin, line)) {
    TRulePtr r(TRule::CreateRuleMonolingual(line));
    Hypergraph::TailNodeVector tail;
    for (WordID w : r->f_) if (w < 0) tail.push_back(node(w));
    const int head = node(r->GetLHS());
    Hypergraph::Edge* e = hg.AddEdge(r, tail);
    e->feature_values_ = r->scores_;
    hg.ConnectEdgeToHeadNode(e, &hg.nodes_[head]);
  }
  hg.TopologicallySortNodesAndEdges(id[-TD::Convert("S")]);
  WriteFile wf(argv[1]);
  return HypergraphIO::WriteToBinary(hg, wf.stream()) ? 0 : 1;
}
