// Graph containers: every history of insertions and removals, against an adjacency list.
#include "mc.h"
#include "marco/Modeling/SCCsDependencyGraph.h"
#include "marco/Modeling/SingleEntryDigraph.h"
#include "marco/Modeling/SingleEntryWeaklyConnectedDigraph.h"
#include "llvm/ADT/SCCIterator.h"
#include <list>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace marco::modeling::internal;
static mc::Ctx ctx;

// A property that knows how many copies of it are alive.
static int alive = 0;
struct Prop {
  int v;
  Prop(int v = -1) : v(v) { ++alive; }
  Prop(const Prop &o) : v(o.v) { ++alive; }
  Prop(Prop &&o) : v(o.v) { ++alive; }
  Prop &operator=(const Prop &o) = default;
  ~Prop() { --alive; }
};

struct Op {
  char kind; // V: add vertex, E: add edge a -> b, R: remove vertex a
  int a = 0, b = 0;
  std::string str() const {
    return kind == 'V' ? "V" : kind == 'R' ? "R" + std::to_string(a) : "E" + std::to_string(a) + std::to_string(b);
  }
};
struct Edge {
  int a, b, prop;
  bool operator<(const Edge &o) const { return std::tie(a, b, prop) < std::tie(o.a, o.b, o.prop); }
  bool operator==(const Edge &o) const { return std::tie(a, b, prop) == std::tie(o.a, o.b, o.prop); }
};
struct Model {
  std::map<int, int> vertices; // number -> property
  std::vector<Edge> edges;
};

static std::string hist(const std::vector<Op> &h) {
  std::string s;
  for (auto &o : h) {
    s += o.str() + " ";
  }
  return s;
}

template <typename G>
struct Run {
  using VD = typename G::VertexDescriptor;
  using ED = typename G::EdgeDescriptor;
  bool directed;
  std::vector<Op> h;
  Model m;
  std::vector<VD> desc; // by number

  void fail(const std::string &sig, const std::string &what = "") {
    ctx.fail(sig, std::string(directed ? "directed " : "undirected ") + hist(h) + "=> " + what);
  }
  int num(const VD &d) {
    for (auto &v : m.vertices) {
      if (desc[v.first] == d) {
        return v.first;
      }
    }
    return -1;
  }
  static std::string str(std::vector<Edge> v) {
    std::string s;
    for (auto &e : v) {
      s += std::to_string(e.a) + "-" + std::to_string(e.b) + ":" + std::to_string(e.prop) + " ";
    }
    return s;
  }
  Edge norm(Edge e) { return !directed && e.a > e.b ? Edge{e.b, e.a, e.prop} : e; }

  void observe(G &g, const std::string &when) {
    const G &c = g;
    if (g.verticesCount() != m.vertices.size()) {
      fail("vertices count", when);
    }
    if (g.edgesCount() != m.edges.size()) {
      fail("edges count", when + " " + std::to_string(g.edgesCount()));
    }
    // Vertices, in the order of insertion or not.
    for (int filter = 0; filter < 3; ++filter) {
      std::multiset<int> got, exp;
      auto keep = [&](int p) { return filter == 0 || p % 2 == filter - 1; };
      if (filter == 0) {
        for (auto d : c.getVertices()) {
          got.insert(num(d));
        }
      } else {
        auto fn = [&](const Prop &p) { return keep(p.v); };
        for (auto it = c.verticesBegin(fn), e = c.verticesEnd(fn); it != e; ++it) {
          got.insert(num(*it));
        }
      }
      for (auto &v : m.vertices) {
        if (keep(v.second)) {
          exp.insert(v.first);
        }
      }
      if (got != exp) {
        fail(filter ? "filtered vertices" : "vertices", when);
      }
    }
    for (auto &v : m.vertices) {
      if (c[desc[v.first]].v != v.second) {
        fail("vertex property", when);
      }
    }
    // Edges.
    for (int filter = 0; filter < 3; ++filter) {
      std::vector<Edge> got, exp;
      auto keep = [&](int p) { return filter == 0 || p % 2 == filter - 1; };
      auto add = [&](ED e) { got.push_back(norm({num(e.from), num(e.to), c[e].v})); };
      if (filter == 0) {
        for (auto e : c.getEdges()) {
          add(e);
        }
      } else {
        auto fn = [&](const Prop &p) { return keep(p.v); };
        for (auto it = c.edgesBegin(fn), e = c.edgesEnd(fn); it != e; ++it) {
          add(*it);
        }
      }
      for (auto &e : m.edges) {
        if (keep(e.prop)) {
          exp.push_back(norm(e));
        }
      }
      std::sort(got.begin(), got.end());
      std::sort(exp.begin(), exp.end());
      if (!(got == exp)) {
        fail(filter ? "filtered edges" : "edges", when + " got " + str(got) + "expected " + str(exp));
      }
    }
    for (auto &v : m.vertices) {
      for (int filter = 0; filter < 3; ++filter) {
        auto keep = [&](int p) { return filter == 0 || p % 2 == filter - 1; };
        std::vector<Edge> got, exp;
        std::multiset<int> lgot, lexp;
        auto add = [&](ED e) { got.push_back({num(e.from), num(e.to), c[e].v}); };
        if (filter == 0) {
          for (auto e : c.getOutgoingEdges(desc[v.first])) {
            add(e);
          }
          for (auto d : c.getLinkedVertices(desc[v.first])) {
            lgot.insert(num(d));
          }
        } else {
          auto fn = [&](const Prop &p) { return keep(p.v); };
          for (auto e : g.getOutgoingEdges(desc[v.first], fn)) {
            add(e);
          }
        }
        for (auto &e : m.edges) {
          for (int side = 0; side < (directed ? 1 : 2); ++side) {
            Edge x = side ? Edge{e.b, e.a, e.prop} : e;
            if (x.a == v.first) {
              if (keep(x.prop)) {
                exp.push_back(x);
              }
              if (keep(m.vertices.at(x.b))) {
                lexp.insert(x.b);
              }
            }
          }
        }
        std::sort(got.begin(), got.end());
        std::sort(exp.begin(), exp.end());
        if (!(got == exp)) {
          fail(filter ? "filtered outgoing edges" : "outgoing edges", when + " got " + str(got) + "expected " + str(exp));
        }
        // The filtered traversal of the linked vertices can't be instantiated.
        if (filter == 0 && lgot != lexp) {
          fail("linked vertices", when);
        }
      }
    }
    // Live properties: one per vertex and one per edge.
    if (alive != (int)(m.vertices.size() + m.edges.size())) {
      fail("properties alive", when + " " + std::to_string(alive) + " instead of " +
                                   std::to_string(m.vertices.size() + m.edges.size()));
    }
  }

  void run() {
    alive = 0;
    {
      G g;
      int k = 0;
      for (auto &o : h) {
        ++k;
        ++ctx.transitions;
        if (o.kind == 'V') {
          int n = desc.size();
          desc.push_back(g.addVertex(Prop(n)));
          m.vertices[n] = n;
        } else if (o.kind == 'E') {
          auto e = g.addEdge(desc[o.a], desc[o.b], Prop(k));
          m.edges.push_back({o.a, o.b, k});
          if (g[e].v != k || e.from != desc[o.a] || e.to != desc[o.b]) {
            fail("edge descriptor");
          }
        } else {
          g.removeVertex(desc[o.a]);
          m.vertices.erase(o.a);
          std::vector<Edge> left;
          for (auto &e : m.edges) {
            if (e.a != o.a && e.b != o.a) {
              left.push_back(e);
            }
          }
          m.edges = left;
        }
      }
      observe(g, "");
      // Write through every descriptor.
      for (auto &v : m.vertices) {
        g[desc[v.first]].v += 11;
        v.second += 11;
      }
      observe(g, "after changing the vertices");
      std::map<std::pair<int, int>, int> seen;
      for (auto e : g.getEdges()) {
        g[e].v += 101;
      }
      for (auto &e : m.edges) {
        e.prop += 101;
      }
      observe(g, "after changing the edges");
      for (auto &v : m.vertices) {
        for (auto e : g.getOutgoingEdges(desc[v.first])) {
          int to = num(e.to);
          if (directed || v.first < to) {
            g[e].v += 1001;
          }
        }
      }
      for (auto &e : m.edges) {
        e.prop += 1001;
      }
      observe(g, "after changing the outgoing edges");
      std::string key;
      for (auto &v : m.vertices) {
        key += std::to_string(v.first) + " ";
      }
      for (auto &e : m.edges) {
        key += std::to_string(e.a) + ">" + std::to_string(e.b) + " ";
      }
      ctx.state((directed ? "d " : "u ") + key);
    }
    if (alive != 0) {
      fail("properties leaked", std::to_string(alive));
    }
  }
};

template <typename G>
static void histories(bool directed, int depth, int maxVertices, int start) {
  std::vector<Op> h;
  for (int i = 0; i < start; ++i) {
    h.push_back({'V'});
  }
  std::function<void(int, std::vector<int>, int)> rec = [&](int left, std::vector<int> live, int next) {
    if (ctx.take()) {
      ++ctx.traces;
      ctx.describe([&] { return hist(h); });
      Run<G> r;
      r.directed = directed;
      r.h = h;
      r.run();
    }
    if (left == 0) {
      return;
    }
    auto push = [&](Op o, std::vector<int> l, int n) {
      h.push_back(o);
      rec(left - 1, l, n);
      h.pop_back();
    };
    if ((int)live.size() < maxVertices) {
      auto l = live;
      l.push_back(next);
      push({'V'}, l, next + 1);
    }
    for (int a : live) {
      for (int b : live) {
        if (a == b && !directed) {
          continue;
        }
        push({'E', a, b}, live, next);
      }
    }
    for (int a : live) {
      auto l = live;
      l.erase(std::find(l.begin(), l.end(), a));
      push({'R', a}, l, next);
    }
  };
  std::vector<int> live;
  for (int i = 0; i < start; ++i) {
    live.push_back(i);
  }
  rec(depth, live, start);
}

// Single entry digraphs and the components computed on them.
template <typename G, bool connected>
static void entryGraph(int n, uint64_t mask, uint64_t twice) {
  auto what = [&] {
    std::string s = std::to_string(n) + " vertices:";
    for (int k = 0; k < n * n; ++k) {
      if (mask >> k & 1) {
        s += " " + std::to_string(k / n) + ">" + std::to_string(k % n) + (twice >> k & 1 ? "x2" : "");
      }
    }
    return s + " => ";
  };
  ctx.describe(what);
  ++ctx.traces;
  ++ctx.transitions;
  G g;
  std::vector<typename G::VertexDescriptor> d;
  for (int i = 0; i < n; ++i) {
    d.push_back(g.addVertex(i));
  }
  auto num = [&](typename G::VertexDescriptor v) {
    for (int i = 0; i < n; ++i) {
      if (d[i] == v) {
        return i;
      }
    }
    return v == g.getEntryNode() ? n : -1;
  };
  std::vector<std::multiset<int>> adj(n);
  size_t edges = 0;
  for (int k = 0; k < n * n; ++k) {
    for (uint64_t c = 0; c < (mask >> k & 1) + (mask >> k & twice >> k & 1); ++c) {
      g.addEdge(d[k / n], d[k % n]);
      adj[k / n].insert(k % n);
      ++edges;
    }
  }
  std::multiset<int> vs, all;
  for (auto it = g.verticesBegin(), e = g.verticesEnd(); it != e; ++it) {
    vs.insert(num(*it));
  }
  for (int i = 0; i < n; ++i) {
    all.insert(i);
    if (g[d[i]] != i) {
      ctx.fail("entry property", what());
    }
    std::multiset<int> l, o;
    for (auto it = g.linkedVerticesBegin(d[i]), e = g.linkedVerticesEnd(d[i]); it != e; ++it) {
      l.insert(num(*it));
    }
    for (auto it = g.outgoingEdgesBegin(d[i]), e = g.outgoingEdgesEnd(d[i]); it != e; ++it) {
      o.insert(num((*it).to));
    }
    if (l != adj[i] || o != adj[i]) {
      ctx.fail("entry adjacency", what());
    }
  }
  if (vs != all) {
    ctx.fail("entry vertices", what());
  }
  if constexpr (connected) {
    std::multiset<int> reached;
    for (auto it = g.linkedVerticesBegin(g.getEntryNode()), e = g.linkedVerticesEnd(g.getEntryNode()); it != e; ++it) {
      reached.insert(num(*it));
    }
    std::set<int> r(reached.begin(), reached.end());
    if (r != std::set<int>(all.begin(), all.end())) {
      ctx.fail("entry reach", what());
    }
    // Components.
    std::vector<std::vector<bool>> reach(n, std::vector<bool>(n));
    for (int i = 0; i < n; ++i) {
      for (int j : adj[i]) {
        reach[i][j] = true;
      }
    }
    for (int k = 0; k < n; ++k) {
      for (int i = 0; i < n; ++i) {
        for (int j = 0; j < n; ++j) {
          reach[i][j] = reach[i][j] || (reach[i][k] && reach[k][j]);
        }
      }
    }
    std::multiset<int> seen;
    for (auto it = llvm::scc_begin(static_cast<const G *>(&g)), e = llvm::scc_end(static_cast<const G *>(&g)); it != e; ++it) {
      std::set<int> members;
      for (auto v : *it) {
        members.insert(num(v));
      }
      for (int a : members) {
        seen.insert(a);
        if (a == n) {
          if (members.size() != 1) {
            ctx.fail("entry in a component", what());
          }
          continue;
        }
        for (int b = 0; b < n; ++b) {
          bool together = a == b || (reach[a][b] && reach[b][a]);
          if (together != (bool)members.count(b)) {
            ctx.fail("components", what());
          }
          if (reach[a][b] && !seen.count(b) && !members.count(b)) {
            ctx.fail("components order", what());
          }
        }
      }
    }
    all.insert(n);
    if (seen != all) {
      ctx.fail("components partition", what());
    }
  }
  ctx.state(what());
}

// Order of abstract components.
struct Comp {
  int id;
  std::vector<int> elems;
  const std::map<int, std::vector<int>> *deps;
};
namespace marco::modeling::dependency {
template <>
struct SCCTraits<Comp *> {
  using ElementRef = int;
  static std::vector<int> getElements(Comp *const *s) { return (*s)->elems; }
  static std::vector<int> getDependencies(Comp *const *s, int e) {
    auto it = (*s)->deps->find(e);
    return it == (*s)->deps->end() ? std::vector<int>() : it->second;
  }
};
} // namespace marco::modeling::dependency

static void sccOrder(const std::vector<std::vector<int>> &partition, int elems, uint64_t mask) {
  // Dependencies among the elements; those against the order of the partition are left out, so that an order exists.
  std::map<int, std::vector<int>> deps;
  std::map<int, int> owner;
  for (size_t c = 0; c < partition.size(); ++c) {
    for (int e : partition[c]) {
      owner[e] = c;
    }
  }
  for (int k = 0; k < elems * elems; ++k) {
    if (mask >> k & 1) {
      deps[k / elems].push_back(k % elems);
    }
  }
  std::vector<std::set<int>> adj(partition.size());
  for (auto &d : deps) {
    for (int t : d.second) {
      adj[owner[d.first]].insert(owner[t]);
    }
  }
  std::vector<std::vector<bool>> reach(partition.size(), std::vector<bool>(partition.size()));
  int n = partition.size();
  for (int i = 0; i < n; ++i) {
    for (int j : adj[i]) {
      reach[i][j] = true;
    }
  }
  for (int k = 0; k < n; ++k) {
    for (int i = 0; i < n; ++i) {
      for (int j = 0; j < n; ++j) {
        reach[i][j] = reach[i][j] || (reach[i][k] && reach[k][j]);
      }
    }
  }
  std::list<Comp> comps;
  std::vector<Comp *> ptrs;
  for (int c = 0; c < n; ++c) {
    comps.push_back({c, partition[c], &deps});
    ptrs.push_back(&comps.back());
  }
  auto what = [&] {
    std::string s = "components";
    for (auto &p : partition) {
      s += " {";
      for (int e : p) {
        s += std::to_string(e);
      }
      s += "}";
    }
    for (auto &d : deps) {
      for (int t : d.second) {
        s += " " + std::to_string(d.first) + ">" + std::to_string(t);
      }
    }
    return s + " => ";
  };
  ctx.describe(what);
  ++ctx.traces;
  ++ctx.transitions;
  marco::modeling::SCCsDependencyGraph<Comp *> g;
  g.addSCCs(ptrs);
  std::set<int> seen;
  auto order = g.postOrder();
  for (auto d : order) {
    int c = g[d]->id;
    if (!seen.insert(c).second) {
      ctx.fail("post order repeats", what());
    }
    for (int t : adj[c]) {
      if (!seen.count(t) && !reach[t][c]) {
        ctx.fail("post order", what());
      }
    }
  }
  if ((int)seen.size() != n) {
    ctx.fail("post order misses", what());
  }
  auto rev = g.reversePostOrder();
  std::reverse(rev.begin(), rev.end());
  if (rev != order) {
    ctx.fail("reverse post order", what());
  }
  std::set<int> listed;
  for (auto it = g.SCCsBegin(), e = g.SCCsEnd(); it != e; ++it) {
    listed.insert(g[*it]->id);
  }
  if ((int)listed.size() != n) {
    ctx.fail("components listed", what());
  }
  ctx.state(what());
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  if (ctx.suite("directed, from scratch")) {
    histories<DirectedGraph<Prop, Prop>>(true, th ? 7 : 6, 3, 0);
  }
  if (ctx.suite("directed, 3 vertices")) {
    histories<DirectedGraph<Prop, Prop>>(true, th ? 5 : 4, 4, 3);
  }
  if (ctx.suite("undirected, from scratch")) {
    histories<UndirectedGraph<Prop, Prop>>(false, th ? 7 : 6, 3, 0);
  }
  if (ctx.suite("undirected, 3 vertices")) {
    histories<UndirectedGraph<Prop, Prop>>(false, th ? 6 : 5, 4, 3);
  }
  using Single = marco::modeling::dependency::SingleEntryDigraph<int>;
  using Connected = dependency::SingleEntryWeaklyConnectedDigraph<int>;
  for (int n = 0; n <= (th ? 4 : 3); ++n) {
    uint64_t all = 1ull << (n * n);
    if (ctx.suite("single entry " + std::to_string(n))) {
      for (uint64_t m = 0; m < all; ++m) {
        if (ctx.take()) {
          entryGraph<Single, false>(n, m, 0);
          entryGraph<Connected, true>(n, m, 0);
          entryGraph<Connected, true>(n, m, 0x5555);
          entryGraph<Single, false>(n, m, 0xaaaa);
        }
      }
    }
  }
  // Four vertices, without self loops, and the complete four vertices case in the thorough tier.
  if (!th && ctx.suite("single entry 4 without self loops")) {
    for (uint64_t m = 0; m < 1ull << 12; ++m) {
      uint64_t x = 0;
      for (int k = 0, b = 0; k < 16; ++k) {
        if (k / 4 != k % 4) {
          x |= (m >> b++ & 1) << k;
        }
      }
      if (ctx.take()) {
        entryGraph<Connected, true>(4, x, 0);
      }
    }
  }
  std::vector<std::vector<std::vector<int>>> partitions{{{0}, {1}, {2}}, {{0, 1}, {2}}, {{0}, {1, 2}}, {{0, 2}, {1}}, {{0, 1, 2}}};
  for (auto &p : partitions) {
    if (ctx.suite("components " + std::to_string(&p - &partitions[0]))) {
      for (uint64_t m = 0; m < 512; ++m) {
        if (ctx.take()) {
          sccOrder(p, 3, m);
        }
      }
    }
  }
  std::vector<std::vector<std::vector<int>>> partitions4{{{0}, {1}, {2}, {3}}, {{0, 1}, {2, 3}}, {{0, 3}, {1}, {2}}, {{1}, {2, 3}, {0}}, {{3}, {2}, {1}, {0}}};
  for (auto &p : partitions4) {
    if (ctx.suite("components of four elements " + std::to_string(&p - &partitions4[0]))) {
      for (uint64_t m = 0; m < 65536; m += th ? 1 : 7) {
        if (ctx.take()) {
          sccOrder(p, 4, m);
        }
      }
    }
  }
  return ctx.finish();
}
