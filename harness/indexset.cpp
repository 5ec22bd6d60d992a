// Exhaustive exploration of operation histories on marco::modeling::IndexSet
// (and on the range algebra it is made of), against a plain set of points.
#include "mc.h"
#include "marco/Modeling/IndexSet.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/ADT/SmallBitVector.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>

using namespace marco::modeling;
using Pt = std::vector<int64_t>;
using PtSet = std::set<Pt>;

static mc::Ctx ctx;

template <typename T>
static std::string str(const T &v) {
  std::string s;
  llvm::raw_string_ostream os(s);
  os << v;
  return s;
}

static Point toPoint(const Pt &p) { return Point(llvm::ArrayRef<int64_t>(p)); }
static Pt fromPoint(const Point &p) { return Pt(p.begin(), p.end()); }

using Mask = uint64_t;

struct Rect {
  Pt lo, hi; // half-open
  Mask mask;
  MultidimensionalRange mr() const {
    llvm::SmallVector<Range> r;
    for (size_t i = 0; i < lo.size(); ++i) {
      r.push_back(Range(lo[i], hi[i]));
    }
    return MultidimensionalRange(r);
  }
};

struct Universe {
  Pt dims, origin;
  std::vector<Pt> points;
  std::map<Pt, int> idx;
  std::vector<Rect> rects;
  std::vector<Pt> outside;

  Universe(Pt dims, Pt origin) : dims(dims), origin(origin) {
    Pt p = origin;
    rec(0, p);
    for (size_t i = 0; i < points.size(); ++i) {
      idx[points[i]] = i;
    }
    Pt lo(dims.size()), hi(dims.size());
    recRect(0, lo, hi);
    std::stable_sort(rects.begin(), rects.end(),
                     [](const Rect &a, const Rect &b) {
                       return __builtin_popcountll(a.mask) <
                              __builtin_popcountll(b.mask);
                     });
    for (size_t d = 0; d < dims.size(); ++d) {
      Pt q = origin;
      q[d] -= 1;
      outside.push_back(q);
      q = origin;
      q[d] += dims[d];
      outside.push_back(q);
    }
  }
  void rec(size_t d, Pt &p) {
    if (d == dims.size()) {
      points.push_back(p);
      return;
    }
    for (int64_t i = 0; i < dims[d]; ++i) {
      p[d] = origin[d] + i;
      rec(d + 1, p);
    }
  }
  void recRect(size_t d, Pt &lo, Pt &hi) {
    if (d == dims.size()) {
      rects.push_back(mk(lo, hi));
      return;
    }
    for (int64_t i = 0; i < dims[d]; ++i) {
      for (int64_t j = i + 1; j <= dims[d]; ++j) {
        lo[d] = origin[d] + i;
        hi[d] = origin[d] + j;
        recRect(d + 1, lo, hi);
      }
    }
  }
  Rect mk(const Pt &lo, const Pt &hi) const {
    Rect r{lo, hi, 0};
    for (size_t i = 0; i < points.size(); ++i) {
      bool in = true;
      for (size_t d = 0; d < dims.size(); ++d) {
        in = in && points[i][d] >= lo[d] && points[i][d] < hi[d];
      }
      if (in) {
        r.mask |= Mask(1) << i;
      }
    }
    return r;
  }
  Rect pointRect(int i) const {
    Pt hi = points[i];
    for (auto &x : hi) {
      ++x;
    }
    return mk(points[i], hi);
  }
  PtSet pts(Mask m) const {
    PtSet r;
    for (size_t i = 0; i < points.size(); ++i) {
      if (m >> i & 1) {
        r.insert(points[i]);
      }
    }
    return r;
  }
};

// The points of a set, in iteration order. "" when well-formed.
static std::string collect(const IndexSet &s, PtSet &out) {
  out.clear();
  size_t n = 0;
  for (Point p : s) {
    ++n;
    if (n > 4096) {
      return "iteration does not end";
    }
    if (!out.insert(fromPoint(p)).second) {
      return "iteration yields a point twice";
    }
  }
  if (s.size() != n) {
    return "size() differs from the number of iterated points";
  }
  if (s.empty() != (n == 0)) {
    return "empty() disagrees with the iterated points";
  }
  size_t viaRanges = 0;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it) {
    for (Point p : *it) {
      ++viaRanges;
      if (!out.count(fromPoint(p))) {
        return "range iteration and point iteration differ";
      }
    }
  }
  if (viaRanges != n) {
    return "range iteration and point iteration differ";
  }
  return "";
}

static std::string expectSet(const IndexSet &s, const PtSet &expected,
                             const char *what) {
  PtSet got;
  std::string e = collect(s, got);
  if (!e.empty()) {
    return std::string(what) + ": " + e;
  }
  if (got != expected) {
    return std::string(what) + ": wrong points";
  }
  return "";
}

#define TRY(expr)                                                              \
  do {                                                                         \
    std::string e__ = (expr);                                                  \
    if (!e__.empty())                                                          \
      return e__;                                                              \
  } while (0)
#define REQ(cond, what)                                                        \
  do {                                                                         \
    if (!(cond))                                                               \
      return std::string(what);                                                \
  } while (0)

// Cheap check: executed after every operation of every history.
static std::string light(const Universe &u, const IndexSet &s, Mask m) {
  Mask got = 0;
  size_t n = 0;
  for (Point p : s) {
    auto it = u.idx.find(fromPoint(p));
    REQ(it != u.idx.end(), "iteration yields a point never inserted");
    Mask bit = Mask(1) << it->second;
    REQ(!(got & bit), "iteration yields a point twice");
    got |= bit;
    ++n;
  }
  REQ(got == m, "iterated points differ from the expected set");
  REQ(s.size() == n, "size() differs from the number of points");
  REQ(s.empty() == (n == 0), "empty() disagrees");
  for (size_t i = 0; i < u.points.size(); ++i) {
    REQ(s.contains(toPoint(u.points[i])) == bool(m >> i & 1),
        "contains(point) is wrong");
  }
  return "";
}

struct Menu {
  std::vector<std::pair<IndexSet, Mask>> sets;
};

// Full check: every query of the interface, on every small argument.
static std::string heavy(const Universe &u, const IndexSet &s, Mask m,
                         const Menu &menu) {
  PtSet pts = u.pts(m);
  TRY(expectSet(s, pts, "set"));
  size_t rank = u.dims.size();
  for (const Pt &p : u.outside) {
    REQ(!s.contains(toPoint(p)), "contains(point) outside of every insertion");
  }
  for (const Rect &r : u.rects) {
    MultidimensionalRange mr = r.mr();
    REQ(s.contains(mr) == ((r.mask & ~m) == 0), "contains(range) is wrong");
    REQ(s.overlaps(mr) == ((r.mask & m) != 0), "overlaps(range) is wrong");
    TRY(expectSet(s.intersect(mr), u.pts(m & r.mask), "intersect(range)"));
    TRY(expectSet(s.complement(mr), u.pts(r.mask & ~m), "complement(range)"));
    REQ((s == mr) == (m == r.mask), "== range is wrong");
    REQ((s != mr) == (m != r.mask), "!= range is wrong");
    TRY(expectSet(s + mr, u.pts(m | r.mask), "set + range"));
    TRY(expectSet(s - mr, u.pts(m & ~r.mask), "set - range"));
  }
  for (size_t i = 0; i < u.points.size(); ++i) {
    Point p = toPoint(u.points[i]);
    REQ((s == p) == (m == (Mask(1) << i)), "== point is wrong");
    REQ((s != p) == (m != (Mask(1) << i)), "!= point is wrong");
    TRY(expectSet(s + p, u.pts(m | Mask(1) << i), "set + point"));
    TRY(expectSet(s - p, u.pts(m & ~(Mask(1) << i)), "set - point"));
  }
  for (const auto &o : menu.sets) {
    const IndexSet &t = o.first;
    Mask tm = o.second;
    REQ(s.contains(t) == ((tm & ~m) == 0), "contains(set) is wrong");
    REQ(t.contains(s) == ((m & ~tm) == 0), "contains(set) is wrong (reversed)");
    REQ(s.overlaps(t) == ((tm & m) != 0), "overlaps(set) is wrong");
    REQ(t.overlaps(s) == ((tm & m) != 0), "overlaps(set) is wrong (reversed)");
    TRY(expectSet(s.intersect(t), u.pts(m & tm), "intersect(set)"));
    TRY(expectSet(t.intersect(s), u.pts(m & tm), "intersect(set) reversed"));
    TRY(expectSet(s + t, u.pts(m | tm), "set + set"));
    TRY(expectSet(t + s, u.pts(m | tm), "set + set reversed"));
    TRY(expectSet(s - t, u.pts(m & ~tm), "set - set"));
    TRY(expectSet(t - s, u.pts(tm & ~m), "set - set reversed"));
    REQ((s == t) == (m == tm), "== set is wrong");
    REQ((t == s) == (m == tm), "== set is wrong (reversed)");
    REQ((s != t) == (m != tm), "!= set is wrong");
    int c1 = s.compare(t), c2 = t.compare(s);
    REQ((c1 < 0) == (c2 > 0) && (c1 == 0) == (c2 == 0),
        "compare() is not antisymmetric");
    if (c1 == 0) {
      REQ(m == tm, "compare() is 0 for different sets");
    }
    if (m == tm) {
      REQ(hash_value(s) == hash_value(t), "equal sets, different hashes");
    }
    // The emptiness of a result must be independent of how it was obtained.
    REQ((s.intersect(t) == t.intersect(s)), "s&t != t&s");
    REQ(((s - t) == (s + t) - t), "s-t != (s+t)-t");
  }
  // A copy is equal and independent.
  {
    IndexSet c(s);
    TRY(expectSet(c, pts, "copy"));
    REQ(c == s, "a copy differs from its source");
    c.clear();
    REQ(c.empty(), "clear() leaves points");
    TRY(expectSet(s, pts, "set after clearing a copy"));
    IndexSet d;
    d = s;
    TRY(expectSet(d, pts, "assigned copy"));
    IndexSet e(std::move(d));
    TRY(expectSet(e, pts, "moved set"));
    IndexSet f = s.emptyCopy();
    TRY(expectSet(f, PtSet(), "emptyCopy()"));
  }
  // Compact ranges.
  {
    llvm::SmallVector<MultidimensionalRange> ranges;
    s.getCompactRanges(ranges);
    PtSet got;
    for (auto &r : ranges) {
      for (Point p : r) {
        REQ(got.insert(fromPoint(p)).second, "compact ranges overlap");
      }
    }
    REQ(got == pts, "compact ranges cover different points");
  }
  // Projections.
  auto project = [&](const PtSet &in, const std::vector<bool> &keep) {
    PtSet out;
    for (const Pt &p : in) {
      Pt q;
      for (size_t i = 0; i < keep.size(); ++i) {
        if (keep[i]) {
          q.push_back(p[i]);
        }
      }
      out.insert(q);
    }
    return out;
  };
  for (unsigned bits = 1; bits < (1u << rank); ++bits) {
    std::vector<bool> keep(rank);
    llvm::BitVector bv(rank);
    llvm::SmallBitVector sbv(rank);
    for (size_t i = 0; i < rank; ++i) {
      if (bits >> i & 1) {
        keep[i] = true;
        bv.set(i);
        sbv.set(i);
      }
    }
    TRY(expectSet(s.slice(bv), project(pts, keep), "slice"));
    TRY(expectSet(s.takeDimensions(sbv), project(pts, keep), "takeDimensions"));
  }
  for (size_t n = 1; n <= rank; ++n) {
    std::vector<bool> first(rank), last(rank);
    for (size_t i = 0; i < n; ++i) {
      first[i] = true;
      last[rank - 1 - i] = true;
    }
    TRY(expectSet(s.takeFirstDimensions(n), project(pts, first),
                  "takeFirstDimensions"));
    TRY(expectSet(s.takeLastDimensions(n), project(pts, last),
                  "takeLastDimensions"));
    TRY(expectSet(s.dropLastDimensions(rank - n), project(pts, first),
                  "dropLastDimensions"));
    TRY(expectSet(s.dropFirstDimensions(rank - n), project(pts, last),
                  "dropFirstDimensions"));
  }
  // Cartesian products.
  {
    std::vector<PtSet> others = {{{7}}, {{-3}, {4}}, {{0}, {1}, {5}}};
    for (const PtSet &o : others) {
      llvm::SmallVector<Point> ps;
      for (const Pt &p : o) {
        ps.push_back(toPoint(p));
      }
      IndexSet os{llvm::ArrayRef<Point>(ps)};
      PtSet app, pre;
      for (const Pt &p : pts) {
        for (const Pt &q : o) {
          Pt a = p;
          a.insert(a.end(), q.begin(), q.end());
          app.insert(a);
          Pt b = q;
          b.insert(b.end(), p.begin(), p.end());
          pre.insert(b);
        }
      }
      TRY(expectSet(s.append(os), app, "append"));
      TRY(expectSet(s.prepend(os), pre, "prepend"));
    }
  }
  return "";
}

struct Op {
  std::string name;
  std::function<void(IndexSet &, Mask &)> run;
};

static std::string rangesKey(const IndexSet &s) {
  std::string k;
  for (auto it = s.rangesBegin(), e = s.rangesEnd(); it != e; ++it) {
    const MultidimensionalRange &r = *it;
    for (size_t i = 0; i < r.rank(); ++i) {
      k += (char)(r[i].getBegin() + 64);
      k += (char)(r[i].getEnd() + 64);
    }
  }
  return k;
}

struct Explorer {
  const Universe &u;
  const Menu &menu;
  std::vector<Op> ops;
  std::string init;
  std::string tag;

  std::string history(const std::vector<int> &h) {
    std::string r = tag + ": " + init;
    for (int o : h) {
      r += "; " + ops[o].name;
    }
    return r;
  }

  bool checkNode(const IndexSet &s, Mask m, const std::vector<int> &h) {
    ++ctx.transitions;
    std::string e = light(u, s, m);
    if (!e.empty()) {
      ctx.fail("set", history(h) + " => " + e);
      return false;
    }
    uint64_t key = mc::Ctx::hash(tag + "|" + rangesKey(s));
    if (ctx.claim(key)) {
      ctx.state(key);
      std::string e2 = heavy(u, s, m, menu);
      if (!e2.empty()) {
        ctx.fail("query", history(h) + " => " + e2);
        return false;
      }
    }
    return true;
  }

  void dfs(const IndexSet &s, Mask m, std::vector<int> &h, int depth) {
    if (depth == 0) {
      ++ctx.traces;
      return;
    }
    for (size_t o = 0; o < ops.size(); ++o) {
      IndexSet t(s);
      Mask tm = m;
      h.push_back(o);
      ops[o].run(t, tm);
      if (checkNode(t, tm, h)) {
        dfs(t, tm, h, depth - 1);
      }
      h.pop_back();
    }
    // The copies that have been modified must not have affected the source.
    std::string e = light(u, s, m);
    if (!e.empty()) {
      ctx.fail("alias", history(h) +
                            " => modified by operations on copies: " + e);
    }
  }

  // One case for every first operation.
  void explore(const std::function<std::pair<IndexSet, Mask>()> &mk, int depth) {
    for (size_t o = 0; o < ops.size(); ++o) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return history({(int)o}) + "; ..."; });
      auto st = mk();
      std::vector<int> h;
      if (o == 0) {
        checkNode(st.first, st.second, h);
      }
      h.push_back(o);
      ops[o].run(st.first, st.second);
      if (checkNode(st.first, st.second, h)) {
        dfs(st.first, st.second, h, depth - 1);
      }
      ctx.outcome("histories explored from an initial state");
    }
  }
};

static std::vector<Op> rectOps(const std::vector<Rect> &rects, bool ins,
                               bool rem) {
  std::vector<Op> ops;
  for (const Rect &r : rects) {
    MultidimensionalRange mr = r.mr();
    Mask rm = r.mask;
    if (ins) {
      ops.push_back({"+=" + str(mr), [=](IndexSet &s, Mask &m) {
                       s += mr;
                       m |= rm;
                     }});
    }
    if (rem) {
      ops.push_back({"-=" + str(mr), [=](IndexSet &s, Mask &m) {
                       s -= mr;
                       m &= ~rm;
                     }});
    }
  }
  return ops;
}

static std::vector<Op> setOps(const Universe &u, const Menu &menu) {
  std::vector<Op> ops;
  for (const auto &o : menu.sets) {
    IndexSet t = o.first;
    Mask tm = o.second;
    std::string n = str(t);
    ops.push_back({"+=" + n, [=](IndexSet &s, Mask &m) { s += t; m |= tm; }});
    ops.push_back({"-=" + n, [=](IndexSet &s, Mask &m) { s -= t; m &= ~tm; }});
    ops.push_back({"&=" + n, [=](IndexSet &s, Mask &m) {
                     s = s.intersect(t);
                     m &= tm;
                   }});
  }
  const Rect full = u.rects.back();
  MultidimensionalRange fmr = full.mr();
  ops.push_back({"complement" + str(fmr), [=](IndexSet &s, Mask &m) {
                   s = s.complement(fmr);
                   m = full.mask & ~m;
                 }});
  ops.push_back({"clear", [](IndexSet &s, Mask &m) {
                   s.clear();
                   m = 0;
                 }});
  ops.push_back({"+= itself", [](IndexSet &s, Mask &) {
                   IndexSet &t = s;
                   s += t;
                 }});
  ops.push_back({"-= itself", [](IndexSet &s, Mask &m) {
                   IndexSet &t = s;
                   s -= t;
                   m = 0;
                 }});
  ops.push_back({"-= its first range", [&u](IndexSet &s, Mask &m) {
                   if (!s.empty()) {
                     for (Point p : *s.rangesBegin()) {
                       m &= ~(Mask(1) << u.idx.at(fromPoint(p)));
                     }
                     s -= *s.rangesBegin();
                   }
                 }});
  ops.push_back({"= itself", [](IndexSet &s, Mask &) {
                   IndexSet &t = s;
                   s = t;
                 }});
  ops.push_back({"= rebuilt from its ranges", [](IndexSet &s, Mask &) {
                   llvm::SmallVector<MultidimensionalRange> r(s.rangesBegin(),
                                                              s.rangesEnd());
                   s = IndexSet(llvm::ArrayRef<MultidimensionalRange>(r));
                 }});
  ops.push_back({"= rebuilt from its points", [](IndexSet &s, Mask &) {
                   llvm::SmallVector<Point> r(s.begin(), s.end());
                   s = IndexSet(llvm::ArrayRef<Point>(r));
                 }});
  ops.push_back({"= rebuilt from its compact ranges", [](IndexSet &s, Mask &) {
                   llvm::SmallVector<MultidimensionalRange> r;
                   s.getCompactRanges(r);
                   s.setFromRanges(r);
                 }});
  return ops;
}

// Sets with a deliberately irregular decomposition.
static Menu makeMenu(const Universe &u, bool small = false) {
  Menu menu;
  auto add = [&](std::vector<int> pick) {
    IndexSet s(1, 2);
    Mask m = 0;
    for (int i : pick) {
      const Rect &r = u.rects[((size_t)i * 7 + 3) % u.rects.size()];
      s += r.mr();
      m |= r.mask;
    }
    menu.sets.push_back({s, m});
  };
  auto addMask = [&](Mask m, bool tiny) {
    IndexSet s = tiny ? IndexSet(1, 2) : IndexSet();
    for (size_t i = 0; i < u.points.size(); ++i) {
      if (m >> i & 1) {
        s += toPoint(u.points[i]);
      }
    }
    menu.sets.push_back({s, m});
  };
  Mask all = u.rects.back().mask;
  Mask even = 0;
  for (size_t i = 0; i < u.points.size(); i += 2) {
    even |= Mask(1) << i;
  }
  addMask(0, false);
  addMask(even, true);
  addMask(all & ~even, false);
  addMask(all, false);
  add({0});
  if (!small) {
    add({2, 5});
    add({1, 4, 9});
    addMask(all & ~(Mask(1) << (u.points.size() / 2)), false);
  }
  return menu;
}

static void runUniverse(const std::string &name, const Universe &u,
                        std::vector<std::pair<int, int>> params, int depthRect,
                        int depthSet, const std::vector<Rect> *rects = nullptr) {
  Menu menu = makeMenu(u);
  for (auto p : params) {
    std::string tag = name + " tree(" + std::to_string(p.first) + "," +
                      std::to_string(p.second) + ")";
    ctx.suite("ranges");
    {
      Explorer e{u, menu, rectOps(rects ? *rects : u.rects, true, true), "{}",
                 tag};
      e.explore([&] { return std::make_pair(IndexSet(p.first, p.second), Mask(0)); },
                depthRect);
    }
    ctx.suite("sets");
    {
      Explorer e{u, menu, setOps(u, menu), "{}", tag};
      auto extra = rectOps({u.rects[1], u.rects[u.rects.size() / 2]}, true, true);
      e.ops.insert(e.ops.end(), extra.begin(), extra.end());
      e.explore([&] { return std::make_pair(IndexSet(p.first, p.second), Mask(0)); },
                depthSet);
    }
  }
}

// Populated trees: insert isolated points in a given order, then explore every
// removal order / mixed history from there.
static void runPopulated(const std::string &name, const Universe &u,
                         std::vector<int> pointIds, std::pair<int, int> params,
                         int insertOrders, int depth, bool viaCtor,
                         const std::vector<Op> *extraOps = nullptr) {
  Menu menu = makeMenu(u, true);
  std::sort(pointIds.begin(), pointIds.end());
  std::vector<int> order = pointIds;
  int n = 0;
  do {
    std::vector<Rect> rects;
    for (int i : pointIds) {
      rects.push_back(u.pointRect(i));
    }
    std::string tag = name + " tree(" + std::to_string(params.first) + "," +
                      std::to_string(params.second) + ")" +
                      (viaCtor ? " bulk" : "");
    std::string init = "{";
    for (int i : order) {
      init += str(toPoint(u.points[i])) + " ";
    }
    init += "}";
    std::vector<Op> ops = rectOps(rects, false, true);
    if (extraOps) {
      ops.insert(ops.end(), extraOps->begin(), extraOps->end());
    }
    Explorer e{u, menu, ops, init, tag};
    e.explore(
        [&] {
          IndexSet s(params.first, params.second);
          Mask m = 0;
          if (viaCtor) {
            llvm::SmallVector<MultidimensionalRange> rs;
            for (int i : order) {
              rs.push_back(u.pointRect(i).mr());
              m |= Mask(1) << i;
            }
            s.setFromRanges(rs);
          } else {
            for (int i : order) {
              s += toPoint(u.points[i]);
              m |= Mask(1) << i;
            }
          }
          return std::make_pair(s, m);
        },
        depth);
    ++n;
  } while ((insertOrders == 0 || n < insertOrders) &&
           std::next_permutation(order.begin(), order.end()));
}

// Every multiset of up to k rectangles handed to the bulk constructor.
static void runBulk(const std::string &name, const Universe &u, int k,
                    std::pair<int, int> params) {
  Menu menu = makeMenu(u, true);
  ctx.suite("bulk");
  size_t n = u.rects.size();
  std::vector<size_t> pick(k, 0);
  for (size_t a = 0; a < n; ++a) {
    for (size_t b = 0; b < n; ++b) {
      if (!ctx.take()) {
        continue;
      }
      auto d0 = [&] {
        return name + " bulk " + str(u.rects[a].mr()) + " " +
               str(u.rects[b].mr()) + " ...";
      };
      ctx.describe(d0);
      size_t total = 1;
      for (int i = 2; i < k; ++i) {
        total *= n;
      }
      for (size_t t = 0; t < total; ++t) {
        llvm::SmallVector<MultidimensionalRange> rs;
        Mask m = u.rects[a].mask | u.rects[b].mask;
        rs.push_back(u.rects[a].mr());
        rs.push_back(u.rects[b].mr());
        size_t x = t;
        for (int i = 2; i < k; ++i) {
          rs.push_back(u.rects[x % n].mr());
          m |= u.rects[x % n].mask;
          x /= n;
        }
        IndexSet s(params.first, params.second);
        s.setFromRanges(rs);
        ++ctx.transitions;
        ++ctx.traces;
        auto hist = [&] {
          std::string r = name + " bulk";
          for (auto &q : rs) {
            r += " " + str(q);
          }
          return r;
        };
        std::string e = light(u, s, m);
        if (e.empty()) {
          uint64_t key = mc::Ctx::hash(name + "b" + rangesKey(s));
          ctx.state(key);
          if (ctx.claim(key)) {
            e = heavy(u, s, m, menu);
          }
        }
        if (!e.empty()) {
          ctx.fail("bulk", hist() + " => " + e);
        }
      }
    }
  }
}

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;

  Universe u1({6}, {-2});
  Universe u2({3, 3}, {-1, 0});
  Universe u3({2, 2, 2}, {0, -1, 3});
  runUniverse("1-D 6", u1, {{1, 2}, {1, 3}, {2, 4}, {4, 16}}, th ? 4 : 3,
              th ? 3 : 2);
  runUniverse("2-D 3x3", u2, {{1, 2}, {2, 4}, {4, 16}}, th ? 3 : 2, th ? 3 : 2);
  {
    // Fewer rectangles, deeper histories.
    std::vector<Rect> some;
    for (size_t i = 0; i < u2.rects.size(); i += 4) {
      some.push_back(u2.rects[i]);
    }
    runUniverse("2-D 3x3 few", u2, {{1, 2}, {1, 3}, {2, 4}}, th ? 5 : 4, 2, &some);
  }
  runUniverse("3-D 2x2x2", u3, {{1, 2}, {2, 4}}, th ? 3 : 2, th ? 3 : 2);

  ctx.suite("populated");
  // Isolated points on a line and on a plane: no merging, hence deep trees.
  Universe l13({13}, {0});
  runPopulated("line", l13, {0, 2, 4, 6, 8}, {1, 2}, 0, th ? 5 : 4, false);
  runPopulated("line", l13, {0, 2, 4, 6, 8, 10, 12}, {1, 2}, th ? 5040 : 60,
               th ? 5 : 4, false);
  runPopulated("line", l13, {0, 2, 4, 6, 8, 10, 12}, {2, 4}, th ? 5040 : 60,
               th ? 5 : 4, false);
  runPopulated("line", l13, {0, 2, 4, 6, 8, 10, 12}, {2, 5}, th ? 2000 : 20,
               th ? 5 : 4, false);
  runPopulated("line", l13, {0, 2, 4, 6, 8, 10, 12}, {1, 2}, 1, th ? 7 : 5, true);
  Universe p55({5, 5}, {0, 0});
  {
    std::vector<int> checker;
    for (int i = 0; i < 25; i += 2) {
      checker.push_back(i);
    }
    std::vector<Rect> big;
    for (size_t i = 0; i < p55.rects.size(); ++i) {
      if (i % 23 == 5) {
        big.push_back(p55.rects[i]);
      }
    }
    auto extra = rectOps(big, true, true);
    for (auto p : std::vector<std::pair<int, int>>{{1, 2}, {2, 4}, {1, 3}, {4, 16}}) {
      runPopulated("plane", p55, checker, p, th ? 40 : 4, th ? 4 : 2, false,
                   &extra);
      runPopulated("plane", p55, checker, p, 1, th ? 4 : 2, true, &extra);
    }
  }
  // The default node sizes (4, 16), with enough points to have several levels.
  Universe l64({64}, {0});
  {
    std::vector<int> ev;
    for (int i = 0; i < 64; i += 2) {
      ev.push_back(i);
    }
    std::vector<Rect> big;
    for (auto pr : std::vector<std::pair<int, int>>{
             {0, 64}, {0, 32}, {32, 64}, {16, 48}, {0, 11}, {1, 3}, {7, 29}, {20, 21},
             {40, 63}}) {
      big.push_back(l64.mk({pr.first}, {pr.second}));
    }
    auto extra = rectOps(big, true, true);
    // rects of l64 is large (2080): the heavy check is skipped by using a
    // small copy of the universe.
    Universe v = l64;
    v.rects = big;
    v.rects.insert(v.rects.begin(), l64.pointRect(3));
    v.rects.push_back(l64.mk({0}, {64}));
    for (auto p : std::vector<std::pair<int, int>>{{4, 16}, {2, 4}, {1, 2}}) {
      runPopulated("line64", v, ev, p, th ? 20 : 2, th ? 3 : 2, false, &extra);
      runPopulated("line64", v, ev, p, 1, th ? 3 : 2, true, &extra);
    }
  }
  Universe u34({3, 6}, {0, 0});
  runBulk("2-D 3x3", u2, 3, {4, 16});
  runBulk("2-D 3x3", u2, 3, {1, 2});
  runBulk("1-D 6", u1, 4, {1, 2});
  runBulk("3-D 2x2x2", u3, 3, {2, 4});
  if (th) {
    runBulk("2-D 3x6", u34, 3, {4, 16});
    runBulk("2-D 3x3", u2, 4, {2, 4});
  }
  return ctx.finish();
}
