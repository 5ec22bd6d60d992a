// Exhaustive check of the point / range / multidimensional range algebra
// against explicit sets of integer points.
#include "mc.h"
#include "marco/Modeling/MultidimensionalRange.h"
#include "llvm/ADT/DenseSet.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>

using namespace marco::modeling;
using Pt = std::vector<int64_t>;
using PtSet = std::set<Pt>;
static mc::Ctx ctx;

template <typename T>
static std::string str(const T &v) {
  std::string s;
  llvm::raw_string_ostream os(s);
  os << v;
  return s;
}
#define REQ(cond, what)                                                        \
  do {                                                                         \
    if (!(cond))                                                               \
      return std::string(what);                                                \
  } while (0)

using Box = std::vector<std::pair<int64_t, int64_t>>;

static MultidimensionalRange mk(const Box &b) {
  llvm::SmallVector<Range> r;
  for (auto &p : b) {
    r.push_back(Range(p.first, p.second));
  }
  return MultidimensionalRange(r);
}

static PtSet pts(const Box &b) {
  PtSet r;
  Pt cur(b.size());
  std::function<void(size_t)> rec = [&](size_t d) {
    if (d == b.size()) {
      r.insert(cur);
      return;
    }
    for (int64_t i = b[d].first; i < b[d].second; ++i) {
      cur[d] = i;
      rec(d + 1);
    }
  };
  rec(0);
  return r;
}

static Pt vec(const Point &p) { return Pt(p.begin(), p.end()); }

static PtSet got(const MultidimensionalRange &r) {
  PtSet s;
  for (Point p : r) {
    s.insert(vec(p));
  }
  return s;
}

static std::vector<Box> boxes(const std::vector<std::pair<int, int>> &dims) {
  std::vector<Box> res;
  Box cur(dims.size());
  std::function<void(size_t)> rec = [&](size_t d) {
    if (d == dims.size()) {
      res.push_back(cur);
      return;
    }
    for (int i = dims[d].first; i < dims[d].second; ++i) {
      for (int j = i + 1; j <= dims[d].second; ++j) {
        cur[d] = {i, j};
        rec(d + 1);
      }
    }
  };
  rec(0);
  return res;
}

static PtSet inter(const PtSet &a, const PtSet &b) {
  PtSet r;
  for (auto &p : a) {
    if (b.count(p)) {
      r.insert(p);
    }
  }
  return r;
}

static PtSet minus(const PtSet &a, const PtSet &b) {
  PtSet r;
  for (auto &p : a) {
    if (!b.count(p)) {
      r.insert(p);
    }
  }
  return r;
}

static int sgn(int x) { return (x > 0) - (x < 0); }

static std::string pairCheck(const Box &ba, const Box &bb) {
  MultidimensionalRange a = mk(ba), b = mk(bb);
  PtSet pa = pts(ba), pb = pts(bb);
  REQ((a == b) == (ba == bb), "equality");
  REQ((a != b) == (ba != bb), "inequality");
  if (ba == bb) {
    REQ(hash_value(a) == hash_value(b), "hash of equal ranges");
  }
  int c = sgn(a.compare(b));
  int e = ba < bb ? -1 : (ba == bb ? 0 : 1);
  REQ(c == e, "compare() is not lexicographic");
  REQ((a < b) == (e < 0), "operator<");
  REQ((a > b) == (e > 0), "operator>");
  PtSet pi = inter(pa, pb);
  REQ(a.overlaps(b) == !pi.empty(), "overlaps");
  REQ(a.contains(b) == (pi == pb), "contains(range)");
  bool any = false;
  for (size_t d = 0; d < ba.size(); ++d) {
    any = any || (ba[d].first < bb[d].second && bb[d].first < ba[d].second);
  }
  REQ(a.anyDimensionOverlaps(b) == any, "anyDimensionOverlaps");
  if (!pi.empty()) {
    REQ(got(a.intersect(b)) == pi, "intersect");
  }
  PtSet rest;
  for (auto &r : a.subtract(b)) {
    for (Point p : r) {
      REQ(rest.insert(vec(p)).second, "pieces of subtract overlap");
    }
  }
  REQ(rest == minus(pa, pb), "subtract");
  size_t differing = 0, dim = 0;
  bool mergeable = true;
  for (size_t d = 0; d < ba.size(); ++d) {
    if (ba[d] != bb[d]) {
      ++differing;
      dim = d;
      mergeable = mergeable && ba[d].first <= bb[d].second &&
                  bb[d].first <= ba[d].second;
    }
  }
  auto cm = a.canBeMerged(b);
  if (differing > 0) {
    REQ(cm.first == (differing == 1 && mergeable), "canBeMerged");
  }
  if (cm.first) {
    REQ(differing == 0 || cm.second == dim, "dimension of the merge");
    PtSet u = pa;
    u.insert(pb.begin(), pb.end());
    REQ(got(a.merge(b, cm.second)) == u, "merge");
  }
  // 1-D ranges.
  if (ba.size() == 1) {
    Range x(ba[0].first, ba[0].second), y(bb[0].first, bb[0].second);
    REQ((x == y) == (ba == bb), "Range ==");
    REQ((x != y) == (ba != bb), "Range !=");
    REQ((x < y) == (e < 0), "Range <");
    REQ((x > y) == (e > 0), "Range >");
    REQ(sgn(x.compare(y)) == e, "Range compare");
    REQ(x.contains(y) == (pi == pb), "Range contains range");
    REQ(x.overlaps(y) == !pi.empty(), "Range overlaps");
    if (ba == bb) {
      REQ(hash_value(x) == hash_value(y), "Range hash");
    }
    bool cmr = ba[0].first <= bb[0].second && bb[0].first <= ba[0].second;
    REQ(x.canBeMerged(y) == cmr, "Range canBeMerged");
    if (cmr) {
      Range m = x.merge(y);
      REQ(m.getBegin() == std::min(ba[0].first, bb[0].first) &&
              m.getEnd() == std::max(ba[0].second, bb[0].second),
          "Range merge");
    }
    if (!pi.empty()) {
      Range i = x.intersect(y);
      REQ(i.getBegin() == std::max(ba[0].first, bb[0].first) &&
              i.getEnd() == std::min(ba[0].second, bb[0].second),
          "Range intersect");
    }
    PtSet r;
    for (auto &q : x.subtract(y)) {
      REQ(q.getBegin() < q.getEnd(), "empty piece in Range subtract");
      for (auto v : q) {
        REQ(r.insert({v}).second, "pieces of Range subtract overlap");
      }
    }
    REQ(r == rest, "Range subtract");
  }
  // Product with a range of any rank.
  Box ab = ba;
  ab.insert(ab.end(), bb.begin(), bb.end());
  REQ(a.append(b) == mk(ab), "append");
  REQ(b.prepend(a) == mk(ab), "prepend");
  REQ((int)a.append(b).rank() == (int)ab.size(), "rank of append");
  return "";
}

static std::string singleCheck(const Box &b, const std::vector<Pt> &probe) {
  MultidimensionalRange r = mk(b);
  PtSet p = pts(b);
  size_t rank = b.size();
  REQ(r.rank() == rank, "rank");
  REQ(r.size() == p.size(), "size");
  llvm::SmallVector<size_t> sizes;
  r.getSizes(sizes);
  REQ(sizes.size() == rank, "getSizes");
  for (size_t d = 0; d < rank; ++d) {
    REQ(r[d].getBegin() == b[d].first && r[d].getEnd() == b[d].second,
        "operator[]");
    REQ((int64_t)sizes[d] == b[d].second - b[d].first, "getSizes");
    REQ(r[d].size() == sizes[d], "Range size");
  }
  // Lexicographic iteration, each point once.
  auto it = p.begin();
  for (auto i = r.begin(), e = r.end(); i != e; ++i) {
    REQ(it != p.end(), "iteration goes past the end");
    REQ(vec(*i) == *it, "iteration order");
    ++it;
  }
  REQ(it == p.end(), "iteration misses points");
  auto post = r.begin();
  for (auto &q : p) {
    auto old = post++;
    REQ(vec(*old) == q, "post-increment");
  }
  REQ(post == r.end(), "post-increment does not reach the end");
  for (const Pt &q : probe) {
    Point pt{llvm::ArrayRef<int64_t>(q)};
    REQ(r.contains(pt) == (p.count(q) > 0), "contains(point)");
    REQ((r == pt) == (p.size() == 1 && p.count(q)), "== point");
    REQ((r != pt) == !(p.size() == 1 && p.count(q)), "!= point");
    if (rank == 1) {
      Range x(b[0].first, b[0].second);
      REQ(x.contains(q[0]) == (p.count(q) > 0), "Range contains value");
      REQ((x == q[0]) == (p.size() == 1 && p.count(q)), "Range == value");
      REQ((x != q[0]) == !(p.size() == 1 && p.count(q)), "Range != value");
    }
    if (p.count(q)) {
      REQ(r.contains(MultidimensionalRange(pt)), "contains the range of a point");
      REQ(MultidimensionalRange(pt) == pt, "range of a point");
    }
  }
  for (unsigned bits = 1; bits < (1u << rank); ++bits) {
    llvm::BitVector bv(rank);
    llvm::SmallBitVector sbv(rank);
    Box e;
    for (size_t d = 0; d < rank; ++d) {
      if (bits >> d & 1) {
        bv.set(d);
        sbv.set(d);
        e.push_back(b[d]);
      }
    }
    REQ(r.slice(bv) == mk(e), "slice(filter)");
    REQ(r.takeDimensions(sbv) == mk(e), "takeDimensions");
  }
  for (size_t n = 1; n <= rank; ++n) {
    Box f(b.begin(), b.begin() + n), l(b.end() - n, b.end());
    REQ(r.slice(n) == mk(f), "slice(n)");
    REQ(r.takeFirstDimensions(n) == mk(f), "takeFirstDimensions");
    REQ(r.takeLastDimensions(n) == mk(l), "takeLastDimensions");
    REQ(r.dropLastDimensions(rank - n) == mk(f), "dropLastDimensions");
    REQ(r.dropFirstDimensions(rank - n) == mk(l), "dropFirstDimensions");
  }
  return "";
}

static std::string pointCheck(const Pt &a, const Pt &b) {
  Point p{llvm::ArrayRef<int64_t>(a)}, q{llvm::ArrayRef<int64_t>(b)};
  int e = a.size() != b.size() ? (a.size() < b.size() ? -1 : 1)
                               : (a < b ? -1 : (a == b ? 0 : 1));
  REQ(p.rank() == a.size() && vec(p) == a, "point components");
  REQ((p == q) == (a == b), "Point ==");
  REQ((p != q) == (a != b), "Point !=");
  REQ(sgn(p.compare(q)) == e, "Point compare");
  REQ((p < q) == (e < 0), "Point <");
  if (a == b) {
    REQ(hash_value(p) == hash_value(q), "Point hash");
  }
  Pt ab = a;
  ab.insert(ab.end(), b.begin(), b.end());
  REQ(vec(p.append(q)) == ab, "Point append");
  for (size_t n = 0; n <= a.size(); ++n) {
    REQ(vec(p.takeFront(n)) == Pt(a.begin(), a.begin() + n), "takeFront");
    REQ(vec(p.takeBack(n)) == Pt(a.end() - n, a.end()), "takeBack");
  }
  for (unsigned bits = 0; bits < (1u << a.size()); ++bits) {
    llvm::BitVector bv(a.size());
    Pt x;
    for (size_t d = 0; d < a.size(); ++d) {
      if (bits >> d & 1) {
        bv.set(d);
        x.push_back(a[d]);
      }
    }
    REQ(vec(p.slice(bv)) == x, "Point slice");
  }
  for (size_t d = 0; d < a.size(); ++d) {
    REQ(p[d] == a[d], "Point []");
  }
  return "";
}

static std::string boxStr(const Box &b) { return str(mk(b)); }

int main(int argc, char **argv) {
  ctx.parse(argc, argv);
  bool th = ctx.thorough;
  std::vector<std::vector<std::pair<int, int>>> unis = {
      {{-3, th ? 7 : 5}},
      {{-1, th ? 3 : 2}, {0, th ? 4 : 3}},
      {{-1, 1}, {0, 2}, {4, th ? 7 : 6}},
      {{-1, 0}, {0, 2}, {-2, 0}, {3, 5}},
  };
  for (auto &u : unis) {
    ctx.suite("ranges");
    std::vector<Box> bs = boxes(u);
    std::vector<Pt> probe;
    {
      Box wide;
      for (auto &d : u) {
        wide.push_back({d.first - 1, d.second + 1});
      }
      for (auto &p : pts(wide)) {
        probe.push_back(p);
      }
    }
    for (auto &a : bs) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return boxStr(a) + " against every range"; });
      ctx.state(boxStr(a));
      ++ctx.transitions;
      std::string e = singleCheck(a, probe);
      if (!e.empty()) {
        ctx.fail("range", boxStr(a) + " => " + e);
      }
      for (auto &b : bs) {
        ++ctx.transitions;
        ++ctx.traces;
        e = pairCheck(a, b);
        ctx.outcome(mk(a).overlaps(mk(b)) ? "overlapping pairs" : "disjoint pairs");
        if (!e.empty()) {
          ctx.fail("ranges", boxStr(a) + " with " + boxStr(b) + " => " + e);
        }
      }
    }
    ctx.suite("points");
    for (auto &a : probe) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] {
        return str(Point(llvm::ArrayRef<int64_t>(a))) + " against every point";
      });
      ctx.state(str(Point(llvm::ArrayRef<int64_t>(a))));
      std::vector<Pt> others = probe;
      others.push_back({0});
      others.push_back({0, 0});
      others.push_back({-2, 0, 5});
      others.push_back({});
      for (auto &b : others) {
        ++ctx.transitions;
        ++ctx.traces;
        std::string e = pointCheck(a, b);
        if (!e.empty()) {
          ctx.fail("points", str(Point(llvm::ArrayRef<int64_t>(a))) + " with " +
                                 str(Point(llvm::ArrayRef<int64_t>(b))) + " => " + e);
        }
      }
    }
  }
  // Cross-rank comparisons must be a strict order as well.
  ctx.suite("order");
  {
    std::vector<Box> all;
    for (auto &u : std::vector<std::vector<std::pair<int, int>>>{
             {{0, 3}}, {{0, 2}, {0, 2}}, {{0, 1}, {0, 2}, {0, 1}}}) {
      for (auto &b : boxes(u)) {
        all.push_back(b);
      }
    }
    for (auto &a : all) {
      if (!ctx.take()) {
        continue;
      }
      ctx.describe([&] { return "order " + boxStr(a); });
      for (auto &b : all) {
        ++ctx.transitions;
        int e = a.size() != b.size() ? (a.size() < b.size() ? -1 : 1)
                                     : (a < b ? -1 : (a == b ? 0 : 1));
        if (sgn(mk(a).compare(mk(b))) != e || (mk(a) == mk(b)) != (e == 0)) {
          ctx.fail("order", boxStr(a) + " with " + boxStr(b) + " => compare");
        }
      }
    }
  }
  // The types are usable as keys of hash containers.
  ctx.suite("hash containers");
  if (ctx.take()) {
    ctx.describe([&] { return std::string("hash sets of ranges and points"); });
    llvm::DenseSet<MultidimensionalRange> ms;
    llvm::DenseSet<Range> rs;
    llvm::DenseSet<Point> ps;
    std::set<Box> ref, refr;
    PtSet refp;
    for (auto &u : unis) {
      for (auto &b : boxes(u)) {
        ref.insert(b);
        ms.insert(mk(b));
        refr.insert({b[0]});
        rs.insert(Range(b[0].first, b[0].second));
        for (auto &p : pts(b)) {
          refp.insert(p);
          ps.insert(Point(llvm::ArrayRef<int64_t>(p)));
        }
      }
    }
    ++ctx.transitions;
    if (ms.size() != ref.size() || rs.size() != refr.size() ||
        ps.size() != refp.size()) {
      ctx.fail("hash", "number of distinct keys");
    }
    for (auto &b : ref) {
      if (!ms.contains(mk(b))) {
        ctx.fail("hash", "lookup of " + boxStr(b));
      }
    }
  }
  return ctx.finish();
}
