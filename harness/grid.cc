// Axes, boxes and grids of parameter domains.  Coordinates are integers times
// the scale of the history.
#include "common.h"
#include <cmath>
#include <map>
#include <memory>
#include <stdexcept>
#include "parmdb/Axis.h"
#include "parmdb/AxisMapping.h"
#include "parmdb/Box.h"
#include "parmdb/Grid.h"

using namespace dp3::parmdb;

namespace {
double scale = 1.0;
std::map<int, Axis::ShPtr> axes;
std::map<int, Box> boxes;
std::map<int, Grid> grids;
AxisMappingCache cache;

// in quarters of a coordinate
json Quarter(double v) {
  if (v < -1e29) return -999999999;
  if (v > 1e29) return 999999999;
  const double x = 4.0 * v / scale;
  if (!(std::abs(x) < 1e9)) return 888888888;
  const double r = std::round(x);
  return std::abs(x - r) > 1e-6 ? json(777777777) : json(static_cast<long>(r));
}
double Val(const json& v) { return v.get<double>() * scale; }
std::vector<double> Vals(const json& v) {
  std::vector<double> r;
  for (const json& x : v) r.push_back(Val(x));
  return r;
}
json Describe(const Axis& a) {
  json cells = json::array(), centers = json::array(), widths = json::array();
  bool same = a.size() == a.centers().size() && a.size() == a.widths().size() &&
              a.size() == a.lowers().size() && a.size() == a.uppers().size();
  for (size_t i = 0; same && i != a.size(); ++i) {
    cells.push_back({Quarter(a.lower(i)), Quarter(a.upper(i))});
    centers.push_back(Quarter(a.center(i)));
    widths.push_back(Quarter(a.width(i)));
    same = same && a.lower(i) == a.lowers()[i] && a.upper(i) == a.uppers()[i] &&
           a.center(i) == a.centers()[i] && a.width(i) == a.widths()[i];
  }
  return {{"cells", cells}, {"centers", centers}, {"widths", widths}, {"regular", a.isRegular()}, {"same", same},
          {"range", {Quarter(a.range().first), Quarter(a.range().second), Quarter(a.start()), Quarter(a.end())}}};
}
json Describe(const Box& b) {
  return {Quarter(b.lowerX()), Quarter(b.lowerY()), Quarter(b.upperX()), Quarter(b.upperY()), Quarter(b.widthX()), Quarter(b.widthY()),
          Quarter(b.lower().first), Quarter(b.lower().second), Quarter(b.upper().first), Quarter(b.upper().second)};
}
json Describe(const Grid& g) {
  return {{"x", Describe(*g.getAxis(0))}, {"y", Describe(*g[1])}, {"def", g.isDefault()},
          {"sizes", {g.nx(), g.ny(), g.shape().first, g.shape().second, g.size()}}, {"box", Describe(g.getBoundingBox())}};
}
void Put(json& ev, Axis::ShPtr a) {
  axes[ev["id"]] = a;
  ev["out"] = Describe(*a);
}
Axis& A(const json& ev, const char* k = "a") { return *axes.at(ev[k].get<int>()); }
Box& B(const json& ev, const char* k = "a") { return boxes.at(ev[k].get<int>()); }
Grid& G(const json& ev, const char* k = "a") { return grids.at(ev[k].get<int>()); }
Grid::Location Loc(const json& v) { return Grid::Location(v[0].get<size_t>(), v[1].get<size_t>()); }
json Out(const Grid::Location& l) { return {l.first, l.second}; }

void AxisOp(json& ev) {
  const std::string op = ev["op"];
  if (op == "reg")
    Put(ev, std::make_shared<RegularAxis>(Val(ev["start"]), Val(ev["width"]), ev["count"].get<unsigned>(), ev["ends"].get<int>()));
  else if (op == "ord")
    Put(ev, std::make_shared<OrderedAxis>(Vals(ev["v1"]), Vals(ev["v2"]), ev["ends"].get<int>()));
  else if (op == "deflt") {
    if (ev["ordered"].get<int>())
      Put(ev, std::make_shared<OrderedAxis>());
    else
      Put(ev, std::make_shared<RegularAxis>());
  } else if (op == "clone") {
    Put(ev, A(ev).clone());
  } else if (op == "make")
    Put(ev, Axis::makeAxis(Vals(ev["v1"]), Vals(ev["v2"])));
  else if (op == "find") {
    const auto r = A(ev).find(Val(ev["x"]), ev["right"].get<int>(), ev["hint"].get<size_t>());
    ev["out"] = {r.first, r.second ? 1 : 0};
    try {
      ev["located"] = A(ev).locate(Val(ev["x"]), ev["right"].get<int>(), ev["hint"].get<size_t>());
    } catch (const std::runtime_error&) {
      ev["located"] = -1;
    }
  } else if (op == "subset") {
    size_t index = 7777;
    Axis::ShPtr a = A(ev).subset(Val(ev["from"]), Val(ev["to"]), index);
    ev["same"] = *A(ev).subset(Val(ev["from"]), Val(ev["to"])) == *a;
    ev["index"] = index;
    Put(ev, a);
  } else if (op == "part")
    Put(ev, A(ev).subset(ev["from"].get<size_t>(), ev["to"].get<size_t>()));
  else if (op == "compress")
    Put(ev, A(ev).compress(ev["factor"].get<size_t>()));
  else if (op == "combine") {
    int s1 = -1, e1 = -1, s2 = -1, e2 = -1;
    try {
      Axis::ShPtr r = A(ev).combine(A(ev, "b"), s1, e1, s2, e2);
      Put(ev, r);
      ev["where"] = {s1, e1, s2, e2};
    } catch (const std::runtime_error&) {
      ev["where"] = json::array();
      ev["out"] = Describe(A(ev));
    }
  } else if (op == "equal") {
    ev["eq"] = A(ev) == A(ev, "b");
    ev["ne"] = A(ev) != A(ev, "b");
  } else if (op == "check") {
    ev["out"] = A(ev).checkIntervals(A(ev, "b"));
  } else if (op == "map") {
    const bool cached = ev["cached"].get<int>();
    const size_t n0 = cache.size();
    std::unique_ptr<AxisMapping> own;
    const AxisMapping* m;
    if (cached)
      m = &cache.get(A(ev), A(ev, "b"));
    else {
      own = std::make_unique<AxisMapping>(A(ev), A(ev, "b"));
      m = own.get();
    }
    ev["grown"] = cache.size() - n0;
    json q = json::array(), c = json::array(), at = json::array();
    for (int x : *m) q.push_back(x);
    for (size_t i = 0; i != m->size(); ++i) {
      at.push_back((*m)[i]);
      const double v = m->getScaledCenters()[i] * 10000.0;
      c.push_back(std::abs(v) < 1e9 ? std::lround(v) : 1000000000L);
    }
    ev["out"] = q;
    ev["at"] = at;
    ev["centers"] = c;
    ev["borders"] = m->getBorders();
  } else if (op == "clear")
    cache.clear();
}

void BoxOp(json& ev) {
  const std::string op = ev["op"];
  auto put = [&](const Box& b) {
    boxes.insert_or_assign(ev["id"].get<int>(), b);
    ev["out"] = Describe(b);
  };
  if (op == "box") {
    const std::string how = ev["how"];
    const json& v = ev["v"];
    if (how == "points")
      put(Box(Point(Val(v[0]), Val(v[1])), Point(Val(v[2]), Val(v[3]))));
    else if (how == "vector")
      put(Box(Vals(v)));
    else if (how == "ends")
      put(Box(Val(v[0]), Val(v[2]), Val(v[1]), Val(v[3]), true));
    else if (how == "widths")
      put(Box(Val(v[0]), Val(v[2]), Val(v[1]), Val(v[3])));
    else
      put(Box());
  } else if (op == "meet")
    put(ev["fn"].get<int>() ? intersect(B(ev), B(ev, "b")) : (B(ev) & B(ev, "b")));
  else if (op == "join")
    put(ev["fn"].get<int>() ? unite(B(ev), B(ev, "b")) : (B(ev) | B(ev, "b")));
  else if (op == "rel") {
    Box &a = B(ev), &b = B(ev, "b");
    ev["out"] = {a.intersects(b), a.contains(b), a.empty(), a == b, a != b, a < b, a > b};
  }
}

void GridOp(json& ev) {
  const std::string op = ev["op"];
  auto put = [&](const Grid& g) {
    grids.insert_or_assign(ev["id"].get<int>(), g);
    ev["out"] = Describe(g);
  };
  if (op == "gaxes")
    put(Grid(axes.at(ev["a"].get<int>()), axes.at(ev["b"].get<int>())));
  else if (op == "gdef")
    put(Grid());
  else if (op == "gboxes") {
    std::vector<Box> v;
    for (const json& k : ev["list"]) v.push_back(boxes.at(k.get<int>()));
    put(Grid(v, ev["sort"].get<int>()));
  } else if (op == "ggrids") {
    std::vector<Grid> v;
    for (const json& k : ev["list"]) v.push_back(grids.at(k.get<int>()));
    put(Grid(v, ev["sort"].get<int>()));
  } else if (op == "gsubset") {
    Grid::Location index(7777, 7777);
    Grid g = G(ev).subset(B(ev, "b"), index);
    ev["index"] = Out(index);
    Grid h = G(ev).subset(B(ev, "b"));
    ev["same"] = Describe(g) == Describe(h);
    put(g);
  } else if (op == "gpart")
    put(G(ev).subset(Loc(ev["from"]), Loc(ev["to"])));
  else if (op == "gdomains") {
    std::vector<Box> v(ev["before"].get<size_t>());
    G(ev).toDomains(v);
    json r = json::array();
    for (const Box& b : v) r.push_back(Describe(b));
    ev["out"] = r;
  } else if (op == "gcell") {
    const Grid& g = G(ev);
    const Grid::Location l = Loc(ev["at"]);
    const unsigned id = g.getCellId(l);
    ev["cell"] = id;
    ev["back"] = Out(g.getCellLocation(id));
    ev["box"] = Describe(g.getCell(l));
    ev["box2"] = Describe(g.getCell(id));
    ev["center"] = {Quarter(g.getCellCenter(l).first), Quarter(g.getCellCenter(l).second)};
  } else if (op == "gbound")
    ev["out"] = Describe(G(ev).getBoundingBox(Loc(ev["from"]), Loc(ev["to"])));
  else if (op == "glocate") {
    try {
      ev["out"] = Out(G(ev).locate(Point(Val(ev["at"][0]), Val(ev["at"][1])), ev["right"].get<int>()));
    } catch (const std::runtime_error&) {
      ev["out"] = json::array();
    }
  } else if (op == "giter") {
    json r = json::array();
    int n = 0;
    for (CellIterator it(Loc(ev["from"]), Loc(ev["to"])); !it.atEnd() && n != 1000; ++n) {
      r.push_back({it->first, (*it).second});
      if (n % 2)
        ++it;
      else
        it++;
    }
    ev["out"] = r;
  } else if (op == "gcmp") {
    const Grid &a = G(ev), &b = G(ev, "b");
    ev["out"] = {a < b, a > b, a.checkIntervals(b)};
  } else if (op == "gmap") {
    const Grid &a = G(ev), &b = G(ev, "b");
    const Grid::Location l = Loc(ev["at"]);
    const unsigned id = a.getCellId(l);
    ev["out"] = {Out(GridMapping::findLocation(cache, l, a, b)), Out(GridMapping::findLocation(cache, id, a, b))};
    ev["ids"] = {GridMapping::findCellId(cache, l, a, b), GridMapping::findcellId(cache, id, a, b)};
  }
}

void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") {
    scale = ev["num"].get<double>() / ev["den"].get<double>();
    axes.clear();
    boxes.clear();
    grids.clear();
    cache.clear();
  } else if (op[0] == 'g')
    GridOp(ev);
  else if (op == "box" || op == "meet" || op == "join" || op == "rel")
    BoxOp(ev);
  else
    AxisOp(ev);
}
}  // namespace

int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
