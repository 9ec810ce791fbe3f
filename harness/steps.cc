// Drives chains of processing steps with integer-valued visibilities and
// records what comes out.  Which steps are available is chosen at build time.
#include "common.h"
#include "info_json.h"
#include <cmath>
#include <memory>
#include <fstream>
#include <limits>
#include <sstream>
#include "base/DPBuffer.h"
#include "base/BdaBuffer.h"
#include "base/DPInfo.h"
#include "common/ParameterSet.h"
#include "steps/Step.h"
#ifdef WITH_AVERAGER
#include "steps/Averager.h"
#endif
#ifdef WITH_BDA
#include "steps/BDAAverager.h"
#include "steps/BdaExpander.h"
#endif
#ifdef WITH_UPSAMPLE
#include "steps/Upsample.h"
#endif
#ifdef WITH_NULLSTOKES
#include "steps/NullStokes.h"
#endif
#ifdef WITH_COUNTER
#include "steps/Counter.h"
#endif
#ifdef WITH_INTERPOLATE
#include "steps/Interpolate.h"
#endif
#ifdef WITH_ANTENNAFLAGGER
#include "steps/AntennaFlagger.h"
#include "antennaflagger/Flagger.h"
std::unique_ptr<dp3::antennaflagger::Flagger> flagger;
#endif
#ifdef WITH_SCALEDATA
#include "steps/ScaleData.h"
#endif
#ifdef WITH_COMBINE
#include "steps/Combine.h"
#endif
#ifdef WITH_STATIONADDER
#include "steps/StationAdder.h"
#endif
#ifdef WITH_MADFLAGGER
#include "steps/MadFlagger.h"
#endif
#ifdef WITH_FILTER
#include "steps/Filter.h"
#endif
#ifdef WITH_UVWFLAGGER
#include "steps/UVWFlagger.h"
#endif
#ifdef WITH_PREFLAGGER
#include "steps/PreFlagger.h"
#endif

#ifdef WITH_FILTER
#include "steps/MsReader.h"
// The reader of measurement sets needs libraries that are not here; this is
// the documented meaning of its channel selection.
std::pair<unsigned int, unsigned int> dp3::steps::MsReader::ParseChannelSelection(const std::string& start,
                                                                                   const std::string& n,
                                                                                   unsigned int all) {
  casacore::Record rec;
  rec.define("nchan", all);
  const unsigned s = casacore::RecordGram::parse(rec, start).getDouble(rec) + 0.001;
  unsigned k = casacore::RecordGram::parse(rec, n).getDouble(rec) + 0.001;
  if (s >= all) throw std::runtime_error("startchan");
  return {s, k == 0 ? all - s : std::min(k, all - s)};
}
#endif

using dp3::base::BdaBuffer;
using dp3::base::DPBuffer;
using dp3::base::DPInfo;
using dp3::common::ParameterSet;
using dp3::steps::Step;

namespace {

class Sink : public Step {
 public:
  dp3::common::Fields getRequiredFields() const override { return {}; }
  dp3::common::Fields getProvidedFields() const override { return {}; }
  bool accepts(MsType) const override { return true; }
  void show(std::ostream&) const override {}
  bool process(std::unique_ptr<DPBuffer> b) override {
    json o;
    o["k"] = "reg";
    o["t"] = Rnd(b->GetTime() - epoch, 1000);
    o["exp"] = Rnd(b->GetExposure(), 1000);
    json names = json::array(), ds = json::array();
    for (const std::string& name : b->GetDataNames()) {
      names.push_back(name);
      json d = json::array();
      const auto& data = b->GetData(name);
      for (size_t i = 0; i < data.shape(0); ++i) {
        json r = json::array();
        for (size_t c = 0; c < data.shape(1); ++c) {
          json q = json::array();
          for (size_t p = 0; p < data.shape(2); ++p)
            q.push_back({Rnd(data(i, c, p).real(), kData), Rnd(data(i, c, p).imag(), kData)});
          r.push_back(q);
        }
        d.push_back(r);
      }
      ds.push_back(d);
    }
    o["names"] = names;
    o["d"] = ds;
    json w = json::array(), f = json::array(), u = json::array();
    const auto& ww = b->GetWeights();
    for (size_t i = 0; i < ww.shape(0); ++i) {
      json r = json::array();
      for (size_t c = 0; c < ww.shape(1); ++c) {
        json q = json::array();
        for (size_t p = 0; p < ww.shape(2); ++p) q.push_back(Rnd(ww(i, c, p), kData));
        r.push_back(q);
      }
      w.push_back(r);
    }
    const auto& ff = b->GetFlags();
    for (size_t i = 0; i < ff.shape(0); ++i) {
      json r = json::array();
      for (size_t c = 0; c < ff.shape(1); ++c) {
        json q = json::array();
        for (size_t p = 0; p < ff.shape(2); ++p) q.push_back(ff(i, c, p) ? 1 : 0);
        r.push_back(q);
      }
      f.push_back(r);
    }
    const auto& uu = b->GetUvw();
    for (size_t i = 0; i < uu.shape(0); ++i)
      u.push_back({Rnd(uu(i, 0), kData), Rnd(uu(i, 1), kData), Rnd(uu(i, 2), kData)});
    o["w"] = w;
    o["f"] = f;
    o["uvw"] = u;
    if (b->GetRowNumbers().size() > 0) {
      json rn = json::array();
      for (const auto x : b->GetRowNumbers()) rn.push_back(x);
      o["rownrs"] = rn;
    }
    out.push_back(o);
    return true;
  }
  bool process(std::unique_ptr<BdaBuffer> b) override {
    json o;
    o["k"] = "bda";
    o["n"] = b->GetNumberOfElements();
    o["cap"] = b->GetNumberOfElements() + b->GetRemainingCapacity();
    json rows = json::array(), names = json::array();
    for (const std::string& name : b->GetDataNames()) names.push_back(name);
    size_t r = 0;
    for (const auto& row : b->GetRows()) {
      json q;
      q["t"] = Rnd(row.time - epoch, 1000);
      q["int"] = Rnd(row.interval, 1000);
      q["exp"] = Rnd(row.exposure, 1000);
      q["bl"] = row.baseline_nr + 1;
      q["nr"] = row.row_nr;
      q["nch"] = row.n_channels;
      q["nc"] = row.n_correlations;
      q["uvw"] = {Rnd(row.uvw[0], kData), Rnd(row.uvw[1], kData), Rnd(row.uvw[2], kData)};
      json ds = json::array();
      for (const std::string& name : b->GetDataNames()) {
        json d = json::array();
        const std::complex<float>* p = b->GetData(r, name);
        for (size_t c = 0; c < row.n_channels; ++c) {
          json e = json::array();
          for (size_t k = 0; k < row.n_correlations; ++k, ++p)
            e.push_back({Rnd(p->real(), kData), Rnd(p->imag(), kData)});
          d.push_back(e);
        }
        ds.push_back(d);
      }
      q["d"] = ds;
      json w = json::array(), f = json::array();
      const float* wp = b->GetWeights(r);
      const bool* fp = b->GetFlags(r);
      for (size_t c = 0; c < row.n_channels; ++c) {
        json e = json::array(), g = json::array();
        for (size_t k = 0; k < row.n_correlations; ++k) {
          if (wp) e.push_back(Rnd(*wp++, kData));
          if (fp) g.push_back(*fp++ ? 1 : 0);
        }
        w.push_back(e);
        f.push_back(g);
      }
      q["w"] = w;
      q["f"] = f;
      rows.push_back(q);
      ++r;
    }
    o["rows"] = rows;
    o["names"] = names;
    out.push_back(o);
    return true;
  }
  void finish() override { ++finished; }
  void Update(const std::string& ms) { addToMS(ms); }
  json out = json::array();
  int finished = 0;
};

std::unique_ptr<DPInfo> MakeInfo(const json& j) {
  auto info = std::make_unique<DPInfo>(j["ncorr"].get<unsigned>(), j["freqs"].size(), j.value("antset", std::string()));
  const double step = j["interval"].get<double>() / 1000;
  const double t0 = epoch + j["t0"].get<double>() / 1000;
  info->setTimes(t0, t0 + (j["ntime"].get<int>() - 1) * step, step);
  std::vector<std::string> names;
  std::vector<double> diam;
  std::vector<casacore::MPosition> pos;
  for (size_t a = 0; a < j["pos"].size(); ++a) {
    names.push_back(j.contains("names") ? j["names"][a].get<std::string>() : "CS" + std::to_string(a));
    diam.push_back(10 + a);
    pos.emplace_back(casacore::MVPosition(j["pos"][a][0].get<double>(), j["pos"][a][1].get<double>(),
                                          j["pos"][a][2].get<double>()),
                     casacore::MPosition::ITRF);
  }
  info->setAntennas(names, diam, pos, j["ant1"].get<std::vector<int>>(), j["ant2"].get<std::vector<int>>());
  std::vector<double> f, w, r, e;
  for (const auto& x : j["freqs"]) f.push_back(freq0 + x.get<double>() * freq_unit);
  for (const auto& x : j["widths"]) w.push_back(x.get<double>() * freq_unit);
  if (j.contains("res")) for (const auto& x : j["res"]) r.push_back(x.get<double>() * freq_unit);
  if (j.contains("ebw")) for (const auto& x : j["ebw"]) e.push_back(x.get<double>() * freq_unit);
  info->setChannels(std::move(f), std::move(w), std::move(r), std::move(e));
  info->setArrayInformation(casacore::MPosition(casacore::MVPosition(3826000, 460000, 5064000),
                                                casacore::MPosition::ITRF),
                            casacore::MDirection(casacore::Quantity(j.contains("ra0") ? 0.0 : 0.5, "rad"),
                                                 casacore::Quantity(j.contains("ra0") ? 0.0 : 0.9, "rad"),
                                                 casacore::MDirection::J2000),
                            casacore::MDirection(), casacore::MDirection());
  if (j.contains("ms")) info->setMsName(j["ms"].get<std::string>());
  return info;
}

// A description with its own channels and time factor for each baseline:
// channel c of m stands for base channels floor((c-1)n/m)+1 .. floor(cn/m).
void MakeBda(DPInfo& info, const json& j) {
  std::vector<std::vector<double>> f, w;
  const size_t n = j["freqs"].size();
  for (const auto& mm : j["bda"]["m"]) {
    const size_t m = mm.get<size_t>();
    std::vector<double> ff, ww;
    for (size_t c = 0; c < m; ++c) {
      const size_t lo = c * n / m, hi = (c + 1) * n / m - 1;
      ff.push_back(freq0 + 0.5 * (j["freqs"][lo].get<double>() + j["freqs"][hi].get<double>()) * freq_unit);
      double sum = 0;
      for (size_t k = lo; k <= hi; ++k) sum += j["widths"][k].get<double>() * freq_unit;
      ww.push_back(sum);
    }
    f.push_back(ff);
    w.push_back(ww);
  }
  info.update(j["bda"]["fac"].get<std::vector<unsigned>>());
  info.setChannels(std::move(f), std::move(w));
  info.setIsBDAIntervalFactorInteger(j["bda"].value("integer", true));
}

json current_info;
std::unique_ptr<DPInfo> keep_info;
std::vector<std::shared_ptr<Step>> steps;
std::shared_ptr<Sink> sink;

std::shared_ptr<Step> MakeStep(const json& s) {
  const std::string type = s["type"].get<std::string>();
  ParameterSet parset;
  const std::string prefix = s.value("prefix", "p.");
  if (s.contains("par"))
    for (const auto& kv : s["par"]) parset.add(prefix + kv[0].get<std::string>(), kv[1].get<std::string>());
#ifdef WITH_AVERAGER
  if (type == "averager") {
    if (s.contains("ctor")) {
      const json& c = s["ctor"];
      return std::make_shared<dp3::steps::Averager>("avg", c[0].get<unsigned>(), c[1].get<unsigned>());
    }
    if (s.contains("rctor")) {
      const json& c = s["rctor"];
      return std::make_shared<dp3::steps::Averager>("avg", c[0].get<double>() * freq_unit, c[1].get<double>() / 1000);
    }
    return std::make_shared<dp3::steps::Averager>(parset, prefix);
  }
#endif
#ifdef WITH_BDA
  if (type == "bdaaverager") {
    auto st = std::make_shared<dp3::steps::BdaAverager>(parset, prefix, s.value("useweights", true));
    if (s.contains("requests"))
      for (const auto& r : s["requests"]) st->PushBufferSizeRequest(r.get<size_t>());
    if (s.contains("like")) {
      // take over the scheme of an averager with these settings
      ParameterSet other;
      for (const auto& kv : s["like"]) other.add("q." + kv[0].get<std::string>(), kv[1].get<std::string>());
      dp3::steps::BdaAverager probe(other, "q.", true);
      probe.updateInfo(*MakeInfo(current_info));
      st->SetAveragingParameters(probe.getInfoOut());
    }
    return st;
  }
  if (type == "bdaexpander") return std::make_shared<dp3::steps::BdaExpander>(prefix);
#endif
#ifdef WITH_UPSAMPLE
  if (type == "upsample") {
    if (s.contains("ctor"))
      return std::make_shared<dp3::steps::Upsample>("up", s["ctor"][0].get<unsigned>(), s["ctor"][1].get<bool>());
    return std::make_shared<dp3::steps::Upsample>(parset, prefix);
  }
#endif
#ifdef WITH_NULLSTOKES
  if (type == "nullstokes") return std::make_shared<dp3::steps::NullStokes>(parset, prefix);
#endif
#ifdef WITH_COUNTER
  if (type == "counter") return std::make_shared<dp3::steps::Counter>(parset, prefix);
#endif
#ifdef WITH_INTERPOLATE
  if (type == "interpolate") return std::make_shared<dp3::steps::Interpolate>(parset, prefix);
#endif
#ifdef WITH_ANTENNAFLAGGER
  if (type == "antennaflagger") return std::make_shared<dp3::steps::AntennaFlagger>(parset, prefix);
#endif
#ifdef WITH_SCALEDATA
  if (type == "scaledata")
    return std::make_shared<dp3::steps::ScaleData>(parset, prefix, s.value("bda", false) ? Step::MsType::kBda
                                                                                         : Step::MsType::kRegular);
#endif
#ifdef WITH_COMBINE
  if (type == "combine")
    return std::make_shared<dp3::steps::Combine>(parset, prefix, s.value("bda", false) ? Step::MsType::kBda
                                                                                       : Step::MsType::kRegular);
#endif
#ifdef WITH_STATIONADDER
  if (type == "stationadder") return std::make_shared<dp3::steps::StationAdder>(parset, prefix);
#endif
#ifdef WITH_MADFLAGGER
  if (type == "madflagger") return std::make_shared<dp3::steps::MadFlagger>(parset, prefix);
#endif
#ifdef WITH_FILTER
  if (type == "filter") return std::make_shared<dp3::steps::Filter>(parset, prefix);
#endif
#ifdef WITH_UVWFLAGGER
  if (type == "uvwflagger")
    return std::make_shared<dp3::steps::UVWFlagger>(parset, prefix, s.value("bda", false) ? Step::MsType::kBda
                                                                                          : Step::MsType::kRegular);
#endif
#ifdef WITH_PREFLAGGER
  if (type == "preflagger") return std::make_shared<dp3::steps::PreFlagger>(parset, prefix);
#endif
  throw json::type_error::create(302, "unknown step " + type, nullptr);
}

float Value(const json& j) {
  const float x = j.get<float>();
  if (x == 7777) return std::numeric_limits<float>::quiet_NaN();
  if (x == 7778) return std::numeric_limits<float>::infinity();
  return x;
}

std::unique_ptr<DPBuffer> MakeBuffer(const json& ev) {
  auto b = std::make_unique<DPBuffer>();
  b->SetTime(epoch + ev["t"].get<double>() / 1000);
  b->SetExposure(ev["exp"].get<double>() / 1000);
  const json& w = ev["w"];
  const std::array<std::size_t, 3> shape{w.size(), w[0].size(), w[0][0].size()};
  size_t nr = 0;
  for (const auto& name : ev["names"]) {
    const std::string n = name.get<std::string>();
    if (n.empty()) {
      b->GetData().resize(shape);
    }
    if (nr == 0) {
    } else b->AddData(n);
    auto& data = b->GetData(n);
    const json& d = ev["d"][nr];
    for (size_t i = 0; i < shape[0]; ++i)
      for (size_t c = 0; c < shape[1]; ++c)
        for (size_t p = 0; p < shape[2]; ++p)
          data(i, c, p) = std::complex<float>(Value(d[i][c][p][0]), Value(d[i][c][p][1]));
    ++nr;
  }
  b->GetWeights().resize(shape);
  b->GetFlags().resize(shape);
  b->GetUvw().resize({shape[0], std::size_t{3}});
  if (ev.contains("rownrs")) {
    casacore::Vector<dp3::common::rownr_t> rn(ev["rownrs"].size());
    for (size_t i = 0; i < rn.size(); ++i) rn[i] = ev["rownrs"][i].get<size_t>();
    b->SetRowNumbers(rn);
  }
  const double ws = ev.value("wscale", 1.0);
  for (size_t i = 0; i < shape[0]; ++i) {
    for (size_t c = 0; c < shape[1]; ++c)
      for (size_t p = 0; p < shape[2]; ++p) {
        b->GetWeights()(i, c, p) = w[i][c][p].get<float>() / ws;
        b->GetFlags()(i, c, p) = ev["f"][i][c][p].get<int>() != 0;
      }
    for (size_t k = 0; k < 3; ++k) b->GetUvw()(i, k) = ev["uvw"][i][k].get<double>();
  }
  return b;
}

// What a step tells about its flags, taken from the text of the report.
void ParseReport(const std::string& text, json& o) {
  std::istringstream is(text);
  std::string line;
  json cells = json::array(), totals = json::array(), chans = json::array(), nst = json::array(), nch = json::array(),
       full = json::array();
  std::vector<int> header;
  bool in_chan = false;
  while (std::getline(is, line)) {
    if (line.rfind(" ant", 0) == 0) {
      header.clear();
      for (size_t k = 4; k + 5 <= line.size(); k += 5) header.push_back(std::stoi(line.substr(k, 5)));
    } else if (line.rfind("TOTAL", 0) == 0) {
      for (size_t k = 0; k < header.size(); ++k) totals.push_back({header[k], std::stoi(line.substr(5 + 5 * k, 4))});
      header.clear();
    } else if (!header.empty()) {
      const int row = std::stoi(line.substr(0, 4));
      for (size_t k = 0; k < header.size(); ++k) {
        const std::string cell = line.substr(5 + 5 * k, 5);
        if (cell.find('%') != std::string::npos) cells.push_back({row, header[k], std::stoi(cell)});
      }
    } else if (line.rfind(" channels", 0) == 0) {
      in_chan = true;
    } else if (line.rfind("Total flagged:", 0) == 0) {
      in_chan = false;
      double perc;
      long long n, m;
      if (std::sscanf(line.c_str(), "Total flagged: %lf%% (%lld out of %lld", &perc, &n, &m) == 3)
        o["total"] = {std::llround(perc * 1000), n, m};
    } else if (in_chan) {
      for (size_t k = 14; k + 5 <= line.size(); k += 5) chans.push_back(std::stoi(line.substr(k, 4)));
    } else if (line.rfind("** NOTE:", 0) == 0) {
      size_t p = line.find("for station ");
      const size_t dot = line.find('.', 8);
      const long mille = std::stol(line.substr(8, dot - 8)) * 10 + std::stol(line.substr(dot + 1, line.find('%') - dot - 1));
      if (p != std::string::npos) nst.push_back({std::stol(line.substr(p + 12)), mille});
      p = line.find("for channel ");
      if (p != std::string::npos) nch.push_back({std::stol(line.substr(p + 12)), mille});
    } else if (line.rfind("Fully flagged baselines: ", 0) == 0) {
      std::istringstream ls(line.substr(25));
      std::string item;
      while (std::getline(ls, item, ';')) {
        int a, b;
        if (std::sscanf(item.c_str(), "%d&%d", &a, &b) == 2) full.push_back({a, b});
      }
    }
  }
  o["cells"] = cells;
  o["totals"] = totals;
  o["chans"] = chans;
  o["nst"] = nst;
  o["nch"] = nch;
  o["full"] = full;
}

json SavedTables() {
  json r = json::array();
  for (const auto& [name, t] : casacore::MemoryTables::All()) {
    json o;
    o["name"] = name;
    o["rows"] = t->rows;
    json perc = json::array(), st = json::array(), nm = json::array(), fr = json::array();
    for (double x : t->num["Percentage"]) perc.push_back(Rnd(x, 1000));
    for (double x : t->num["Station"]) st.push_back(static_cast<int>(x));
    for (double x : t->num["Frequency"]) fr.push_back(Rnd((x - freq0) / freq_unit, 1));
    for (const auto& x : t->str["Name"]) nm.push_back(x);
    o["perc"] = perc;
    o["st"] = st;
    o["nm"] = nm;
    o["fr"] = fr;
    r.push_back(o);
  }
  return r;
}

void Counts(const Step& step, json& ev) {
  casacore::MemoryTables::All().clear();
  std::ostringstream os;
  step.showCounts(os);
  json o;
  ParseReport(os.str(), o);
  o["tables"] = SavedTables();
  if (ev.contains("json")) {
    std::ifstream f(ev["json"].get<std::string>());
    std::string text((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    json st = json::array();
    size_t p = text.find("{'");
    while (p != std::string::npos) {
      const size_t a = text.find('\'', p), b = text.find('\'', a + 1);
      if (a == std::string::npos || b == std::string::npos) break;
      st.push_back({text.substr(a + 1, b - a - 1), Rnd(std::atof(text.c_str() + b + 2), 100000)});
      p = text.find(", '", b);
    }
    o["st"] = st;
    std::remove(ev["json"].get<std::string>().c_str());
  }
  ev["rep"] = o;
  ev["res"] = "ok";
}

void Handle(json& ev) {
  const std::string op = ev["op"].get<std::string>();
  if (op == "new") {
    steps.clear();
    sink.reset();
    epoch = ev.value("epoch", 0.0);
    freq0 = ev.value("f0", 0.0) * 1.0e6;
    freq_unit = ev.value("fu", 1.0);
    return;
  }
  if (op == "make") {
    steps.clear();
    sink = std::make_shared<Sink>();
    try {
      keep_info = MakeInfo(ev["info"]);
      DPInfo* info = keep_info.get();
      casacore::MSSelectionRows::ant1 = info->getAnt1();
      casacore::MSSelectionRows::ant2 = info->getAnt2();
      if (ev["info"].contains("bda")) MakeBda(*info, ev["info"]);
      if (ev.contains("fields")) {  // elements in use per antenna field
        auto& all = casacore::MemoryTables::All();
        all.clear();
        all["m"] = std::make_shared<casacore::MemoryTables::T>();
        auto a = std::make_shared<casacore::MemoryTables::T>();
        a->rows = ev["nant"].get<size_t>();
        all["m/ANTENNA"] = a;
        auto t = std::make_shared<casacore::MemoryTables::T>();
        for (const auto& x : ev["fields"]) {
          t->num["ANTENNA_ID"].push_back(x[0].get<double>());
          std::vector<bool> fl;
          for (const auto& y : x[1]) fl.push_back(y.get<int>() != 0);
          t->flags["ELEMENT_FLAG"].push_back(fl);
          ++t->rows;
        }
        all["m/LOFAR_ANTENNA_FIELD"] = t;
        info->setMsName("m");
      }
      current_info = ev["info"];
      for (const auto& s : ev["steps"]) steps.push_back(MakeStep(s));
      for (size_t k = 0; k < steps.size(); ++k)
        steps[k]->setNextStep(k + 1 < steps.size() ? steps[k + 1] : std::static_pointer_cast<Step>(sink));
      steps.front()->setInfo(*info);
      ev["res"] = "ok";
      ev["out"] = InfoOut(sink->getInfoIn());
      json ch = json::array();
      for (auto& s : steps) {
        std::ostringstream os;
        s->show(os);
        s->showCounts(os);
        ch.push_back(s->getProvidedFields().Data());
      }
    } catch (const json::exception&) {
      throw;
    } catch (const std::exception& e) {
      ev["res"] = "err";
      ev["what"] = std::string(e.what());
      steps.clear();
    }
    return;
  }
#ifdef WITH_ANTENNAFLAGGER
  if (op == "afnew") {
    flagger = std::make_unique<dp3::antennaflagger::Flagger>(ev["nst"].get<size_t>(), ev["nap"].get<size_t>(),
                                                             ev["nc"].get<size_t>(), ev["ncorr"].get<size_t>());
    return;
  }
  if (op == "af") {
    const json& d = ev["d"];
    DPBuffer::DataType data({d.size(), d[0].size(), d[0][0].size()});
    for (size_t i = 0; i < d.size(); ++i)
      for (size_t c = 0; c < d[0].size(); ++c)
        for (size_t p = 0; p < d[0][0].size(); ++p)
          data(i, c, p) = std::complex<float>(Value(d[i][c][p][0]), Value(d[i][c][p][1]));
    flagger->ComputeStats(data, ev["order"] == "col" ? dp3::common::BaselineOrder::kColumnMajor
                                                     : dp3::common::BaselineOrder::kRowMajor);
    json a = json::array(), s = json::array();
    const auto fa = flagger->FindBadAntennas(ev["as"].get<float>() / 10, ev["ai"].get<int>());
    const auto fs = flagger->FindBadStations(ev["ss"].get<float>() / 10, ev["si"].get<int>());
    for (int x : fa) a.push_back(x != 0 ? 1 : 0);
    for (int x : fs) s.push_back(x != 0 ? 1 : 0);
    ev["a"] = a;
    ev["s"] = s;
    return;
  }
#endif
#ifdef WITH_COUNTER
  if (op == "fc") {
    keep_info = MakeInfo(ev["info"]);
    ParameterSet parset;
    dp3::base::FlagCounter a(parset, "c."), b(parset, "c.");
    a.init(*keep_info);
    b.init(*keep_info);
    for (const auto& x : ev["inc"]) {
      dp3::base::FlagCounter& f = x[3].get<int>() ? b : a;
      const std::string k = x[0].get<std::string>();
      const unsigned at = x[1].get<unsigned>() - 1;
      for (int n = 0; n < x[2].get<int>(); ++n) {
        if (k == "b") f.incrBaseline(at);
        else if (k == "c") f.incrChannel(at);
        else f.incrCorrelation(at);
      }
    }
    a.add(b);
    std::ostringstream os, oc;
    a.showBaseline(os, ev["nt"].get<int64_t>());
    a.showChannel(os, ev["nt"].get<int64_t>());
    a.showCorrelation(oc, ev["nt"].get<int64_t>());
    json o, c;
    ParseReport(os.str(), o);
    ev["rep"] = o;
    const std::string t = oc.str();
    auto list = [](const std::string& u) {
      json l = json::array();
      std::istringstream is(u);
      std::string item;
      while (std::getline(is, item, ',')) l.push_back(std::stoll(item));
      return l;
    };
    const size_t p = t.find('['), q = t.find(']', p), u = t.find("out of ", q), v = t.find('[', u), w = t.find(']', v);
    c["n"] = list(t.substr(p + 1, q - p - 1));
    c["d"] = std::stoll(t.substr(u + 7));
    c["perc"] = list(t.substr(v + 1, w - v - 1));
    ev["corr"] = c;
    return;
  }
#endif
  if (op == "ms") {  // tables of a data set are brought up to date
    auto& all = casacore::MemoryTables::All();
    all.clear();
    all["m"] = std::make_shared<casacore::MemoryTables::T>();
    for (const auto& [name, cols] : ev["tables"].items()) {
      auto t = std::make_shared<casacore::MemoryTables::T>();
      for (const auto& [c, v] : cols.items()) {
        t->rows = v.size();
        for (const auto& x : v)
          if (x.is_array()) t->arr[c].push_back(x.get<std::vector<double>>());
          else if (x.is_string()) t->str[c].push_back(x.get<std::string>());
          else t->num[c].push_back(x.get<double>());
      }
      all["m/" + name] = t;
    }
    ev["res"] = "ok";
    try {
      sink->Update("m");
    } catch (const std::exception& e) {
      ev["res"] = "err";
    }
    json o = json::object();
    for (const auto& [name, cols] : ev["tables"].items()) {
      const auto& t = *all["m/" + name];
      json q = json::object();
      for (const auto& [c, v] : cols.items()) q[c] = json::array();
      for (const auto& c : t.str) q[c.first] = c.second;
      for (const auto& c : t.arr) {
        q[c.first] = json::array();
        for (const auto& v : c.second) {
          json one = json::array();
          for (double x : v) one.push_back(Rnd(x, 1));
          q[c.first].push_back(one);
        }
      }
      for (const auto& c : t.num) {
        q[c.first] = json::array();
        for (double x : c.second) q[c.first].push_back(Rnd(x, 1));
      }
      o[name] = q;
    }
    ev["after"] = o;
    return;
  }
  if (steps.empty()) {  // nothing was made
    ev["res"] = "none";
    ev["out"] = json::array();
    ev["fin"] = 0;
    return;
  }
  if (op == "counts") {
    Counts(*steps.at(ev["step"].get<size_t>()), ev);
    return;
  }
  sink->out = json::array();
  sink->finished = 0;
  ev["res"] = "ok";
  try {
    if (op == "buf") {
      steps.front()->process(MakeBuffer(ev));
    } else if (op == "bda") {
      size_t n = 0;
      for (const auto& r : ev["rows"]) n += r["w"].size() * r["w"][0].size();
      auto b = std::make_unique<BdaBuffer>(n + ev.value("spare", 0), Step::kDataField | Step::kFlagsField | Step::kWeightsField);
      for (const auto& r : ev["rows"]) {
        const size_t nch = r["w"].size(), nc = r["w"][0].size();
        std::vector<std::complex<float>> d;
        std::vector<float> w;
        std::unique_ptr<bool[]> f(new bool[nch * nc]);
        for (size_t c = 0; c < nch; ++c)
          for (size_t k = 0; k < nc; ++k) {
            f[d.size()] = r["f"][c][k].get<int>() != 0;
            d.emplace_back(r["d"][c][k][0].get<float>(), r["d"][c][k][1].get<float>());
            w.push_back(r["w"][c][k].get<float>());
          }
        const double uvw[3] = {r["uvw"][0].get<double>(), r["uvw"][1].get<double>(), r["uvw"][2].get<double>()};
        b->AddRow(epoch + r["t"].get<double>() / 1000, r["int"].get<double>() / 1000, r["exp"].get<double>() / 1000,
                  r["bl"].get<size_t>() - 1, nch, nc, r.value("nr", 0), d.data(), f.get(), w.data(), uvw);
      }
      if (ev.contains("extra")) {
        const std::string n = ev["extra"].get<std::string>();
        b->AddData(n);
        size_t k = 0;
        for (const auto& r : ev["rows"]) {
          std::complex<float>* to = b->GetData(k++, n);
          for (const auto& c : r["x"])
            for (const auto& v : c) *to++ = std::complex<float>(v[0].get<float>(), v[1].get<float>());
        }
      }
      steps.front()->process(std::move(b));
    } else if (op == "finish") {
      steps.front()->finish();
    } else {
      throw json::type_error::create(302, "unknown op " + op, nullptr);
    }
  } catch (const json::exception&) {
    throw;
  } catch (const std::exception& e) {
    ev["res"] = "err";
    ev["what"] = std::string(e.what());
  }
  ev["out"] = sink->out;
  ev["fin"] = sink->finished;
}

}  // namespace

int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
