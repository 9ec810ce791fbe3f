// Histories of changes to the description of a data set.
#include "common.h"
#include "info_json.h"
#include <memory>

using dp3::base::DPInfo;
namespace {
std::unique_ptr<DPInfo> info;
std::vector<double> F(const json& j, bool pos) {
  std::vector<double> v;
  for (const auto& x : j) v.push_back((pos ? freq0 : 0) + x.get<double>() * freq_unit);
  return v;
}
std::vector<std::vector<double>> FF(const json& j, bool pos) {
  std::vector<std::vector<double>> v;
  for (const auto& x : j) v.push_back(F(x, pos));
  return v;
}
casacore::MDirection Dir(const json& j) {
  return casacore::MDirection(casacore::Quantity(j[0].get<double>() / 100, "rad"),
                              casacore::Quantity(j[1].get<double>() / 100, "rad"), casacore::MDirection::J2000);
}
void Do(json& ev, const std::string& op) {
  if (op == "make") {
    info = std::make_unique<DPInfo>(ev["ncorr"].get<unsigned>(), ev["n"].get<unsigned>(), ev["set"].get<std::string>());
  } else if (op == "copy") {
    info = std::make_unique<DPInfo>(*info);
  } else if (op == "times") {
    info->setTimes(epoch + ev["first"].get<double>() / 1000, epoch + ev["last"].get<double>() / 1000,
                   ev["int"].get<double>() / 1000);
  } else if (op == "chan") {
    info->setChannels(F(ev["f"], true), F(ev["w"], false), F(ev["r"], false), F(ev["e"], false),
                      ev["ref"].get<int>() == 0 ? 0.0 : freq0 + ev["ref"].get<double>() * freq_unit);
  } else if (op == "bdachan") {
    info->setChannels(FF(ev["f"], true), FF(ev["w"], false), FF(ev["r"], false), FF(ev["e"], false),
                      ev["ref"].get<int>() == 0 ? 0.0 : freq0 + ev["ref"].get<double>() * freq_unit);
  } else if (op == "ant") {
    std::vector<std::string> names;
    std::vector<double> diam;
    std::vector<casacore::MPosition> pos;
    for (const auto& x : ev["names"]) names.push_back(x.get<std::string>());
    for (const auto& x : ev["diam"]) diam.push_back(x.get<double>());
    for (const auto& p : ev["pos"])
      pos.emplace_back(casacore::MVPosition(p[0].get<double>(), p[1].get<double>(), p[2].get<double>()),
                       casacore::MPosition::ITRF);
    info->setAntennas(names, diam, pos, ev["a1"].get<std::vector<int>>(), ev["a2"].get<std::vector<int>>());
  } else if (op == "selch") {
    info->SelectChannels(ev["start"].get<unsigned>(), ev["n"].get<unsigned>());
  } else if (op == "selbl") {
    info->SelectBaselines(ev["b"].get<std::vector<unsigned>>());
  } else if (op == "update") {
    ev["got"] = info->update(ev["ca"].get<unsigned>(), ev["ta"].get<unsigned>());
  } else if (op == "bdaupdate") {
    info->update(ev["ta"].get<std::vector<unsigned>>());
  } else if (op == "unused") {
    info->RemoveUnusedAntennas();
  } else if (op == "clearmeta") {
    info->clearMetaChanged();
  } else if (op == "setmeta") {
    info->setMetaChanged();
  } else if (op == "array") {
    info->setArrayInformation(casacore::MPosition(casacore::MVPosition(1, 2, 3), casacore::MPosition::ITRF), Dir(ev["phase"]),
                              Dir(ev["delay"]), Dir(ev["tile"]));
  } else if (op == "phase") {
    info->setPhaseCenter(Dir(ev["phase"]));
  } else if (op == "lengths") {
    json l = json::array();
    for (double d : info->getBaselineLengths()) l.push_back(Rnd(d, 16));
    ev["len"] = l;
  } else if (op == "auto") {
    ev["auto"] = info->getAutoCorrIndex();
  } else if (op == "dirs") {
    const auto p = info->phaseCenterDirection();
    const auto o = info->originalPhaseCenter().getAngle().getBaseValue();
    const auto d = info->delayCenter().getAngle().getBaseValue();
    const auto t = info->tileBeamDir().getAngle().getBaseValue();
    ev["pc"] = {Rnd(p.ra, 100), Rnd(p.dec, 100)};
    ev["opc"] = {Rnd(o[0], 100), Rnd(o[1], 100)};
    ev["dc"] = {Rnd(d[0], 100), Rnd(d[1], 100)};
    ev["tc"] = {Rnd(t[0], 100), Rnd(t[1], 100)};
  } else {
    throw json::type_error::create(302, "unknown op " + op, nullptr);
  }
}
void Handle(json& ev) {
  const std::string op = ev["op"].get<std::string>();
  if (op == "new") {
    info.reset();
    epoch = ev.value("epoch", 0.0);
    freq0 = ev.value("f0", 0.0) * 1.0e6;
    freq_unit = ev.value("fu", 1.0);
    return;
  }
  try {
    Do(ev, op);
    ev["res"] = "ok";
  } catch (const json::exception&) {
    throw;
  } catch (const std::exception& e) {
    ev["res"] = "err";
  }
  ev["out"] = InfoOut(*info);
  ev["out"]["usednames"] = info->GetUsedAntennaNames();
  ev["out"]["set"] = info->antennaSet();
  ev["out"]["nbl"] = info->nbaselines();
  ev["out"]["nant"] = info->nantenna();
}
}  // namespace
int main(int argc, char** argv) { return RunScript(argc, argv, Handle); }
