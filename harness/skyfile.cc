// Sky model text files: reading, choosing patches, making components, writing.
#include "common.h"
#include <cmath>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <sstream>
#include "base/GaussianSource.h"
#include "base/PointSource.h"
#include "sky_model/ReadSkyModel.h"
#include "sky_model/SkyModel.h"
#include "sky_model/SkyModelFunctions.h"
#include "sky_model/SkyModelSelection.h"
#include "sky_model/Patch.h"

using namespace dp3;
using sky_model::SkyModel;

namespace {
std::string dir;
SkyModel model;
std::vector<std::shared_ptr<sky_model::Patch>> patches;

int Round(double v) { return std::isfinite(v) && std::abs(v) < 2e9 ? int(std::lround(v)) : 2000000000; }
int Arc(double rad) { return Round(rad * 180 / M_PI * 36000); }
int Milli(double v) { return Round(v * 1000); }
json UnitVector(double ra, double dec) {
  if (!std::isfinite(ra) || !std::isfinite(dec)) return {99999, 99999, 99999};
  return {Round(1e4 * std::cos(ra) * std::cos(dec)), Round(1e4 * std::sin(ra) * std::cos(dec)), Round(1e4 * std::sin(dec))};
}

void Dump(const SkyModel& m, json& ev) {
  ev["srcs"] = json::array();
  for (const sky_model::Source& s : m.GetSources()) {
    const sky_model::SourceInfo& i = s.getInfo();
    int type = 0;
    switch (i.getType()) {
      case sky_model::SourceInfo::POINT: type = 1; break;
      case sky_model::SourceInfo::GAUSSIAN: type = 2; break;
      case sky_model::SourceInfo::DISK: type = 3; break;
      case sky_model::SourceInfo::SHAPELET: type = 4; break;
      default: break;
    }
    json terms = json::array();
    for (double t : s.getSpectralTerms()) terms.push_back(Milli(t));
    ev["srcs"].push_back({{"name", Codes(i.getName())}, {"type", type}, {"ref", Codes(i.getRefType())},
                          {"patch", Codes(s.getPatchName())}, {"ra", Arc(s.getRa())}, {"dec", Arc(s.getDec())},
                          {"I", Milli(s.getI())}, {"Q", Milli(s.getQ())}, {"U", Milli(s.getU())}, {"V", Milli(s.getV())},
                          {"maj", Milli(s.getMajorAxis())}, {"min", Milli(s.getMinorAxis())}, {"ori", Milli(s.getOrientation())},
                          {"abs", i.getPositionAngleIsAbsolute()}, {"frac", Round(s.getPolarizedFraction() * 1e6)},
                          {"ang", Round(s.getPolarizationAngle() * 1e6)}, {"rm", Milli(s.getRotationMeasure())},
                          {"terms", terms}, {"log", i.getHasLogarithmicSI()},
                          {"freq", Round(i.getSpectralTermsRefFreq() / 1000)}, {"useRM", i.getUseRotationMeasure()}});
  }
  ev["pats"] = json::array();
  for (const sky_model::PatchInfo& p : m.GetPatches())
    ev["pats"].push_back({{"name", Codes(p.getName())}, {"cat", p.getCategory()}, {"flux", Milli(p.apparentBrightness())},
                          {"ra", Arc(p.getRa())}, {"dec", Arc(p.getDec())}, {"u", UnitVector(p.getRa(), p.getDec())}});
  ev["names"] = Codes(m.GetPatchNames());
}

SkyModel ReadText(const std::string& text, const json* format, const std::string& extension) {
  const std::string file = dir + "/model" + extension;
  {
    std::ofstream out(file, std::ios::binary);
    out << text;
  }
  return format ? sky_model::ReadSkyModel(file, Text(*format)) : sky_model::ReadSkyModel(file);
}

void Make(json& ev) {
  patches.clear();
  ev["err"] = false;
  ev["out"] = ev["pairs"] = ev["each"] = json::array();
  ev["polarized"] = ev["absolute"] = false;
  sky_model::SkyModelSelection selection(model);
  std::vector<std::string> names;
  for (const json& n : ev["names"]) names.push_back(Text(n));
  ev["chosen"] = ev["names"];
  try {
    if (ev["how"] == "all") {
      selection.SelectAllPatches();
      ev["chosen"] = Codes(model.GetPatchNames());
    } else if (ev["how"] == "list") {
      selection.SelectPatchList(names);
    } else {
      selection.SelectMatchingPatches(names);
      ev["chosen"] = Codes(sky_model::MakePatchList(model, names));
    }
    ev["polarized"] = selection.CheckPolarized();
    ev["absolute"] = selection.CheckAnyOrientationIsAbsolute();
    patches = selection.MakePatchList();
  } catch (const std::exception&) {
    ev["err"] = true;
    return;
  }
  sky_model::SetPatchIndices(patches);
  for (const auto& p : patches) {
    json comps = json::array();
    for (std::size_t k = 0; k != p->NComponents(); ++k) {
      const auto point = std::dynamic_pointer_cast<base::PointSource>(p->component(k));
      const auto gauss = std::dynamic_pointer_cast<base::GaussianSource>(p->component(k));
      json c{{"ra", Arc(point->direction().ra)}, {"dec", Arc(point->direction().dec)}, {"gauss", bool(gauss)},
             {"I", Milli(point->stokes().I)}};
      if (gauss) {
        const double second = M_PI / 180 / 3600;
        c["maj"] = Milli(gauss->getMajorAxis() / second);
        c["min"] = Milli(gauss->getMinorAxis() / second);
        c["ori"] = Milli(gauss->getPositionAngle() / M_PI * 180);
        c["abs"] = gauss->getPositionAngleIsAbsolute();
      }
      comps.push_back(c);
    }
    ev["out"].push_back({{"name", Codes(p->Name())}, {"ra", Arc(p->Direction().ra)}, {"dec", Arc(p->Direction().dec)},
                         {"flux", Milli(p->Brightness())}, {"index", p->Index()}, {"comps", comps}});
  }
  const auto where = [&](const base::ModelComponent* c) {
    for (std::size_t i = 0; i != patches.size(); ++i)
      for (std::size_t k = 0; k != patches[i]->NComponents(); ++k)
        if (patches[i]->component(k).get() == c) return json{i, k};
    return json{-1, -1};
  };
  for (const auto& [component, patch] : sky_model::makeSourceList(patches)) {
    json w = where(component.get());
    if (w[0] != -1 && patches[w[0]] != patch) w = {-2, -2};
    ev["pairs"].push_back(w);
  }
  for (const auto& p : sky_model::makeOnePatchPerComponent(patches)) {
    json w = p->NComponents() == 1 ? where(p->component(0).get()) : json{-3, -3};
    ev["each"].push_back({{"name", Codes(p->Name())}, {"pair", w}, {"ra", Arc(p->Direction().ra)}, {"dec", Arc(p->Direction().dec)}});
  }
}

void Cluster(json& ev) {
  ev["comps"] = ev["groups"] = json::array();
  std::vector<const base::ModelComponent*> all;
  for (const auto& p : patches)
    for (std::size_t k = 0; k != p->NComponents(); ++k) {
      ev["comps"].push_back({Codes(p->Name()), Arc(p->component(k)->direction().ra), Arc(p->component(k)->direction().dec)});
      all.push_back(p->component(k).get());
    }
  for (const auto& p : sky_model::clusterProximateSources(patches, ev["limit"].get<double>() * M_PI / 180)) {
    json members = json::array();
    for (std::size_t k = 0; k != p->NComponents(); ++k)
      members.push_back(std::find(all.begin(), all.end(), p->component(k).get()) - all.begin());
    ev["groups"].push_back({{"name", Codes(p->Name())}, {"members", members}, {"u", UnitVector(p->Direction().ra, p->Direction().dec)}});
  }
}

void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") {
    model = SkyModel();
    patches.clear();
  } else if (op == "read") {
    ev["err"] = false;
    try {
      model = ReadText(Text(ev["text"]), ev["given"].get<bool>() ? &ev["format"] : nullptr, ev["txt"].get<bool>() ? ".txt" : ".skymodel");
    } catch (const std::exception& e) {
      ev["err"] = true;
      if (std::getenv("WHY")) ev["why"] = e.what();
      model = SkyModel();
    }
    patches.clear();
    Dump(model, ev);
  } else if (op == "find") {
    ev["out"] = Codes(model.FindPatches(Text(ev["pattern"])));
  } else if (op == "make") {
    Make(ev);
  } else if (op == "cluster") {
    Cluster(ev);
  } else if (op == "again") {
    std::ostringstream text;
    text << "FORMAT = Name, Type, Patch, Ra, Dec, I, ReferenceFrequency, SpectralIndex='[]', LogarithmicSI, MajorAxis, "
            "MinorAxis, Orientation, OrientationIsAbsolute\n";
    for (const auto& p : model.GetPatches()) sky_model::toSkyModel(text, p);
    for (const auto& s : model.GetSources()) sky_model::toSkyModel(text, s);
    ev["err"] = false;
    ev["srcs"] = ev["pats"] = json::array();
    try {
      Dump(ReadText(text.str(), nullptr, ".skymodel"), ev);
    } catch (const std::exception&) {
      ev["err"] = true;
    }
  }
}
}  // namespace

int main(int argc, char** argv) {
  dir = std::filesystem::current_path().string();  // the runner's scratch directory
  return RunScript(argc, argv, Handle);
}
