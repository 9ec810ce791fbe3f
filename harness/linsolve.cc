#include "common.h"
#include <memory>
#include <cmath>
#include "ddecal/linear_solvers/LLSSolver.h"
#include "ddecal/linear_solvers/NormalEquationsSolver.h"
#include "ddecal/linear_solvers/QRSolver.h"
#include "ddecal/linear_solvers/SVDSolver.h"
using namespace dp3::ddecal;
using C = std::complex<float>;
static std::unique_ptr<LLSSolver> solver;
static int m, n, nrhs;
static void Handle(json& ev) {
  const std::string op = ev["op"];
  if (op == "new") {
    m = ev["m"]; n = ev["n"]; nrhs = ev["nrhs"];
    const std::string k = ev["kind"];
    solver = LLSSolver::Make(k == "qr" ? LLSSolverType::QR : k == "svd" ? LLSSolverType::SVD
                                                                        : LLSSolverType::NORMAL_EQUATIONS, m, n, nrhs);
  } else if (op == "parse") {
    try {
      LLSSolverType t = LLSSolver::ParseType(ev["name"]);
      auto s = LLSSolver::Make(t, 1, 1, 1);
      ev["res"] = dynamic_cast<QRSolver*>(s.get()) ? "qr" : dynamic_cast<SVDSolver*>(s.get()) ? "svd"
                : dynamic_cast<NormalEquationsSolver*>(s.get()) ? "ne" : "none";
    } catch (std::runtime_error&) { ev["res"] = "err"; }
  } else if (op == "solve") {
    std::vector<C> a, b;
    for (const auto& x : ev["a"]) a.emplace_back(float(x[0]), float(x[1]));
    for (const auto& x : ev["b"]) b.emplace_back(float(x[0]), float(x[1]));
    bool ok;
    if (ev["guess"]) {
      std::vector<C> x0(n * nrhs, C(0.5, -1));
      ok = solver->Solve(a.data(), b.data(), x0.data());
    } else ok = solver->Solve(a.data(), b.data());
    ev["ok"] = ok;
    json x = json::array();
    for (const C& v : b) {
      auto cl = [](float f) { return std::isfinite(f) ? int32_t(std::lround(std::max(-30.f, std::min(30.f, f)) * 1000)) : 99999; };
      x.push_back({cl(v.real()), cl(v.imag())});
    }
    ev["x"] = x;
  }
}
int main(int c, char** v) { return RunScript(c, v, Handle); }
