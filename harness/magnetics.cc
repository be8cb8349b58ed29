// Runs requests (a JSON array on standard input) on the coil and field-table
// library of the code under test and prints the JSON array of results.
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "nlohmann/json.hpp"
#include "vmecpp/common/composed_types_lib/composed_types_lib.h"
#include "vmecpp/common/magnetic_configuration_lib/magnetic_configuration_lib.h"
#include "vmecpp/common/magnetic_field_provider/magnetic_field_provider_lib.h"
#include "vmecpp/common/makegrid_lib/makegrid_lib.h"

using nlohmann::json;
using namespace magnetics;
using composed_types::Vector3d;

static void V(Vector3d* v, const json& j) {
  v->set_x(j[0]);
  v->set_y(j[1]);
  v->set_z(j[2]);
}
static json J(const Vector3d& v) { return {v.x(), v.y(), v.z()}; }

static MagneticConfiguration Config(const json& j) {
  MagneticConfiguration c;
  if (j.contains("nfp") && !j["nfp"].is_null()) c.set_num_field_periods(j["nfp"]);
  for (const auto& jc : j["circuits"]) {
    SerialCircuit* s = c.add_serial_circuits();
    if (!jc["current"].is_null()) s->set_current(jc["current"]);
    for (const auto& jk : jc["coils"]) {
      Coil* k = s->add_coils();
      if (!jk["w"].is_null()) k->set_num_windings(jk["w"]);
      for (const auto& jr : jk["carriers"]) {
        CurrentCarrier* r = k->add_current_carriers();
        const std::string t = jr["t"];
        if (t == "line") {
          auto* f = r->mutable_infinite_straight_filament();
          V(f->mutable_origin(), jr["o"]);
          V(f->mutable_direction(), jr["d"]);
        } else if (t == "circle") {
          auto* f = r->mutable_circular_filament();
          V(f->mutable_center(), jr["c"]);
          V(f->mutable_normal(), jr["n"]);
          f->set_radius(jr["r"]);
        } else {
          auto* f = r->mutable_polygon_filament();
          for (const auto& p : jr["v"]) V(f->add_vertices(), p);
        }
      }
    }
  }
  return c;
}

static json Dump(const MagneticConfiguration& c) {
  json out;
  out["nfp"] = c.has_num_field_periods() ? json(c.num_field_periods()) : json();
  out["circuits"] = json::array();
  for (const auto& s : c.serial_circuits()) {
    json js;
    js["current"] = s.has_current() ? json(s.current()) : json();
    js["coils"] = json::array();
    for (const auto& k : s.coils()) {
      json jk;
      jk["w"] = k.has_num_windings() ? json(k.num_windings()) : json();
      jk["carriers"] = json::array();
      for (const auto& r : k.current_carriers()) {
        json jr;
        switch (r.type_case()) {
          case CurrentCarrier::TypeCase::kInfiniteStraightFilament:
            jr = {{"t", "line"},
                  {"o", J(r.infinite_straight_filament().origin())},
                  {"d", J(r.infinite_straight_filament().direction())}};
            break;
          case CurrentCarrier::TypeCase::kCircularFilament:
            jr = {{"t", "circle"},
                  {"c", J(r.circular_filament().center())},
                  {"n", J(r.circular_filament().normal())},
                  {"r", r.circular_filament().radius()},
                  {"name", r.circular_filament().name()}};
            break;
          case CurrentCarrier::TypeCase::kPolygonFilament: {
            json v = json::array();
            for (const auto& p : r.polygon_filament().vertices()) v.push_back(J(p));
            jr = {{"t", "polygon"}, {"v", v}, {"name", r.polygon_filament().name()}};
            break;
          }
          default:
            jr = {{"t", "none"}};
        }
        jk["carriers"].push_back(jr);
      }
      js["coils"].push_back(jk);
    }
    out["circuits"].push_back(js);
  }
  return out;
}

static makegrid::MakegridParameters Params(const json& j) {
  makegrid::MakegridParameters p;
  p.normalize_by_currents = j["norm"];
  p.assume_stellarator_symmetry = j["sym"];
  p.number_of_field_periods = j["nfp"];
  p.r_grid_minimum = j["r0"];
  p.r_grid_maximum = j["r1"];
  p.number_of_r_grid_points = j["nr"];
  p.z_grid_minimum = j["z0"];
  p.z_grid_maximum = j["z1"];
  p.number_of_z_grid_points = j["nz"];
  p.number_of_phi_grid_points = j["np"];
  return p;
}

template <typename M>
static json Mat(const M& m) {
  json out = json::array();
  for (int i = 0; i < m.rows(); ++i) {
    json row = json::array();
    for (int k = 0; k < m.cols(); ++k) row.push_back(m(i, k));
    out.push_back(row);
  }
  return out;
}

static json Err(const absl::Status& s) { return {{"error", std::string(s.message())}}; }

static json One(const json& q) {
  const std::string op = q["op"];
  if (op == "field" || op == "potential") {
    auto c = Config(q["config"]);
    std::vector<std::vector<double>> x = q["points"];
    // pre-filled: the functions are documented to add to the given vectors
    std::vector<std::vector<double>> b = q["fill"];
    auto s = op == "field" ? MagneticField(c, x, b) : VectorPotential(c, x, b);
    if (!s.ok()) return Err(s);
    return {{"b", b}};
  }
  if (op == "parse") {
    auto c = ImportMagneticConfigurationFromMakegrid(q["text"]);
    if (!c.ok()) return Err(c.status());
    return Dump(*c);
  }
  if (op == "migrate") {
    auto c = Config(q["config"]);
    auto s = NumWindingsToCircuitCurrents(c);
    if (!s.ok()) return Err(s);
    return Dump(c);
  }
  if (op == "move") {
    auto c = Config(q["config"]);
    auto s = MoveRadially(q["step"].get<double>(), c);
    if (!s.ok()) return Err(s);
    return Dump(c);
  }
  if (op == "currents") {
    auto c = Config(q["config"]);
    std::vector<double> v = q["currents"];
    auto s = SetCircuitCurrents(Eigen::Map<Eigen::VectorXd>(v.data(), v.size()), c);
    if (!s.ok()) return Err(s);
    auto g = GetCircuitCurrents(c);
    if (!g.ok()) return Err(g.status());
    json out = Dump(c);
    out["got"] = std::vector<double>(g->data(), g->data() + g->size());
    return out;
  }
  if (op == "linking") {
    auto c = Config(q["config"]);
    composed_types::CurveRZFourier axis;
    for (const auto& a : q["axis"]) {
      auto* r = axis.add_r();
      auto* z = axis.add_z();
      r->set_mode_number(a[0]);
      z->set_mode_number(a[0]);
      r->set_fc_cos(a[1]);
      z->set_fc_sin(a[2]);
      r->set_fc_sin(a[3]);
      z->set_fc_cos(a[4]);
    }
    auto l = LinkingCurrent(c, axis);
    if (!l.ok()) return Err(l.status());
    return {{"i", *l}};
  }
  if (op == "mgrid") {
    auto c = Config(q["config"]);
    auto p = Params(q["params"]);
    auto t = makegrid::ComputeMagneticFieldResponseTable(p, c);
    if (!t.ok()) return Err(t.status());
    json out = {{"r", Mat(t->b_r)}, {"p", Mat(t->b_p)}, {"z", Mat(t->b_z)}};
    std::optional<makegrid::MakegridCachedVectorPotential> a;
    if (q["a"].get<bool>()) {
      auto ta = makegrid::ComputeVectorPotentialCache(p, c);
      if (!ta.ok()) return Err(ta.status());
      a = *ta;
      out["ar"] = Mat(ta->a_r);
      out["ap"] = Mat(ta->a_p);
      out["az"] = Mat(ta->a_z);
    }
    if (q.contains("path")) {
      std::vector<double> v = q["raw"];
      auto s = makegrid::WriteMakegridNetCDFFile(
          q["path"], p, Eigen::Map<Eigen::VectorXd>(v.data(), v.size()), *t, a);
      if (!s.ok()) return Err(s);
    }
    return out;
  }
  if (op == "params") {
    auto p = makegrid::ImportMakegridParametersFromJson(q["text"]);
    if (!p.ok()) return Err(p.status());
    return {{"norm", p->normalize_by_currents}, {"sym", p->assume_stellarator_symmetry},
            {"nfp", p->number_of_field_periods}, {"r0", p->r_grid_minimum},
            {"r1", p->r_grid_maximum}, {"nr", p->number_of_r_grid_points},
            {"z0", p->z_grid_minimum}, {"z1", p->z_grid_maximum},
            {"nz", p->number_of_z_grid_points}, {"np", p->number_of_phi_grid_points}};
  }
  if (op == "curve") {
    composed_types::CurveRZFourier c;
    for (const auto& a : q["coefs"]) {
      auto* r = c.add_r();
      auto* z = c.add_z();
      r->set_mode_number(a[0]);
      z->set_mode_number(a[0]);
      r->set_fc_cos(a[1]);
      z->set_fc_sin(a[2]);
      r->set_fc_sin(a[3]);
      z->set_fc_cos(a[4]);
    }
    auto t = composed_types::CurveRZFourierToCsv(c);
    if (!t.ok()) return Err(t.status());
    auto d = composed_types::CurveRZFourierFromCsv(*t);
    if (!d.ok()) return Err(d.status());
    json out = json::array();
    for (int i = 0; i < d->r_size(); ++i)
      out.push_back({d->r(i).mode_number(), d->r(i).fc_cos(), d->z(i).fc_sin(),
                     d->r(i).fc_sin(), d->z(i).fc_cos()});
    json lists = {*composed_types::CoefficientsRCos(*d), *composed_types::CoefficientsZSin(*d),
                  *composed_types::CoefficientsRSin(*d), *composed_types::CoefficientsZCos(*d)};
    return {{"coefs", out}, {"modes", *composed_types::ModeNumbers(*d)}, {"lists", lists}};
  }
  if (op == "surface") {
    composed_types::SurfaceRZFourier c;
    for (const auto& a : q["coefs"]) {
      auto* r = c.add_r();
      auto* z = c.add_z();
      for (auto* f : {r, z}) {
        f->set_poloidal_mode_number(a[0]);
        f->set_toroidal_mode_number(a[1]);
      }
      r->set_fc_cos(a[2]);
      z->set_fc_sin(a[3]);
      r->set_fc_sin(a[4]);
      z->set_fc_cos(a[5]);
    }
    auto t = composed_types::SurfaceRZFourierToCsv(c);
    if (!t.ok()) return Err(t.status());
    auto d = composed_types::SurfaceRZFourierFromCsv(*t);
    if (!d.ok()) return Err(d.status());
    json out = json::array();
    for (int i = 0; i < d->r_size(); ++i)
      out.push_back({d->r(i).poloidal_mode_number(), d->r(i).toroidal_mode_number(),
                     d->r(i).fc_cos(), d->z(i).fc_sin(), d->r(i).fc_sin(),
                     d->z(i).fc_cos()});
    json lists = {*composed_types::CoefficientsRCos(*d), *composed_types::CoefficientsZSin(*d),
                  *composed_types::CoefficientsRSin(*d), *composed_types::CoefficientsZCos(*d)};
    json modes = {*composed_types::PoloidalModeNumbers(*d), *composed_types::ToroidalModeNumbers(*d)};
    return {{"coefs", out}, {"modes", modes}, {"lists", lists}};
  }
  return {{"error", "unknown request"}};
}

int main() {
  json in = json::parse(std::cin);
  json out = json::array();
  for (const auto& q : in) {
    try {
      out.push_back(One(q));
    } catch (const std::exception& e) {
      out.push_back({{"exception", e.what()}});
    }
  }
  std::cout << out.dump() << std::endl;
  return 0;
}
