// Runs requests (a JSON array on standard input) on the low-level readers and
// writers of the code under test and prints the JSON array of results.  Numbers
// are exchanged as their bit patterns in hexadecimal.
#include <cstdio>
#include <cstring>
#include <iostream>
#include <string>
#include <vector>

#include "hdf5.h"
#include "netcdf.h"
#include "nlohmann/json.hpp"
#include "util/file_io/file_io.h"
#include "util/hdf5_io/hdf5_io.h"
#include "util/json_io/json_io.h"
#include "util/netcdf_io/netcdf_io.h"

using nlohmann::json;

static std::string Hex(double d) {
  unsigned long long u;
  std::memcpy(&u, &d, 8);
  char b[32];
  std::snprintf(b, sizeof b, "%016llx", u);
  return b;
}
static double Dbl(const json& j) {
  unsigned long long u = std::stoull(j.get<std::string>(), nullptr, 16);
  double d;
  std::memcpy(&d, &u, 8);
  return d;
}
static std::string Bytes(const std::string& s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    std::snprintf(b, sizeof b, "%02x", c);
    o += b;
  }
  return o;
}
static std::string Unbytes(const json& j) {
  const std::string h = j.get<std::string>();
  std::string o;
  for (size_t i = 0; i + 1 < h.size(); i += 2)
    o += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
  return o;
}
static json Err(const std::string& m) { return {{"error", m.empty() ? "?" : m}}; }
template <class V>
static json Dlist(const V& v) {
  json a = json::array();
  for (long i = 0; i < static_cast<long>(v.size()); ++i) a.push_back(Hex(v[i]));
  return a;
}
template <class V>
static json Ilist(const V& v) {
  json a = json::array();
  for (long i = 0; i < static_cast<long>(v.size()); ++i) a.push_back(v[i]);
  return a;
}

// every reader of the NetCDF library on every name, in one open file
static json Nc(const json& r) {
  int id = -1;
  const std::string path = r["path"];
  const int rc = nc_open(path.c_str(), NC_NOWRITE, &id);
  if (rc != NC_NOERR) return Err("open");
  json out = json::array();
  for (const auto& q : r["reads"]) {
    const std::string kind = q[0], name = q[1];
    json o;
    if (kind == "bool") {
      auto v = netcdf_io::NetcdfReadBool(id, name);
      o = v.ok() ? json{{"v", *v}} : Err(std::string(v.status().message()));
    } else if (kind == "char") {
      auto v = netcdf_io::NetcdfReadChar(id, name);
      o = v.ok() ? json{{"v", Bytes(std::string(1, *v))}} : Err(std::string(v.status().message()));
    } else if (kind == "int") {
      auto v = netcdf_io::NetcdfReadInt(id, name);
      o = v.ok() ? json{{"v", *v}} : Err(std::string(v.status().message()));
    } else if (kind == "double") {
      auto v = netcdf_io::NetcdfReadDouble(id, name);
      o = v.ok() ? json{{"v", Hex(*v)}} : Err(std::string(v.status().message()));
    } else if (kind == "string") {
      auto v = netcdf_io::NetcdfReadString(id, name);
      o = v.ok() ? json{{"v", Bytes(*v)}} : Err(std::string(v.status().message()));
    } else if (kind == "a1") {
      auto v = netcdf_io::NetcdfReadArray1D(id, name);
      o = v.ok() ? json{{"v", Dlist(*v)}} : Err(std::string(v.status().message()));
    } else if (kind == "a2") {
      auto v = netcdf_io::NetcdfReadArray2D(id, name);
      if (v.ok()) {
        json a = json::array();
        for (const auto& x : *v) a.push_back(Dlist(x));
        o = {{"v", a}};
      } else {
        o = Err(std::string(v.status().message()));
      }
    } else if (kind == "a3") {
      auto v = netcdf_io::NetcdfReadArray3D(id, name);
      if (v.ok()) {
        json a = json::array();
        for (const auto& x : *v) {
          json b = json::array();
          for (const auto& y : x) b.push_back(Dlist(y));
          a.push_back(b);
        }
        o = {{"v", a}};
      } else {
        o = Err(std::string(v.status().message()));
      }
    }
    out.push_back(o);
  }
  nc_close(id);
  return {{"v", out}};
}

template <class F>
static json Opt(const F& f) {
  auto v = f();
  if (!v.ok()) return Err(std::string(v.status().message()));
  if (!v->has_value()) return {{"absent", true}};
  return {{"v", 0}};
}

static json Js(const json& r) {
  json doc;
  try {
    doc = json::parse(r["text"].get<std::string>());
  } catch (const std::exception&) {
    return Err("parse");
  }
  json out = json::array();
  for (const auto& q : r["reads"]) {
    const std::string kind = q[0], name = q[1];
    json o;
    if (kind == "bool") {
      auto v = json_io::JsonReadBool(doc, name);
      o = Opt([&] { return v; });
      if (o.contains("v")) o["v"] = **v;
    } else if (kind == "int") {
      auto v = json_io::JsonReadInt(doc, name);
      o = Opt([&] { return v; });
      if (o.contains("v")) o["v"] = **v;
    } else if (kind == "double") {
      auto v = json_io::JsonReadDouble(doc, name);
      o = Opt([&] { return v; });
      if (o.contains("v")) o["v"] = Hex(**v);
    } else if (kind == "string") {
      auto v = json_io::JsonReadString(doc, name);
      o = Opt([&] { return v; });
      if (o.contains("v")) o["v"] = Bytes(**v);
    } else if (kind == "vint") {
      auto v = json_io::JsonReadVectorInt(doc, name);
      o = Opt([&] { return v; });
      if (o.contains("v")) o["v"] = Ilist(**v);
    } else if (kind == "vdouble") {
      auto v = json_io::JsonReadVectorDouble(doc, name);
      o = Opt([&] { return v; });
      if (o.contains("v")) o["v"] = Dlist(**v);
    }
    out.push_back(o);
  }
  return {{"v", out}};
}

// ---- HDF5: datasets made with the HDF5 library itself
static hid_t TypeOf(const std::string& t) {
  if (t == "f8") return H5T_NATIVE_DOUBLE;
  if (t == "f4") return H5T_NATIVE_FLOAT;
  if (t == "i4") return H5T_NATIVE_INT;
  if (t == "i8") return H5T_NATIVE_LLONG;
  if (t == "u4") return H5T_NATIVE_UINT;
  if (t == "u1") return H5T_NATIVE_UCHAR;
  return H5T_NATIVE_HBOOL;
}
static json H5make(const json& r) {
  const std::string path = r["path"];
  hid_t f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT);
  for (const auto& d : r["sets"]) {
    const std::string t = d["type"];
    const std::string name = d["name"];
    if (t == "group") {
      H5Gclose(H5Gcreate2(f, name.c_str(), H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
      continue;
    }
    hid_t sp;
    if (d["dims"].is_null()) {
      sp = H5Screate(H5S_SCALAR);
    } else if (d["dims"] == "null") {
      sp = H5Screate(H5S_NULL);
    } else {
      std::vector<hsize_t> dims = d["dims"].get<std::vector<hsize_t>>();
      sp = H5Screate_simple(static_cast<int>(dims.size()), dims.data(), nullptr);
    }
    if (t == "vstr" || t == "fstr") {
      hid_t st = H5Tcopy(H5T_C_S1);
      const std::vector<std::string> vals = d["vals"].get<std::vector<std::string>>();
      if (t == "vstr") {
        H5Tset_size(st, H5T_VARIABLE);
        hid_t ds = H5Dcreate2(f, name.c_str(), st, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        std::vector<const char*> p;
        for (const auto& s : vals) p.push_back(s.c_str());
        if (!p.empty()) H5Dwrite(ds, st, H5S_ALL, H5S_ALL, H5P_DEFAULT, p.data());
        H5Dclose(ds);
      } else {
        H5Tset_size(st, 16);
        hid_t ds = H5Dcreate2(f, name.c_str(), st, sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
        std::string b;
        for (const auto& s : vals) {
          std::string x = s;
          x.resize(16, '\0');
          b += x;
        }
        if (!b.empty()) H5Dwrite(ds, st, H5S_ALL, H5S_ALL, H5P_DEFAULT, b.data());
        H5Dclose(ds);
      }
      H5Tclose(st);
    } else {
      std::vector<double> v;
      std::vector<long long> iv;
      hid_t mem = H5T_NATIVE_DOUBLE;
      const void* p = nullptr;
      if (t[0] == 'f') {
        for (const auto& x : d["vals"]) v.push_back(Dbl(x));
        p = v.data();
      } else {
        for (const auto& x : d["vals"]) iv.push_back(x.get<long long>());
        mem = H5T_NATIVE_LLONG;
        p = iv.data();
      }
      hid_t ds = H5Dcreate2(f, name.c_str(), TypeOf(t), sp, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      if (!d["vals"].empty()) H5Dwrite(ds, mem, H5S_ALL, H5S_ALL, H5P_DEFAULT, p);
      H5Dclose(ds);
    }
    H5Sclose(sp);
  }
  H5Fclose(f);
  return {{"v", 0}};
}

template <class V>
static V Make(const json& vals) {
  V v;
  v.resize(vals.size());
  for (size_t i = 0; i < vals.size(); ++i) {
    if constexpr (std::is_same_v<std::decay_t<decltype(v[0])>, double>) {
      v[i] = Dbl(vals[i]);
    } else {
      v[i] = vals[i].get<int>();
    }
  }
  return v;
}

static json H5write(const json& r) {
  try {
    H5::H5File f(r["path"].get<std::string>(), H5F_ACC_TRUNC);
    for (const auto& d : r["sets"]) {
      const std::string k = d["kind"], n = d["name"];
      using hdf5_io::WriteH5Dataset;
      if (k == "mat") {
        hdf5_io::RowMatrixXd m(d["dims"][0].get<long>(), d["dims"][1].get<long>());
        for (long i = 0; i < m.size(); ++i) m.data()[i] = Dbl(d["vals"][i]);
        WriteH5Dataset(m, n, f);
      } else if (k == "exd") {
        WriteH5Dataset(Make<Eigen::VectorXd>(d["vals"]), n, f);
      } else if (k == "exi") {
        WriteH5Dataset(Make<Eigen::VectorXi>(d["vals"]), n, f);
      } else if (k == "svd") {
        WriteH5Dataset(Make<std::vector<double>>(d["vals"]), n, f);
      } else if (k == "svi") {
        WriteH5Dataset(Make<std::vector<int>>(d["vals"]), n, f);
      } else if (k == "str") {
        WriteH5Dataset(Unbytes(d["vals"]), n, f);
      } else if (k == "vstr") {
        std::vector<std::string> v;
        for (const auto& s : d["vals"]) v.push_back(Unbytes(s));
        WriteH5Dataset(v, n, f);
      } else if (k == "d") {
        WriteH5Dataset(Dbl(d["vals"]), n, f);
      } else if (k == "i") {
        WriteH5Dataset(d["vals"].get<int>(), n, f);
      } else if (k == "b") {
        WriteH5Dataset(d["vals"].get<bool>(), n, f);
      } else if (k == "tend") {
        WriteH5Dataset(Make<Eigen::VectorXd>(d["vals"]), d["dims"].get<std::vector<hsize_t>>(), n, f);
      } else if (k == "tensi") {
        WriteH5Dataset(Make<std::vector<int>>(d["vals"]), d["dims"].get<std::vector<hsize_t>>(), n, f);
      }
    }
  } catch (const H5::Exception& e) {
    return Err(e.getDetailMsg());
  } catch (const std::exception& e) {
    return Err(e.what());
  }
  return {{"v", 0}};
}

static json H5one(const std::string& k, const std::string& n, H5::H5File& f) {
  using hdf5_io::ReadH5Dataset;
  if (k == "mat") {
    hdf5_io::RowMatrixXd m;
    ReadH5Dataset(m, n, f);
    json a = json::array();
    for (long i = 0; i < m.size(); ++i) a.push_back(Hex(m.data()[i]));
    return {{"v", a}, {"dims", {m.rows(), m.cols()}}};
  }
  if (k == "exd") {
    Eigen::VectorXd v;
    ReadH5Dataset(v, n, f);
    return {{"v", Dlist(v)}};
  }
  if (k == "exi") {
    Eigen::VectorXi v;
    ReadH5Dataset(v, n, f);
    return {{"v", Ilist(v)}};
  }
  if (k == "svd") {
    std::vector<double> v;
    ReadH5Dataset(v, n, f);
    return {{"v", Dlist(v)}};
  }
  if (k == "svi") {
    std::vector<int> v;
    ReadH5Dataset(v, n, f);
    return {{"v", Ilist(v)}};
  }
  if (k == "str") {
    std::string s;
    ReadH5Dataset(s, n, f);
    return {{"v", Bytes(s)}};
  }
  if (k == "vstr") {
    std::vector<std::string> v;
    ReadH5Dataset(v, n, f);
    json a = json::array();
    for (const auto& s : v) a.push_back(Bytes(s));
    return {{"v", a}};
  }
  if (k == "d") {
    double d = 0;
    ReadH5Dataset(d, n, f);
    return {{"v", Hex(d)}};
  }
  if (k == "i") {
    int i = 0;
    ReadH5Dataset(i, n, f);
    return {{"v", i}};
  }
  if (k == "b") {
    bool b = false;
    ReadH5Dataset(b, n, f);
    unsigned char c;
    std::memcpy(&c, &b, 1);
    return {{"v", static_cast<int>(c)}};
  }
  if (k == "tend") {
    Eigen::VectorXd v;
    std::vector<hsize_t> dims;
    ReadH5Dataset(v, dims, n, f);
    return {{"v", Dlist(v)}, {"dims", dims}};
  }
  std::vector<int> v;
  std::vector<hsize_t> dims;
  ReadH5Dataset(v, dims, n, f);
  return {{"v", Ilist(v)}, {"dims", dims}};
}

static json H5read(const json& r) {
  json out = json::array();
  try {
    H5::H5File f(r["path"].get<std::string>(), H5F_ACC_RDONLY);
    for (const auto& q : r["reads"]) {
      try {
        out.push_back(H5one(q[0], q[1], f));
      } catch (const H5::Exception& e) {
        out.push_back(Err(e.getDetailMsg()));
      } catch (const std::exception& e) {
        out.push_back(Err(e.what()));
      }
    }
  } catch (const H5::Exception& e) {
    return Err(e.getDetailMsg());
  }
  return {{"v", out}};
}

static json File(const json& r) {
  const std::string path = r["path"];
  if (r["op"] == "read") {
    auto c = file_io::ReadFile(path);
    if (!c.ok()) return Err(std::string(c.status().message()));
    return {{"v", Bytes(*c)}};
  }
  auto s = file_io::WriteFile(path, Unbytes(r["vals"]));
  if (!s.ok()) return Err(std::string(s.message()));
  return {{"v", 0}};
}

int main() {
  H5::Exception::dontPrint();
  json req = json::parse(std::cin);
  for (const auto& r : req) {
    json o;
    const std::string fn = r["fn"];
    if (fn == "nc") o = Nc(r);
    if (fn == "json") o = Js(r);
    if (fn == "h5make") o = H5make(r);
    if (fn == "h5write") o = H5write(r);
    if (fn == "h5read") o = H5read(r);
    try {
      if (fn == "file") o = File(r);
    } catch (const std::exception& e) {
      o = Err(e.what());
    }
    // one line per request, so that what was answered before a crash is known
    std::cout << o.dump(-1, ' ', false, json::error_handler_t::replace) << "\n" << std::flush;
  }
  return 0;
}
