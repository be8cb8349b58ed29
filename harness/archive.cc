// Saves and loads complete native outputs and compares every member of every
// part, whatever the members are called.  Requests are a JSON array on standard
// input; one JSON line per request on standard output.
#include <cstring>
#include <filesystem>
#include <iostream>
#include <random>
#include <string>
#include <typeinfo>
#include <vector>

#include <cxxabi.h>

#include "hdf5.h"
#include "nlohmann/json.hpp"
#include "tie_members.h"
#include "vmecpp/common/vmec_indata/vmec_indata.h"
#include "vmecpp/vmec/output_quantities/output_quantities.h"
#include "vmecpp/vmec/vmec/vmec.h"

using nlohmann::json;
using vmecpp::OutputQuantities;

template <class T>
struct IsLeaf : std::bool_constant<std::is_scalar_v<T>> {};
template <>
struct IsLeaf<std::string> : std::true_type {};
template <class S, int R, int C, int O, int A, int B>
struct IsLeaf<Eigen::Matrix<S, R, C, O, A, B>> : std::true_type {};
template <class T>
struct IsLeaf<std::vector<T>> : std::true_type {};
template <class T>
struct IsLeaf<std::optional<T>> : std::true_type {};

template <class T>
static std::string Name() {
  int st;
  char* p = abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, &st);
  std::string s = p ? p : typeid(T).name();
  std::free(p);
  return s;
}

struct Scrambler {
  std::mt19937_64 g;
  bool shapes;  // also change the sizes of arrays
  double D() {
    switch (g() % 12) {
      case 0: return -0.0;
      case 1: return std::numeric_limits<double>::denorm_min();
      case 2: return std::numeric_limits<double>::infinity();
      case 3: return -std::numeric_limits<double>::max();
      case 4: {
        unsigned long long u = 0x7ff8000000000000ull | (g() & 0xffff);
        double d;
        std::memcpy(&d, &u, 8);
        return d;
      }
      default: {
        unsigned long long u = g();
        double d;
        std::memcpy(&d, &u, 8);
        return std::isfinite(d) ? d : 1.0;
      }
    }
  }
  std::string S() {
    std::string s;
    const int n = static_cast<int>(g() % 40);
    for (int i = 0; i < n; ++i) s += static_cast<char>(1 + g() % 255);
    return s;
  }
  void operator()(double& d) { d = D(); }
  void operator()(int& i) { i = static_cast<int>(g()); }
  void operator()(bool& b) { b = g() % 2; }
  void operator()(std::string& s) { s = S(); }
  void operator()(std::vector<std::string>& v) {
    v.resize(g() % 5);
    for (auto& s : v) s = S();
  }
  template <class T>
  void operator()(std::vector<T>& v) {
    if (shapes) v.resize(g() % 7);
    for (auto& x : v) (*this)(x);
  }
  template <class S, int R, int C, int O, int A, int B>
  void operator()(Eigen::Matrix<S, R, C, O, A, B>& m) {
    if (shapes) m.resize(R == -1 ? static_cast<long>(g() % 6) : R, C == -1 ? static_cast<long>(g() % 6) : C);
    for (long i = 0; i < m.size(); ++i) (*this)(m.data()[i]);
  }
  template <class T>
  void operator()(T&) {}  // anything else stays
};

static long g_compared = 0;

template <class T>
static std::string Diff(const T& a, const T& b) {
  if constexpr (std::is_scalar_v<T>) {
    g_compared++;
    return std::memcmp(&a, &b, sizeof(T)) ? "value differs" : "";
  } else if constexpr (std::is_same_v<T, std::string>) {
    g_compared++;
    return a == b ? "" : "text differs";
  } else if constexpr (requires { a.rows(); a.cols(); a.data(); }) {
    if (a.rows() != b.rows() || a.cols() != b.cols())
      return "shape " + std::to_string(a.rows()) + "x" + std::to_string(a.cols()) + " became " +
             std::to_string(b.rows()) + "x" + std::to_string(b.cols());
    for (long i = 0; i < a.size(); ++i) {
      const std::string d = Diff(a.data()[i], b.data()[i]);
      if (!d.empty()) return "entry " + std::to_string(i) + " of " + std::to_string(a.size()) + " " + d;
    }
    return "";
  } else if constexpr (requires { a.size(); a[0]; }) {
    if (a.size() != b.size())
      return "length " + std::to_string(a.size()) + " became " + std::to_string(b.size());
    for (size_t i = 0; i < a.size(); ++i) {
      const std::string d = Diff(a[i], b[i]);
      if (!d.empty()) return "entry " + std::to_string(i) + " " + d;
    }
    return "";
  } else if constexpr (requires { a.has_value(); *a; }) {
    if (a.has_value() != b.has_value()) return "presence differs";
    return a.has_value() ? Diff(*a, *b) : "";
  } else {
    return "";
  }
}

template <class T, class F>
static void Walk(T& a, T& b, const std::string& where, F f) {
  if constexpr (IsLeaf<std::remove_const_t<T>>::value) {
    f(a, b, where);
  } else if constexpr (std::is_aggregate_v<T>) {
    auto ta = TieMembers(a);
    auto tb = TieMembers(b);
    const std::string base = Name<std::remove_const_t<T>>();
    [&]<size_t... I>(std::index_sequence<I...>) {
      (Walk(std::get<I>(ta), std::get<I>(tb), base + " member " + std::to_string(I + 1), f), ...);
    }(std::make_index_sequence<std::tuple_size_v<decltype(ta)>>());
  }
}

static json Compare(OutputQuantities& a, OutputQuantities& b) {
  json diffs = json::array();
  Walk(a, b, "", [&](auto& x, auto& y, const std::string& w) {
    const std::string d = Diff(x, y);
    if (!d.empty()) diffs.push_back({w, d});
  });
  return diffs;
}

static json Run(const json& r) {
  const std::string path = r["path"];
  auto indata = vmecpp::VmecINDATA::FromJson(r["indata"].get<std::string>());
  if (!indata.ok()) return {{"skip", std::string(indata.status().message())}};
  auto oq = vmecpp::run(*indata, std::nullopt, 1, vmecpp::OutputMode::kSilent);
  if (!oq.ok()) return {{"skip", std::string(oq.status().message())}};
  json out = json::array();
  OutputQuantities orig = *oq;
  for (const auto& v : r["variants"]) {
    OutputQuantities q = orig;
    if (v[0] != "real") {
      Scrambler s{std::mt19937_64(v[1].get<unsigned long long>()), v[0] == "shapes"};
      const vmecpp::VmecINDATA keep = q.indata;
      OutputQuantities dummy = q;
      Walk(q, dummy, "", [&](auto& x, auto&, const std::string&) { s(x); });
      q.indata = keep;
      if (v[0] == "square") {
        // same numbers of modes and surfaces: layouts cannot be told by shape
        const int n = 3 + static_cast<int>(v[1].get<unsigned long long>() % 5);
        auto& w = q.wout;
        Walk(w, w, "", [&](auto& x, auto&, const std::string&) {
          using T = std::decay_t<decltype(x)>;
          if constexpr (std::is_same_v<T, vmecpp::RowMatrixXd>) {
            x.resize(n, n);
            s.shapes = false;
            s(x);
          }
        });
        w.ns = n;
        w.mnmax = n;
        w.mnmax_nyq = n;
      }
    }
    json o;
    try {
      const absl::Status st = q.Save(path);
      if (!st.ok()) {
        o["save_error"] = std::string(st.message());
      } else {
        auto back = OutputQuantities::Load(path);
        if (!back.ok()) {
          o["load_error"] = std::string(back.status().message());
        } else {
          g_compared = 0;
          o["diffs"] = Compare(q, *back);
          o["compared"] = g_compared;
        }
      }
    } catch (const H5::Exception& e) {
      o["exception"] = e.getDetailMsg();
    } catch (const std::exception& e) {
      o["exception"] = e.what();
    }
    out.push_back(o);
  }
  // leave the archive of the real result behind
  (void)orig.Save(path);
  return {{"v", out}};
}

static herr_t Visit(hid_t, const char* name, const H5O_info_t* info, void* p) {
  if (info->type == H5O_TYPE_DATASET) static_cast<std::vector<std::string>*>(p)->push_back(name);
  return 0;
}
static void Collect(hid_t f, std::vector<std::string>& names) {
  H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_INC, Visit, &names, H5O_INFO_BASIC);
}

// makes one damaged copy of an archive per request item and loads it
static json Damage(const json& r) {
  const std::string src = r["path"], dst = r["path"].get<std::string>() + ".bad";
  std::vector<std::string> names;
  {
    hid_t f = H5Fopen(src.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    Collect(f, names);
    H5Fclose(f);
  }
  json out = json::array();
  const std::string how = r["how"];
  for (size_t k = 0; k < names.size(); ++k) {
    if (r.contains("every") && k % r["every"].get<size_t>() != r["offset"].get<size_t>()) continue;
    std::filesystem::copy_file(src, dst, std::filesystem::copy_options::overwrite_existing);
    hid_t f = H5Fopen(dst.c_str(), H5F_ACC_RDWR, H5P_DEFAULT);
    hid_t ds = H5Dopen2(f, names[k].c_str(), H5P_DEFAULT);
    hid_t sp = H5Dget_space(ds);
    const int rank = H5Sget_simple_extent_ndims(sp);
    std::vector<hsize_t> dims(rank);
    if (rank > 0) H5Sget_simple_extent_dims(sp, dims.data(), nullptr);
    hid_t ty = H5Dget_type(ds);
    const H5T_class_t cls = H5Tget_class(ty);
    H5Dclose(ds);
    bool done = true;
    H5Ldelete(f, names[k].c_str(), H5P_DEFAULT);
    if (how == "rank") {
      std::vector<hsize_t> nd = dims;
      if (rank == 2) {
        nd = {dims[0], dims[1], 3};
      } else if (rank == 1) {
        nd = {dims[0] + 1, 4};
      } else {
        nd = {7};
      }
      hid_t s2 = H5Screate_simple(static_cast<int>(nd.size()), nd.data(), nullptr);
      H5Dclose(H5Dcreate2(f, names[k].c_str(), ty, s2, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT));
      H5Sclose(s2);
    } else if (how == "type") {
      hid_t nt = H5T_NATIVE_DOUBLE;
      std::vector<double> v(4096, 0.75);
      hsize_t n = 1;
      for (auto d : dims) n *= d;
      hid_t st = -1;
      if (cls == H5T_STRING) {
        // a number in the place of a text
      } else if (cls == H5T_FLOAT) {
        // a text in the place of numbers
        st = H5Tcopy(H5T_C_S1);
        H5Tset_size(st, H5T_VARIABLE);
        nt = st;
      }
      if (n == 0) done = false;  // an empty list has no type that could matter
      hid_t s2 = rank == 0 ? H5Screate(H5S_SCALAR) : H5Screate_simple(rank, dims.data(), nullptr);
      hid_t d2 = H5Dcreate2(f, names[k].c_str(), nt, s2, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
      if (st < 0 && n <= v.size()) H5Dwrite(d2, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data());
      H5Dclose(d2);
      H5Sclose(s2);
    }
    H5Tclose(ty);
    H5Sclose(sp);
    H5Fclose(f);
    if (!done) continue;
    json o = {{"name", names[k]}};
    try {
      auto back = OutputQuantities::Load(dst);
      if (back.ok()) o["loaded"] = true;
      else o["error"] = std::string(back.status().message());
    } catch (const H5::Exception& e) {
      o["error"] = e.getDetailMsg();
    } catch (const std::exception& e) {
      o["error"] = e.what();
    }
    out.push_back(o);
  }
  std::filesystem::remove(dst);
  return {{"v", out}};
}

int main() {
  H5::Exception::dontPrint();
  json req = json::parse(std::cin);
  for (const auto& r : req) {
    json o = r["fn"] == "run" ? Run(r) : Damage(r);
    std::cout << o.dump(-1, ' ', false, json::error_handler_t::replace) << "\n" << std::flush;
  }
  return 0;
}
