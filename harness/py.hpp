// The Python package inside an embedded interpreter.
#pragma once
#include <pybind11/embed.h>
#include <pybind11/eigen.h>
#include <pybind11/numpy.h>
#include <pybind11/stl.h>
#include "gen.hpp"

extern "C" PyObject* PyInit_small_gicp();

namespace py = pybind11;
using namespace pybind11::literals;
using gen::Pts;
using gen::Rng;
using gen::Src;
using gen::V3;
using gen::V4;
using M4 = Eigen::Matrix4d;

struct Interpreter {
  Interpreter() {
    PyImport_AppendInittab("small_gicp", &PyInit_small_gicp);
    py::initialize_interpreter(false);
  }
};
struct Python : Interpreter {
  py::module_ sg, np;
  py::dict g;
  py::function layout, same;
  Python() {
    np = py::module_::import("numpy");
    sg = py::module_::import("small_gicp");
    g["np"] = np;
    g["sg"] = sg;
    py::exec(R"(
LAYOUTS = ['C', 'F', 'strided', 'reversed', 'wide', 'transposed', 'readonly', 'float32', 'big-endian', 'int64', 'int32', 'list', 'longdouble', 'both']
def layout(a, kind):
    n, c = a.shape
    if kind == 'C': return a
    if kind == 'F': return np.asfortranarray(a)
    if kind == 'strided':
        b = np.full((3 * n + 1, c), 77.25); b[1::3][:n] = a; return b[1::3][:n]
    if kind == 'reversed': return a[::-1].copy()[::-1]
    if kind == 'wide':
        b = np.full((n, c + 3), 77.25); b[:, 2:2 + c] = a; return b[:, 2:2 + c]
    if kind == 'transposed': return a.T.copy().T
    if kind == 'readonly':
        a = a.copy(); a.flags.writeable = False; return a
    if kind == 'float32': return a.astype(np.float32)
    if kind == 'big-endian': return a.astype('>f8')
    if kind == 'int64': return a.astype(np.int64)
    if kind == 'int32': return a.astype(np.int32)
    if kind == 'list': return a.tolist()
    if kind == 'longdouble': return a.astype(np.longdouble)
    if kind == 'both':
        b = np.full((2 * n + 1, 2 * c + 1), 77.25); b[1::2, 1::2] = a; return b[1::2, 1::2]
def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()
)",
             g);
    layout = g["layout"];
    same = g["same"];
  }
};
inline Python& P() {
  static Python* p = new Python();  // lives until the process ends
  return *p;
}

using RowMat = Eigen::Matrix<double, -1, -1, Eigen::RowMajor>;

inline RowMat rows(const Pts& p, int cols) {
  RowMat m(p.size(), cols);
  for (size_t i = 0; i < p.size(); i++) m.row(i) = p[i].head(cols).transpose();
  return m;
}

/// An argument array in one of many layouts and element types; `p` is rounded to what the array holds.
struct Arg {
  py::object obj, copy;
  std::string kind;
  void unchanged(const std::string& what) const { PBT_CHECK(P().same(obj, copy).cast<bool>(), what << ": an input array (" << kind << ") was modified"); }
};
inline Arg array(Src& s, Pts& p, int cols, int plain_percent = 30) {
  static const std::vector<std::string> kinds = {"C", "F", "strided", "reversed", "wide", "transposed", "readonly", "float32", "big-endian", "int64", "int32", "list", "longdouble", "both"};
  Arg a;
  a.kind = s.coin(100 - plain_percent) ? s.from(kinds) : "C";
  if (a.kind == "int32")
    for (auto& x : p)
      if (x.head<3>().cwiseAbs().maxCoeff() > 1e9) a.kind = "C";
  if (a.kind == "list" && p.empty()) a.kind = "C";
  for (auto& x : p)
    for (int k = 0; k < 3; k++) {
      if (a.kind == "float32") x[k] = (float)x[k];
      if (a.kind[0] == 'i') x[k] = std::round(x[k]);
    }
  RowMat m = rows(p, cols);
  if (cols == 4 && s.coin(40)) {
    // the fourth column may be anything (an intensity, say): points have homogeneous coordinate 1
    const double w = s.one_of<double>({0.0, 7.0, -1.0, 0.3});
    for (Eigen::Index i = 0; i < m.rows(); i++) m(i, 3) = w * (1 + i % 3);
    s.label("fourth-column");
  }
  a.obj = P().layout(py::cast(m), a.kind);
  a.copy = P().np.attr("array")(a.obj, "copy"_a = true);
  return a;
}
inline Eigen::MatrixXd mat(const py::object& o) { return o.cast<Eigen::MatrixXd>(); }

/// A pose as an argument: C or Fortran order, single row strides, or a list of lists.
inline py::object pose_arg(Src& s, const M4& T) {
  RowMat m = T;
  static const std::vector<std::string> kinds = {"C", "F", "wide", "transposed", "list", "reversed"};
  return P().layout(py::cast(m), s.from(kinds));
}
