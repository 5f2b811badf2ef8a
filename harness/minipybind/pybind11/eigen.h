#pragma once
#include "pybind11.h"
#include <Eigen/Core>
namespace pybind11 { namespace detail {
inline object numpy() { return check(PyImport_ImportModule("numpy")); }
// dense double matrices; a vector type is a one-dimensional array
template <class S, int R, int C, int O, int MR, int MC> struct conv<Eigen::Matrix<S, R, C, O, MR, MC>> {
  typedef Eigen::Matrix<S, R, C, O, MR, MC> M;
  static const bool vec = R == 1 || C == 1;
  static PyObject *to(const M &m) {
    std::vector<double> v;
    for (Eigen::Index i = 0; i < m.rows(); i++) for (Eigen::Index j = 0; j < m.cols(); j++) v.push_back(m(i, j));
    object b = check(PyBytes_FromStringAndSize(reinterpret_cast<const char *>(v.data()), v.size() * sizeof(double)));
    object a = v.empty() ? check(PyObject_CallMethod(numpy().ptr(), "zeros", "i", 0)) : check(PyObject_CallMethod(numpy().ptr(), "frombuffer", "O", b.ptr()));
    object c = check(PyObject_CallMethod(a.ptr(), "copy", nullptr));
    PyObject *r = vec ? PyObject_CallMethod(c.ptr(), "reshape", "n", (Py_ssize_t)m.size())
                      : PyObject_CallMethod(c.ptr(), "reshape", "nn", (Py_ssize_t)m.rows(), (Py_ssize_t)m.cols());
    return r;
  }
  static M from(PyObject *o) {
    PyObject *x = PyObject_CallMethod(numpy().ptr(), "asarray", "Os", o, "float64");
    if (!x) { PyErr_Clear(); throw no_match(); }
    object a = object::steal(x);
    object shape = check(PyObject_GetAttrString(a.ptr(), "shape"));
    object flat = check(PyObject_CallMethod(a.ptr(), "ravel", nullptr));
    object l = check(PyObject_CallMethod(flat.ptr(), "tolist", nullptr));
    auto v = conv<std::vector<double>>::from(l.ptr());
    auto s = conv<std::vector<long>>::from(shape.ptr());
    Eigen::Index r, c;
    if (s.size() == 1) { r = R == 1 ? 1 : s[0]; c = R == 1 ? s[0] : 1; }
    else if (s.size() == 2) { r = s[0]; c = s[1]; }
    else throw no_match();
    if ((R != Eigen::Dynamic && R != r) || (C != Eigen::Dynamic && C != c)) throw no_match();
    M m(r, c);
    for (Eigen::Index i = 0; i < r; i++) for (Eigen::Index j = 0; j < c; j++) m(i, j) = v[i * c + j];
    return m;
  }
};
} }
