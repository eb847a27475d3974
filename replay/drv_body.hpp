#include "booz_xform.hpp"
#include "init_trig.hpp"
using namespace booz_xform;
static std::ofstream out;
static void js(const std::string& s) {
  out << '"';
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') out << '\\' << c;
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); out << b; }
    else out << c;
  }
  out << '"';
}
static void pv(int v) { out << v; }
static void pv(bool v) { out << (v ? "true" : "false"); }
static void pv(double v) { char b[64]; snprintf(b, 64, "\"%a\"", v); out << b; }
static void pv(float v) { pv((double) v); }
static void pv(const std::string& s) { js(s); }
template <class S, int R, int C, int O, int a, int b>
static void pv(const Eigen::Array<S, R, C, O, a, b>& m) {
  if (C == 1) { out << "[" << m.rows() << ",["; }
  else { out << "[" << m.rows() << "," << m.cols() << ",["; }
  bool first = true;
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) {
      if (!first) out << ",";
      first = false;
      pv(m(i, j));
    }
  out << "]]";
}
template <class S, int R, int C, int O, int a, int b>
static void pv(const Eigen::Matrix<S, R, C, O, a, b>& m) { pv(m.array().eval()); }
template <class T> static void pv(const std::vector<T>& m) {
  out << "[" << m.size() << ",[";
  for (size_t i = 0; i < m.size(); i++) { if (i) out << ","; pv(m[i]); }
  out << "]]";
}
template <class T> static void pv(const T&) { out << "null"; }

static double rd(std::istream& f) { std::string s; f >> s; return strtod(s.c_str(), nullptr); }
static void gv(std::istream& f, int& v) { long x; f >> x; v = (int) x; }
static void gv(std::istream& f, bool& v) { int x; f >> x; v = x; }
static void gv(std::istream& f, double& v) { v = rd(f); }
static void gv(std::istream& f, std::string& s) { size_t n; f >> n; f.get(); s.resize(n); f.read(&s[0], n); }
static void gs(std::istream& f, int& v) { gv(f, v); }
static void gs(std::istream& f, double& v) { v = rd(f); }
static void gs(std::istream& f, float& v) { v = (float) rd(f); }
template <class S, int R, int C, int O, int a, int b>
static void gv(std::istream& f, Eigen::Array<S, R, C, O, a, b>& m) {
  int r, c = 1;
  f >> r;
  if (C != 1) f >> c;
  m.resize(r, c);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { S v; gs(f, v); m(i, j) = v; }
}
template <class S, int R, int C, int O, int a, int b>
static void gv(std::istream& f, Eigen::Matrix<S, R, C, O, a, b>& m) {
  int r, c = 1;
  f >> r;
  if (C != 1) f >> c;
  m.resize(r, c);
  for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) { S v; gs(f, v); m(i, j) = v; }
}
template <class T> static void gv(std::istream&, T&) { throw std::runtime_error("cannot set this field"); }
#include "fields.inc"
