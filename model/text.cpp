// Numbers as text: what is written stands for the number rounded to the stream's precision; reading it back yields that number.
#include <istream>
#include <ostream>
#include <cstdio>
#include <string>
#include <vector>
#include <cmath>
#include "sx.h"
static std::vector<double>& vals() { static std::vector<double> v; return v; }
static const double BASE = 700000000.5;
extern "C" double sx_text_value(double d) { if (d >= BASE && d < BASE + (double)vals().size()) { long k = (long)(d - BASE); if (BASE + k == d) return vals()[k]; } return d; }
static double rounded(double v, int p, bool fixed) {
  if (p >= 17) return v; double e = 0.5; int k = fixed ? p : (p < 1 ? 1 : p) - 1; for (int i = 0; i < k; i++) e /= 10; if (!fixed) e *= v < 0 ? -v : v;
  double r = sx_fresh("text", -1e12, 1e12); sx_assume(r - v <= e); sx_assume(v - r <= e); return r; }
namespace std {
template <> template <> ostream& ostream::_M_insert<double>(double v) { bool fx = (flags() & ios_base::floatfield) == ios_base::fixed; if (!sx_symbolic(v)) { char c[400]; int n = snprintf(c, sizeof c, fx ? "%.*f" : "%.*g", (int)precision(), v); return write(c, n); } vals().push_back(rounded(v, (int)precision(), fx)); string t = to_string(700000000 + (long)vals().size() - 1) + ".5"; return write(t.c_str(), t.size()); }
template <> template <> istream& istream::_M_extract<double>(double& v) {
  sentry s(*this, false); if (!s) return *this; string t; auto* b = rdbuf(); int c = b->sgetc();
  while (c != EOF && ((c >= '0' && c <= '9') || c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E')) { t += (char)c; c = b->snextc(); }
  if (c == EOF) setstate(ios_base::eofbit); if (t.empty()) { v = 0; setstate(ios_base::failbit); return *this; }
  v = strtod(t.c_str(), nullptr); return *this; }
}
