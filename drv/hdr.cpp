// C23: every generation header is usable on its own.  VHDR = header, VST = stepper, DENSE = has dense output
#include VHDR
#include "sys.hpp"
#include <cmath>
namespace ode = boost::numeric::odeint; typedef std::vector<double> vec;
#ifdef ROS
typedef boost::numeric::ublas::vector<double> st; struct F { void operator()(const st &x, st &d, double t) const { d[0] = -x[0] + std::cos(t); } }; struct J { void operator()(const st &, boost::numeric::ublas::matrix<double> &m, double t, st &d) const { m(0, 0) = -1; d[0] = -std::sin(t); } }; static std::pair<F, J> sys() { return std::make_pair(F(), J()); }
#else
typedef vec st; struct F { void operator()(const st &x, st &d, double t) const { d[0] = -x[0] + std::cos(t); } }; static F sys() { return F(); }
#endif
int main(int c, char **v) {
    H::init(c, v, "hdr");
    H::group("header", 40, [](H::Rng &r) { double t = r.uni(-3, 3), t0 = t, dt = r.logu(1e-3, 0.1), e = r.logu(1e-7, 1e-4), C = r.uni(-1, 1); H::describe("t=", t, " dt=", dt, " eps=", e); H::nontrivial(); auto ex = [&](double s) { return (std::cos(s) + std::sin(s)) / 2 + C * std::exp(-(s - t0)); }; st x(1); x[0] = ex(t);
        auto s = ode::make_controlled(e, e, VST()); for (int i = 0; i < 40; ++i) s.try_step(sys(), x, t, dt); HCHECK(t > t0 && std::fabs(x[0] - ex(t)) < 100 * e * (1 + t - t0), "controlled", x[0], " expected ", ex(t));
        auto m = ode::make_controlled(e, e, 0.01, VST()); for (int i = 0; i < 40; ++i) { double b = t; m.try_step(sys(), x, t, dt = std::min(dt, 0.01)); HCHECK(t - b <= 0.01 + 1e-12 && dt <= 0.01 + 1e-12, "max-step", t - b, " ", dt); }
#ifdef DENSE
        auto d = ode::make_dense_output(e, e, VST()); st x0(1); x0[0] = ex(t0); d.initialize(x0, t0, 0.01); for (int i = 0; i < 10; ++i) { auto q = d.do_step(sys()); d.calc_state((q.first + q.second) / 2, x0); HCHECK(std::fabs(x0[0] - ex((q.first + q.second) / 2)) < 1e-3, "dense", x0[0]); }
#endif
    });
    return H::finish();
}
