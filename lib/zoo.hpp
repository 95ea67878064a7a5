// The steppers the integrate functions / iterators are exercised with.
#ifndef VERIF_ZOO_HPP
#define VERIF_ZOO_HPP
#include "sys.hpp"
#include <boost/numeric/ublas/vector.hpp>
#include <boost/numeric/ublas/matrix.hpp>
#include <boost/numeric/odeint/util/ublas_wrapper.hpp>
#include <boost/numeric/odeint/stepper/euler.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta4_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_cash_karp54_classic.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_dopri5.hpp>
#include <boost/numeric/odeint/stepper/runge_kutta_fehlberg78.hpp>
#include <boost/numeric/odeint/stepper/modified_midpoint.hpp>
#include <boost/numeric/odeint/stepper/extrapolation_stepper.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth.hpp>
#include <boost/numeric/odeint/stepper/adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/adaptive_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_adams_bashforth_moulton.hpp>
#include <boost/numeric/odeint/stepper/controlled_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/dense_output_runge_kutta.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer.hpp>
#include <boost/numeric/odeint/stepper/bulirsch_stoer_dense_out.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_controller.hpp>
#include <boost/numeric/odeint/stepper/rosenbrock4_dense_output.hpp>
#include <boost/numeric/odeint/stepper/generation.hpp>
namespace Z {
namespace ode = boost::numeric::odeint; namespace ub = boost::numeric::ublas;
typedef std::vector<double> vec; typedef ub::vector<double> uvec; typedef ub::matrix<double> umat;
struct Jac { const T::Prob *p; void operator()(const uvec &x, umat &J, double t, uvec &d) const { p->jac<double>(x, J, t, d); } };
struct SysE { typedef vec state; static state make(const std::vector<double> &v) { return v; } typedef T::Sys sys; static sys system(const T::Prob &p, T::Log &l) { return T::Sys(p, l); } };
struct SysI { typedef uvec state; static state make(const std::vector<double> &v) { state x(v.size()); for (size_t i = 0; i < v.size(); ++i) x[i] = v[i]; return x; } typedef std::pair<T::Sys, Jac> sys; static sys system(const T::Prob &p, T::Log &l) { return sys(T::Sys(p, l), Jac{&p}); } };
enum Kind { PLAIN, CTRL, DENSE };
// f(name, kind, Sys tag, stepper maker)
// plain
template <class F> int zoo_plain(F &f, int which) { int n = 0;
    if (which == n++) f("rk4", PLAIN, SysE(), [] { return ode::runge_kutta4<vec>(); });
    if (which == n++) f("ck54", PLAIN, SysE(), [] { return ode::runge_kutta_cash_karp54<vec>(); });
    if (which == n++) f("dopri5", PLAIN, SysE(), [] { return ode::runge_kutta_dopri5<vec>(); });
    if (which == n++) f("rosenbrock4", PLAIN, SysI(), [] { return ode::rosenbrock4<double>(); });
    if (which == n++) f("ab4", PLAIN, SysE(), [] { return ode::adams_bashforth<4, vec>(); });
    if (which == n++) f("abm4", PLAIN, SysE(), [] { return ode::adams_bashforth_moulton<4, vec>(); });
    if (which == n++) f("mid", PLAIN, SysE(), [] { return ode::modified_midpoint<vec>(4); });
    return n; }
template <class F> int zoo_ctrl(F &f, int which, double ea, double er) { int n = 0;
    if (which == n++) f("c-ck54", CTRL, SysE(), [=] { return ode::make_controlled(ea, er, ode::runge_kutta_cash_karp54<vec>()); });
    if (which == n++) f("c-dopri5", CTRL, SysE(), [=] { return ode::make_controlled(ea, er, ode::runge_kutta_dopri5<vec>()); });
    if (which == n++) f("c-rkf78", CTRL, SysE(), [=] { return ode::make_controlled(ea, er, ode::runge_kutta_fehlberg78<vec>()); });
    if (which == n++) f("bs", CTRL, SysE(), [=] { return ode::bulirsch_stoer<vec>(ea, er, 1, 1); });
    if (which == n++) f("c-ros", CTRL, SysI(), [=] { return ode::make_controlled(ea, er, ode::rosenbrock4<double>()); });
    return n; }
template <class F> int zoo_dense(F &f, int which, double ea, double er) { int n = 0;
    if (which == n++) f("d-dopri5", DENSE, SysE(), [=] { return ode::make_dense_output(ea, er, ode::runge_kutta_dopri5<vec>()); });
    if (which == n++) f("d-bs", DENSE, SysE(), [=] { return ode::bulirsch_stoer_dense_out<vec>(ea, er, 1, 1); });
    if (which == n++) f("d-ros", DENSE, SysI(), [=] { return ode::make_dense_output(ea, er, ode::rosenbrock4<double>()); });
    return n; }
enum { NPLAIN = 7, NCTRL = 5, NDENSE = 3 };
} // namespace Z
#endif
