#include "common.hpp"
#include <Plato_AlgebraicRocketModel.hpp>
#include <Plato_Cylinder.hpp>
#include <Plato_RocketMocks.hpp>
#include <NewtonRaphsonUtilities.hpp>
#include <TensorPNorm.hpp>
typedef Teuchos::ParameterList PL;
typedef Plato::ScalarVector W;
struct EV { typedef double ResultScalarType; typedef double ControlScalarType; typedef double ConfigScalarType; };
// tensor norms chosen by the deck
#define F(n) \
void d_norm_eval_##n(PL pl, V1 out, V2 t, V2 z, V1 vol){ Plato::TensorNormFactory<n,EV> f; auto r = f.create(pl); r->evaluate(out, t, z, vol); } \
S d_norm_post_##n(PL pl, S v){ Plato::TensorNormFactory<n,EV> f; auto r = f.create(pl); r->postEvaluate(v); return v; } \
void d_norm_postv_##n(PL pl, W g, S v){ Plato::TensorNormFactory<n,EV> f; auto r = f.create(pl); r->postEvaluate(g, v); } \
void d_wnorm_##n(PL pl, I c, V1 out, V2 t, S p, V1 vol){ Plato::WeightedNormFunctor<n> f(pl); f(c, out, t, p, vol); } \
void d_pnorm_##n(PL pl, I c, V1 out, V2 t, S p, V1 vol){ Plato::TensorPNormFunctor<n> f(pl); f(c, out, t, p, vol); } \
void d_barlat_##n(PL pl, I c, V1 out, V2 t, S p, V1 vol){ Plato::BarlatNormFunctor<n> f(pl); f(c, out, t, p, vol); }
F(1) F(3) F(6)
#undef F
// Newton-Raphson bookkeeping
typedef Plato::NewtonRaphsonOutputData ND;
#define ERR(f) \
S d_nr_##f##_measure(S cur, S ref, S old, I it){ ND d; d.mCurrentNorm = cur; d.mReferenceNorm = ref; d.mNormMeasure = old; d.mCurrentIteration = it; Plato::compute_##f##_residual_norm_error(d); return d.mNormMeasure; } \
S d_nr_##f##_ref(S cur, S ref, S old, I it){ ND d; d.mCurrentNorm = cur; d.mReferenceNorm = ref; d.mNormMeasure = old; d.mCurrentIteration = it; Plato::compute_##f##_residual_norm_error(d); return d.mReferenceNorm; } \
S d_nr_##f##_cur(S cur, S ref, S old, I it){ ND d; d.mCurrentNorm = cur; d.mReferenceNorm = ref; d.mNormMeasure = old; d.mCurrentIteration = it; Plato::compute_##f##_residual_norm_error(d); return d.mCurrentNorm; } \
S d_nr_##f##_three(S a, S b, S e){ ND d; d.mCurrentNorm = a; Plato::compute_##f##_residual_norm_error(d); d.mCurrentIteration = 1; d.mCurrentNorm = b; Plato::compute_##f##_residual_norm_error(d); d.mCurrentIteration = 2; d.mCurrentNorm = e; Plato::compute_##f##_residual_norm_error(d); return d.mNormMeasure; } \
S d_nr_##f##_first(S a){ ND d; d.mCurrentNorm = a; Plato::compute_##f##_residual_norm_error(d); return d.mNormMeasure; }
ERR(relative) ERR(absolute)
int d_nr_crit_abs(){ return Plato::newton_raphson_stopping_criterion("Absolute Residual Norm"); }
int d_nr_crit_absl(){ return Plato::newton_raphson_stopping_criterion("absolute residual norm"); }
int d_nr_crit_rel(){ return Plato::newton_raphson_stopping_criterion("Relative Residual Norm"); }
int d_nr_crit_relu(){ return Plato::newton_raphson_stopping_criterion("RELATIVE RESIDUAL NORM"); }
int d_nr_crit_bad(){ return Plato::newton_raphson_stopping_criterion("absolute residual"); }
int d_nr_crit_bad2(){ return Plato::newton_raphson_stopping_criterion("displacement norm"); }
int d_nr_crit_bad3(){ return Plato::newton_raphson_stopping_criterion(""); }
int d_nr_crit_bad4(){ return Plato::newton_raphson_stopping_criterion("relative residual norm x"); }
int d_nr_crit_bad5(){ return Plato::newton_raphson_stopping_criterion("relative residual norms"); }
int d_nr_crit_bad6(){ return Plato::newton_raphson_stopping_criterion("not absolute residual norm"); }
int d_nr_crit_bad7(){ return Plato::newton_raphson_stopping_criterion("absolute residual norm (2)"); }
int d_nr_crit_bad8(){ return Plato::newton_raphson_stopping_criterion("relative-residual-norm"); }
int d_nr_crit_bad9(){ return Plato::newton_raphson_stopping_criterion("an relative residual norm"); }
int d_nr_crit_bad10(){ return Plato::newton_raphson_stopping_criterion("relative"); }
int d_nr_crit_bad11(){ return Plato::newton_raphson_stopping_criterion("absolute"); }
#define PR(n, f) void d_nr_print_##n(){ ND d; std::ofstream o; Plato::f(d, o); } void d_nr_print_##n##_off(){ ND d; d.mWriteOutput = false; std::ofstream o; Plato::f(d, o); }
PR(stop, print_newton_raphson_stop_criterion) PR(diag, print_newton_raphson_diagnostics) PR(head, print_newton_raphson_diagnostics_header)
int d_nr_crit_any(std::string s){ return Plato::newton_raphson_stopping_criterion(s); }
// rocket
typedef Plato::ProblemParams PP;
#define CYL PP p = Plato::RocketMocks::set_linear_burn_rate_problem(rmax, len, r0, br, sl); p.mPropellantDensity = rho; Plato::Cylinder g; g.initialize(p);
#define CA S rmax, S len, S r0, S br, S sl, S rho
S d_cyl_area(CA){ CYL return g.area(); }
S d_cyl_mass(CA){ CYL return g.referenceMassProductionRate(); }
S d_cyl_rad(CA){ CYL return g.radius(); }
S d_cyl_len(CA){ CYL return g.length(); }
S d_cyl_evolve(CA, S dt, S m){ CYL g.evolveGeometry(dt, m); return g.radius(); }
S d_cyl_evolve2(CA, S dt, S m, S dt2, S m2){ CYL g.evolveGeometry(dt, m); g.evolveGeometry(dt2, m2); return g.radius(); }
S d_cyl_evolvelen(CA, S dt, S m){ CYL g.evolveGeometry(dt, m); return g.length(); }
S d_cyl_evolvemass(CA, S dt, S m){ CYL g.evolveGeometry(dt, m); return g.referenceMassProductionRate(); }
S d_cyl_update(CA, S l2, S r2, S b2, S rho2){ CYL PP q = Plato::RocketMocks::set_constant_burn_rate_problem(rmax, l2, r2, b2); q.mPropellantDensity = rho2; g.updateGeometry(q); return g.referenceMassProductionRate(); }
S d_cyl_grad0(CA){ CYL std::vector<double> o(2); g.gradient(o); return o[0]; }
S d_cyl_grad1(CA){ CYL std::vector<double> o(2); g.gradient(o); return o[1]; }
S d_mock_c(CA, I k){ PP p = Plato::RocketMocks::set_constant_burn_rate_problem(rmax, len, r0, br); return k == 0 ? p.mGeometry[0] : (k == 1 ? p.mGeometry[1] : (k == 2 ? p.mGeometry[2] : (k == 3 ? p.mRefBurnRate[0] : p.mRefBurnRate[1]))); }
// burn histories: MAXIT newton corrections at most, NT steps of dt over a total burn time
#define RK(MAXIT, TOT) Plato::AlgebraicRocketInputs in; in.mAlpha = al; in.mRefPressure = pr; in.mThroatDiameter = dth; in.mAmbientPressure = pa; in.mCharacteristicVelocity = cv; in.mDeltaTime = 1.0; in.mTotalBurnTime = TOT; in.mNewtonTolerance = 1e-6; in.mMaxNumNewtonItr = MAXIT; \
 PP p = Plato::RocketMocks::set_linear_burn_rate_problem(rmax, len, r0, br, sl); p.mPropellantDensity = rho; auto g = std::make_shared<Plato::Cylinder>(); Plato::AlgebraicRocketModel m(in, g); m.disableOutput(); m.initialize(p);
#define RA S al, S pr, S dth, S pa, S cv, S rmax, S len, S r0, S br, S sl, S rho
#define R(n, MAXIT, TOT) \
int d_rk_n_##n(RA){ RK(MAXIT, TOT) m.solve(); return m.getTimeProfile().size(); } \
int d_rk_np_##n(RA){ RK(MAXIT, TOT) m.solve(); return m.getPressuresProfile().size(); } \
int d_rk_nt_##n(RA){ RK(MAXIT, TOT) m.solve(); return m.getThrustProfile().size(); } \
S d_rk_time_##n(RA, I k){ RK(MAXIT, TOT) m.solve(); return m.getTimeProfile()[k]; } \
S d_rk_pres_##n(RA, I k){ RK(MAXIT, TOT) m.solve(); return m.getPressuresProfile()[k]; } \
S d_rk_thr_##n(RA, I k){ RK(MAXIT, TOT) m.solve(); return m.getThrustProfile()[k]; } \
S d_rk_rad_##n(RA){ RK(MAXIT, TOT) m.solve(); return g->radius(); }
R(1, 0, 1.0) R(2, 0, 2.0) R(3, 0, 3.0) R(4, 1, 2.0)
R(5, 1, 1.0)
#define RS Plato::AlgebraicRocketInputs in; in.mMaxNumNewtonItr = 7; in.mNewtonTolerance = 1e-6; PP p = Plato::RocketMocks::set_constant_burn_rate_problem(rmax, len, r0, br); p.mPropellantDensity = rho; auto g = std::make_shared<Plato::Cylinder>(); Plato::AlgebraicRocketModel m(in, g); m.disableOutput(); \
 m.setMaxNumIterations(0); m.setRefPressure(pr); m.setBurnRateExponent(al); m.setThroatDiameter(dth); m.setCharacteristicVelocity(cv); m.setAmbientPressure(pa); m.setBurnTimeStep(0.5); m.setTotalBurnTime(1.0); m.initialize(p);
int d_rks_n(RA){ RS m.solve(); return m.getThrustProfile().size(); }
int d_rks_steps(RA){ RS return p.mNumTimeSteps; }
S d_rks_time(RA, I k){ RS m.solve(); return m.getTimeProfile()[k]; }
S d_rks_pres(RA, I k){ RS m.solve(); return m.getPressuresProfile()[k]; }
S d_rks_thr(RA, I k){ RS m.solve(); return m.getThrustProfile()[k]; }
S d_rks_rad(RA){ RS m.solve(); return g->radius(); }
// solved again after the geometry is initialised again: the same history
int d_rkr_n(RA){ RS m.solve(); m.initialize(p); m.solve(); return m.getThrustProfile().size(); }
int d_rkr_nt(RA){ RS m.solve(); m.initialize(p); m.solve(); return m.getTimeProfile().size(); }
int d_rkr_np(RA){ RS m.solve(); m.initialize(p); m.solve(); return m.getPressuresProfile().size(); }
S d_rkr_time(RA, I k){ RS m.solve(); m.initialize(p); m.solve(); return m.getTimeProfile()[k]; }
S d_rkr_pres(RA, I k){ RS m.solve(); m.initialize(p); m.solve(); return m.getPressuresProfile()[k]; }
S d_rkr_thr(RA, I k){ RS m.solve(); m.initialize(p); m.solve(); return m.getThrustProfile()[k]; }
S d_rkr_rad(RA){ RS m.solve(); m.initialize(p); m.solve(); return g->radius(); }
// every parameter changed between two solves: the history follows the new ones
#define RT m.solve(); m.setRefPressure(pr2); m.setBurnRateExponent(al2); m.setThroatDiameter(dth2); m.setCharacteristicVelocity(cv2); m.setAmbientPressure(pa2); m.setBurnTimeStep(0.25); m.setTotalBurnTime(0.5); PP p2 = Plato::RocketMocks::set_constant_burn_rate_problem(rmax, len2, r02, br2); p2.mPropellantDensity = rho2; m.initialize(p2); m.solve();
#define RB RA, S pr2, S al2, S dth2, S cv2, S pa2, S len2, S r02, S br2, S rho2
int d_rkt_n(RB){ RS RT return m.getThrustProfile().size(); }
int d_rkt_nt(RB){ RS RT return m.getTimeProfile().size(); }
int d_rkt_np(RB){ RS RT return m.getPressuresProfile().size(); }
S d_rkt_time(RB, I k){ RS RT return m.getTimeProfile()[k]; }
S d_rkt_pres(RB, I k){ RS RT return m.getPressuresProfile()[k]; }
S d_rkt_thr(RB, I k){ RS RT return m.getThrustProfile()[k]; }
S d_rkt_rad(RB){ RS RT return g->radius(); }
// a long burn: a pressure-independent burn rate (alpha = 0), one correction per step
#define RL Plato::AlgebraicRocketInputs in; in.mMaxNumNewtonItr = 0; in.mNewtonTolerance = 1e-6; in.mAlpha = 0.0; in.mRefPressure = pr; in.mThroatDiameter = dth; in.mAmbientPressure = pa; in.mCharacteristicVelocity = cv; in.mDeltaTime = 0.5; in.mTotalBurnTime = 150.0; \
 PP p = Plato::RocketMocks::set_constant_burn_rate_problem(rmax, len, r0, br); p.mPropellantDensity = rho; auto g = std::make_shared<Plato::Cylinder>(); Plato::AlgebraicRocketModel m(in, g); m.disableOutput(); m.initialize(p); m.solve();
int d_rkl_n(RA){ RL return m.getThrustProfile().size(); }
int d_rkl_nt(RA){ RL return m.getTimeProfile().size(); }
int d_rkl_np(RA){ RL return m.getPressuresProfile().size(); }
int d_rkl_steps(RA){ RL return p.mNumTimeSteps; }
S d_rkl_time(RA, I k){ RL return m.getTimeProfile()[k]; }
S d_rkl_pres(RA, I k){ RL return m.getPressuresProfile()[k]; }
S d_rkl_thr(RA, I k){ RL return m.getThrustProfile()[k]; }
S d_rkl_rad(RA){ RL return g->radius(); }
// defaults of the inputs
S d_rkd(I k){ Plato::AlgebraicRocketInputs i; return k == 0 ? i.mAlpha : k == 1 ? i.mDeltaTime : k == 2 ? i.mRefPressure : k == 3 ? i.mTotalBurnTime : k == 4 ? i.mThroatDiameter : k == 5 ? i.mNewtonTolerance : k == 6 ? i.mAmbientPressure : k == 7 ? i.mCharacteristicVelocity : (double)i.mMaxNumNewtonItr; }
