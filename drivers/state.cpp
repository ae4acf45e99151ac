#include "common.hpp"
#include <PlatoStaticsTypes.hpp>
#include <PlatoAbstractProblem.hpp>
#include <alg/ParallelComm.hpp>
#include <alg/AmgXConfigs.hpp>
#include <string>
typedef Plato::DataMap DM;
// ---- saved states: three saves, every container rewritten in between
#define FILL(d, s, v, w, u) d.mScalarValues["s"] = s; d.scalarVectors["v"] = v; d.scalarMultiVectors["w"] = w; d.scalarArray3Ds["u"] = u;
#define HA S s0, S s1, S s2, S s3, V1 v0, V1 v1, V1 v2, V1 v3, V2 w0, V2 w1, V2 w2, V2 w3, V3 u0, V3 u1, V3 u2, V3 u3
#define HIST DM d; FILL(d, s0, v0, w0, u0) d.saveState(); FILL(d, s1, v1, w1, u1) d.saveState(); FILL(d, s2, v2, w2, u2) d.saveState(); FILL(d, s3, v3, w3, u3)
S d_dm_s(HA, I k){ HIST return d.getState(k).mScalarValues.at("s"); }
S d_dm_v(HA, I k, I i){ HIST return d.getState(k).scalarVectors.at("v")(i); }
S d_dm_w(HA, I k, I i, I j){ HIST return d.getState(k).scalarMultiVectors.at("w")(i, j); }
S d_dm_u(HA, I k, I i, I j, I l){ HIST return d.getState(k).scalarArray3Ds.at("u")(i, j, l); }
S d_dm_now_s(HA){ HIST return d.getState().mScalarValues.at("s"); }
S d_dm_now_v(HA, I i){ HIST return d.getState().scalarVectors.at("v")(i); }
S d_dm_now_w(HA, I i, I j){ HIST return d.getState().scalarMultiVectors.at("w")(i, j); }
S d_dm_now_u(HA, I i, I j, I l){ HIST return d.getState().scalarArray3Ds.at("u")(i, j, l); }
S d_dm_live_s(HA){ HIST return d.mScalarValues.at("s"); }
I d_dm_count(HA){ HIST return d.stateDataMaps.size(); }
I d_dm_nested(HA, I k){ HIST return d.getState(k).stateDataMaps.size(); }
I d_dm_nested_now(HA){ HIST return d.getState().stateDataMaps.size(); }
S d_dm_bad(HA, I k){ HIST return d.getState(k).mScalarValues.at("s"); }
S d_dm_kept_s(S s0){ DM d; d.mScalarValues["s"] = s0; d.saveState(); return d.mScalarValues.at("s"); }
S d_dm_kept_v(V1 v0, I i){ DM d; d.scalarVectors["v"] = v0; d.saveState(); return d.scalarVectors.at("v")(i); }
S d_dm_kept_w(V2 w0, I i, I j){ DM d; d.scalarMultiVectors["w"] = w0; d.saveState(); return d.scalarMultiVectors.at("w")(i, j); }
S d_dm_kept_u(V3 u0, I i, I j, I l){ DM d; d.scalarArray3Ds["u"] = u0; d.saveState(); return d.scalarArray3Ds.at("u")(i, j, l); }
// nothing saved: the current contents, whatever the index
S d_dm_none_s(S s0, I k){ DM d; d.mScalarValues["s"] = s0; return d.getState(k).mScalarValues.at("s"); }
S d_dm_none_v(V1 v0, I k, I i){ DM d; d.scalarVectors["v"] = v0; return d.getState(k).scalarVectors.at("v")(i); }
I d_dm_none_count(S s0, I k){ DM d; d.mScalarValues["s"] = s0; return d.getState(k).stateDataMaps.size(); }
// cleared, then saved again
I d_dm_clear_count(HA){ HIST d.clearStates(); return d.stateDataMaps.size(); }
S d_dm_clear_live(HA){ HIST d.clearStates(); return d.mScalarValues.at("s"); }
S d_dm_clear_v(HA, I i){ HIST d.clearStates(); return d.scalarVectors.at("v")(i); }
S d_dm_clear_again(HA, S s4){ HIST d.clearStates(); d.mScalarValues["s"] = s4; d.saveState(); d.mScalarValues["s"] = s1; return d.getState(0).mScalarValues.at("s"); }
I d_dm_clear_again_count(HA, S s4){ HIST d.clearStates(); d.saveState(); return d.stateDataMaps.size(); }
// what is handed out is a copy; a key absent when the state was saved stays absent in it
S d_dm_copy(HA, S x){ HIST DM e = d.getState(1); e.mScalarValues["s"] = x; return d.getState(1).mScalarValues.at("s"); }
S d_dm_copy_now(HA, S x){ HIST DM e = d.getState(); e.mScalarValues["s"] = x; return d.mScalarValues.at("s"); }
I d_dm_late_count(HA, S x){ HIST d.mScalarValues["late"] = x; return d.getState(2).mScalarValues.count("late"); }
I d_dm_late_now(HA, S x){ HIST d.mScalarValues["late"] = x; return d.getState().mScalarValues.count("late"); }
I d_dm_gone_count(HA){ HIST d.mScalarValues.erase("s"); return d.getState(2).mScalarValues.count("s"); }
#define LONG DM d; for(int q = 0; q < 40; q++){ d.mScalarValues["s"] = a + q; d.saveState(); }
S d_dm_long(S a, I k){ LONG return d.getState(k).mScalarValues.at("s"); }
I d_dm_long_count(S a){ LONG return d.stateDataMaps.size(); }
// ---- solutions
S d_sol1_u(V2 u, I i, I j){ Plato::Solution s(u); return s.State(i, j); }
S d_sol2_u(V2 u, V2 v, I i, I j){ Plato::Solution s(u, v); return s.State(i, j); }
S d_sol2_v(V2 u, V2 v, I i, I j){ Plato::Solution s(u, v); return s.StateDot(i, j); }
S d_sol3_u(V2 u, V2 v, V2 a, I i, I j){ Plato::Solution s(u, v, a); return s.State(i, j); }
S d_sol3_v(V2 u, V2 v, V2 a, I i, I j){ Plato::Solution s(u, v, a); return s.StateDot(i, j); }
S d_sol3_a(V2 u, V2 v, V2 a, I i, I j){ Plato::Solution s(u, v, a); return s.StateDotDot(i, j); }
I d_sol1_size(V2 u){ Plato::Solution s(u); return s.StateDot.extent(0) + s.StateDotDot.extent(0); }
I d_sol2_size(V2 u, V2 v){ Plato::Solution s(u, v); return s.StateDotDot.extent(0); }
// ---- the problem interface
struct Prob : public Plato::AbstractProblem
{
    typedef Plato::ScalarVector W;
    Plato::Adjoint getAdjoint(){ return Plato::Adjoint(); }
    Plato::Solution getGlobalSolution(){ return Plato::Solution(); }
    void setGlobalSolution(const Plato::Solution &){}
    void applyConstraints(const Teuchos::RCP<Plato::CrsMatrixType> &, const W &){}
    void applyBoundaryLoads(const W &){}
    void updateProblem(const W &, const Plato::Solution &){}
    Plato::OrdinalType getNumSolutionDofs(){ return 0; }
    Plato::Solution solution(const W &){ return Plato::Solution(); }
    S criterionValue(const W &, const std::string &){ return 0; }
    S criterionValue(const W &, const Plato::Solution &, const std::string &){ return 0; }
    W criterionGradient(const W &, const std::string &){ return W(); }
    W criterionGradientX(const W &, const std::string &){ return W(); }
    W criterionGradient(const W &, const Plato::Solution &, const std::string &){ return W(); }
    W criterionGradientX(const W &, const Plato::Solution &, const std::string &){ return W(); }
};
S d_prob_map(S x){ Prob p; p.getDataMap().mScalarValues["s"] = x; return p.mDataMap.mScalarValues.at("s"); }
S d_prob_map2(S x){ Prob p; p.mDataMap.mScalarValues["s"] = x; return p.getDataMap().mScalarValues.at("s"); }
I d_prob_linear(){ Prob p; return p.criterionIsLinear("volume"); }
void d_prob_getlocal(){ Prob p; auto v = p.getLocalState(); }
void d_prob_setlocal(V2 u){ Prob p; p.setLocalState(u); }
// ---- reductions over the processes of a machine
typedef Plato::Comm::Machine MC;
S d_comm_max(const MC & m, S x){ return Plato::Comm::max(m, x); }
S d_comm_min(const MC & m, S x){ return Plato::Comm::min(m, x); }
S d_comm_sum(const MC & m, S x){ return Plato::Comm::sum(m, x); }
I d_comm_size(const MC & m){ return Plato::Comm::size(m); }
I d_comm_rank(const MC & m){ return Plato::Comm::rank(m); }
S d_comm_twice(const MC & m, S x, S y){ S a = Plato::Comm::sum(m, x); S b = Plato::Comm::max(m, y); return a - b; }
#define AR(n) \
S d_comm_all_##n(const MC & m, S a, S b, S c, S d, S e, I k){ S in[6] = {a, b, c, d, e, 7.0}; S out[6] = {1.0, 2.0, 3.0, 4.0, 5.0, 6.0}; Plato::Comm::allReduce(m, n, in, out); return out[k]; } \
S d_comm_allin_##n(const MC & m, S a, S b, S c, S d, S e, I k){ S in[6] = {a, b, c, d, e, 7.0}; S out[6] = {1.0, 2.0, 3.0, 4.0, 5.0, 6.0}; Plato::Comm::allReduce(m, n, in, out); return in[k]; }
void d_comm_big(const MC & m, V1 x, V1 y){ Plato::Comm::allReduce(m, 1200, x.data(), y.data()); }
AR(0) AR(1) AR(2) AR(5)
// ---- AmgX configurations
std::string d_amgx(std::string name, S tol, I it, bool ab){ return Plato::configurationString(name, tol, it, ab); }
std::string d_amgx_3(std::string name, S tol, I it){ return Plato::configurationString(name, tol, it); }
std::string d_amgx_1(std::string name){ return Plato::configurationString(name); }
