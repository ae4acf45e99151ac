// Gathering of nodal data into cells, element geometry, assembly and sparse structure on an unknown or constant mesh.
#include "common.hpp"
#include "omega/Omega_h_stub.hpp"
#include "WorksetBase.hpp"
#include "SimplexThermal.hpp"
#include "SimplexPlasticity.hpp"
typedef Plato::LocalOrdinalVector IV; typedef Plato::ScalarVector SV;
typedef Plato::CrsMatrixType MT; typedef Teuchos::RCP<MT> MP;
#define MESH(D) Omega_h::Graph gr; gr.a2ab = Omega_h::LOs(ga); gr.ab2b = Omega_h::LOs(gb); \
 Omega_h::Mesh mesh(D, nc, nv, Omega_h::LOs(ev), Omega_h::LOs(sv), Omega_h::Reals(x), gr);
#define MARGS I nc, I nv, IV ev, IV sv, SV x, IV ga, IV gb
#define DOMAIN Omega_h::MeshSets sets; sets[Omega_h::ELEM_SET]["block"] = Omega_h::LOs(lid); \
 Plato::SpatialDomain dom(mesh, sets, dl, "domain");
template<int D> using Mech = Plato::SimplexMechanics<D>;
template<int D> using Therm = Plato::SimplexThermal<D>;
template<int D> using Plast = Plato::SimplexPlasticity<D>;
// gathering
#define G(P,D) \
 void d_state_##P##_##D(MARGS, V1 u, V2 ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetState(u, ws); } \
 void d_stated_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V1 u, V2 ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetState(u, ws, dom); } \
 void d_control_##P##_##D(MARGS, V1 u, V2 ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetControl(u, ws); } \
 void d_controld_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V1 u, V2 ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetControl(u, ws, dom); } \
 void d_config_##P##_##D(MARGS, V3 ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetConfig(ws); } \
 void d_configd_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V3 ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetConfig(ws, dom); } \
 int d_ncells_##P##_##D(MARGS){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); return w.numCells(); } \
 int d_nnodes_##P##_##D(MARGS){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); return w.numNodes(); }
#define GF(P,D) \
 void d_statef_##P##_##D(MARGS, V1 u, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::StateFad> ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetState(u, ws); } \
 void d_statefd_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V1 u, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::StateFad> ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetState(u, ws, dom); } \
 void d_controlf_##P##_##D(MARGS, V1 u, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::ControlFad> ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetControl(u, ws); } \
 void d_controlfd_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V1 u, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::ControlFad> ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetControl(u, ws, dom); } \
 void d_configf_##P##_##D(MARGS, Plato::ScalarArray3DT<typename Plato::SimplexFadTypes<P<D>>::ConfigFad> ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetConfig(ws); } \
 void d_configfd_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, Plato::ScalarArray3DT<typename Plato::SimplexFadTypes<P<D>>::ConfigFad> ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetConfig(ws, dom); }
#define GL(P,D) \
 void d_local_##P##_##D(MARGS, V1 u, V2 ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetLocalState(u, ws); } \
 void d_locald_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V1 u, V2 ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetLocalState(u, ws, dom); } \
 void d_node_##P##_##D(MARGS, V1 u, V2 ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetNodeState(u, ws); } \
 void d_noded_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V1 u, V2 ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetNodeState(u, ws, dom); } \
 void d_localf_##P##_##D(MARGS, V1 u, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::LocalStateFad> ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetLocalState(u, ws); } \
 void d_localfd_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V1 u, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::LocalStateFad> ws){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.worksetLocalState(u, ws, dom); } \
 void d_nodef_##P##_##D(MARGS, V1 u, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::NodeStateFad> ws){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.worksetNodeState(u, ws); } \
 void d_flat_##P##_##D(MARGS, V2 ws, V1 out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.assembleVectorGradientC(ws, out); }
// assembly
#define A(P,D) \
 void d_res_##P##_##D(MARGS, V2 r, V1 out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.assembleResidual(r, out); } \
 void d_resd_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, V2 r, V1 out){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); w.assembleResidual(r, out, dom); } \
 void d_gradu_##P##_##D(MARGS, V2 r, V1 out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.assembleVectorGradientU(r, out); } \
 void d_gradx_##P##_##D(MARGS, V2 r, V1 out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.assembleVectorGradientX(r, out); } \
 void d_gradz_##P##_##D(MARGS, V2 r, V1 out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.assembleScalarGradientZ(r, out); } \
 void d_graduf_##P##_##D(MARGS, Plato::ScalarVectorT<typename Plato::SimplexFadTypes<P<D>>::StateFad> r, V1 out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.assembleVectorGradientFadU(r, out); } \
 void d_gradxf_##P##_##D(MARGS, Plato::ScalarVectorT<typename Plato::SimplexFadTypes<P<D>>::ConfigFad> r, V1 out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.assembleVectorGradientFadX(r, out); } \
 void d_gradzf_##P##_##D(MARGS, Plato::ScalarVectorT<typename Plato::SimplexFadTypes<P<D>>::ControlFad> r, V1 out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); w.assembleScalarGradientFadZ(r, out); }
#define J(P,D,R,C) \
 void d_jac_##P##_##D(MARGS, V3 j, SV out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); MP m = Plato::CreateBlockMatrix<MT,R,C>(&mesh); Plato::BlockMatrixEntryOrdinal<D,R,C> e(m,&mesh); SV en = m->entries(); w.assembleJacobian(R*(D+1), C*(D+1), e, j, en); Kokkos::deep_copy(out, en); } \
 void d_jacf_##P##_##D(MARGS, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::StateFad> j, SV out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); MP m = Plato::CreateBlockMatrix<MT,R,C>(&mesh); Plato::BlockMatrixEntryOrdinal<D,R,C> e(m,&mesh); SV en = m->entries(); w.assembleJacobianFad(R*(D+1), C*(D+1), e, j, en); Kokkos::deep_copy(out, en); } \
 void d_jacfd_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::StateFad> j, SV out){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); MP m = Plato::CreateBlockMatrix<MT,R,C>(&mesh); Plato::BlockMatrixEntryOrdinal<D,R,C> e(m,&mesh); SV en = m->entries(); w.assembleJacobianFad(R*(D+1), C*(D+1), e, j, en, dom); Kokkos::deep_copy(out, en); }
#define JT(P,D,R,C) \
 void d_jact_##P##_##D(MARGS, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::StateFad> j, SV out){ MESH(D) Plato::WorksetBase<P<D>> w(mesh); MP m = Plato::CreateBlockMatrix<MT,C,R>(&mesh); Plato::BlockMatrixEntryOrdinal<D,C,R> e(m,&mesh); SV en = m->entries(); w.assembleTransposeJacobian(R*(D+1), C*(D+1), e, j, en); Kokkos::deep_copy(out, en); } \
 void d_jactd_##P##_##D(MARGS, IV lid, Teuchos::ParameterList dl, Plato::ScalarMultiVectorT<typename Plato::SimplexFadTypes<P<D>>::StateFad> j, SV out){ MESH(D) DOMAIN Plato::WorksetBase<P<D>> w(mesh); MP m = Plato::CreateBlockMatrix<MT,C,R>(&mesh); Plato::BlockMatrixEntryOrdinal<D,C,R> e(m,&mesh); SV en = m->entries(); w.assembleTransposeJacobian(R*(D+1), C*(D+1), e, j, en, dom); Kokkos::deep_copy(out, en); } \
 void d_jactp_##P##_##D(MARGS, V3 j, SV out){ MESH(D) MP m = Plato::CreateBlockMatrix<MT,C,R>(&mesh); Plato::BlockMatrixEntryOrdinal<D,C,R> e(m,&mesh); SV en = m->entries(); Plato::assemble_jacobian_transpose_pod(nc, R*(D+1), C*(D+1), e, j, en); Kokkos::deep_copy(out, en); }
G(Mech,1) G(Mech,2) G(Mech,3) G(Therm,1) G(Therm,2) G(Therm,3) G(Plast,2) G(Plast,3)
GF(Mech,1) GF(Mech,2) GF(Mech,3) GF(Therm,2) GF(Plast,2)
GL(Plast,2) GL(Plast,3)
A(Mech,1) A(Mech,2) A(Mech,3) A(Therm,1) A(Therm,2) A(Therm,3) A(Plast,2)
J(Mech,1,1,1) J(Mech,2,2,2) J(Mech,3,3,3) J(Therm,2,1,1) J(Therm,3,1,1) J(Plast,2,3,3)
JT(Mech,1,1,1) JT(Mech,2,2,2) JT(Therm,2,1,2) JT(Therm,3,1,1)
// sparse structure and entry lookup
#define B(R,C) void d_block_##R##_##C(MARGS, IV orm, IV oci){ MESH(2) MP m = Plato::CreateBlockMatrix<MT,R,C>(&mesh); Kokkos::deep_copy(orm, m->rowMap()); Kokkos::deep_copy(oci, m->columnIndices()); } \
 int d_blockn_##R##_##C(MARGS, I k){ MESH(2) MP m = Plato::CreateBlockMatrix<MT,R,C>(&mesh); if (k == 0) return m->numRows(); if (k == 1) return m->numCols(); if (k == 2) return m->numRowsPerBlock(); if (k == 3) return m->numColsPerBlock(); return m->entries().extent(0); }
B(1,1) B(2,2) B(3,1) B(1,3)
#define C(R) void d_plain_##R(MARGS, IV orm, IV oci){ MESH(2) MP m = Plato::CreateMatrix<MT,R>(&mesh); Kokkos::deep_copy(orm, m->rowMap()); Kokkos::deep_copy(oci, m->columnIndices()); } \
 int d_plainn_##R(MARGS){ MESH(2) MP m = Plato::CreateMatrix<MT,R>(&mesh); return m->entries().extent(0); }
C(1) C(2) C(3)
#define L(D,R,C) int d_lookup_##D##_##R##_##C(MARGS, IV rm, IV ci, SV en, I c, I i, I j){ MESH(D) MP m = Teuchos::rcp(new MT(rm,ci,en,nv*R,nv*C,R,C)); Plato::BlockMatrixEntryOrdinal<D,R,C> e(m,&mesh); return e(c,i,j); }
L(1,1,1) L(2,2,2) L(2,1,2) L(2,2,1) L(3,3,3)
#define LT(D,R) int d_lookupt_##D##_##R(MARGS, IV rm, IV ci, SV en, I c, I i, I j){ MESH(D) MP m = Teuchos::rcp(new MT(rm,ci,en,nv*R,nv*R,R,R)); Plato::BlockMatrixTransposeEntryOrdinal<D,R> e(m,&mesh); return e(c,i,j); } \
 int d_lookupp_##D##_##R(MARGS, I c, I i, I j){ MESH(D) MP m = Plato::CreateMatrix<MT,R>(&mesh); Plato::MatrixEntryOrdinal<D,R> e(m,&mesh); return e(c,i,j); }
LT(1,1) LT(2,2) LT(2,1) LT(3,3)
// element geometry
#define E(D) void d_geom_##D(I c, V3 g, V3 x, V1 vol){ Plato::ComputeGradientWorkset<D> op; op(c, g, x, vol); } \
 S d_cvol_##D(I c, V3 x){ Plato::ComputeCellVolume<D> op; S v; op(c, x, v); return v; } \
 S d_coord_##D(MARGS, I c, I n, I d){ MESH(D) Plato::NodeCoordinate<D> op(&mesh); return op(c, n, d); } \
 S d_scoord_##D(MARGS, I c, I n, I d){ MESH(D) Plato::SideNodeCoordinate<D> op(&mesh); return op(c, n, d); } \
 S d_det_##D(MARGS, I c){ MESH(D) Plato::JacobianDet<D> op(&mesh); return op(c); } \
 S d_grad_##D(MARGS, I c, I n, I d){ MESH(D) Plato::NodeCoordinate<D> nx(&mesh); Plato::ComputeGradient<D> op(nx); Omega_h::Vector<D> g[D+1]; S v; op(c, g, v); return g[n][d]; } \
 S d_gradv_##D(MARGS, I c){ MESH(D) Plato::NodeCoordinate<D> nx(&mesh); Plato::ComputeGradient<D> op(nx); Omega_h::Vector<D> g[D+1]; S v; op(c, g, v); return v; }
E(1) E(2) E(3)
#undef E
#define E(D) S d_vol_##D(MARGS, I c){ MESH(D) Plato::NodeCoordinate<D> nx(&mesh); Plato::ComputeVolume<D> op(nx); return op(c); }
E(2) E(3)
#undef E
S d_area_3(I c, I n0, I n1, I n2, V3 x){ Plato::ComputeSurfaceArea<3> op; int n[3]; n[0] = n0; n[1] = n1; n[2] = n2; S a; op(c, n, x, a); return a; }
#define E(D,NV) S d_bmat_##D(MARGS, I c, I i, I v){ MESH(D) Plato::NodeCoordinate<D> nx(&mesh); Plato::ComputeGradient<D> op(nx); Omega_h::Vector<D> g[D+1]; S vol; op(c, g, vol); Omega_h::Vector<NV> b[D*(D+1)]; Plato::ComputeGradientMatrix<D> gm; gm(g, b); return b[i][v]; }
E(1,1) E(2,3) E(3,6)
#undef E
void d_projws(I c, V1 vol, V1 b, V2 s, V2 r, S sc){ Plato::ComputeProjectionWorkset op; op(c, vol, b, s, r, sc); }
// per element block
typedef typename Plato::SimplexFadTypes<Mech<2>>::StateFad F2;
#define DARGS MARGS, IV lid, Teuchos::ParameterList dl
void d_blk_gradu(DARGS, Plato::ScalarVectorT<F2> r, V1 out){ MESH(2) DOMAIN Plato::VectorEntryOrdinal<2,2> eo(&mesh); Plato::assemble_vector_gradient_fad<3,2>(dom, eo, r, out); }
void d_blk_gradz(DARGS, Plato::ScalarVectorT<F2> r, V1 out){ MESH(2) DOMAIN Plato::VectorEntryOrdinal<2,1> eo(&mesh); Plato::assemble_scalar_gradient_fad<3>(dom, eo, r, out); }
void d_blk_flat(DARGS, V2 r, V1 out){ MESH(2) DOMAIN Plato::flatten_vector_workset<4>(dom, r, out); }
void d_blk_rows(DARGS, V2 r, V2 out){ MESH(2) DOMAIN Plato::assemble_vector_workset<4>(dom, r, out); }
void d_blk_pod2(DARGS, Plato::ScalarVectorT<F2> r, V2 out){ MESH(2) DOMAIN Plato::transform_ad_type_to_pod_2Dview<6,F2>(dom, r, out); }
void d_blk_pod3(DARGS, Plato::ScalarMultiVectorT<F2> r, V3 out){ MESH(2) DOMAIN Plato::transform_ad_type_to_pod_3Dview<2,6,F2>(dom, r, out); }
void d_all_pod2(I nc, Plato::ScalarVectorT<F2> r, V2 out){ V2 t("t", nc, 6); Plato::transform_ad_type_to_pod_2Dview<6,F2>(r, t); Kokkos::deep_copy(out, t); }
void d_all_pod3(I nc, Plato::ScalarMultiVectorT<F2> r, V3 out){ V3 t("t", nc, 2, 6); Plato::transform_ad_type_to_pod_3Dview<2,6,F2>(nc, r, t); Kokkos::deep_copy(out, t); }
