#include "common.hpp"
#include <alg/Basis.hpp>
#include <alg/Cubature.hpp>
#include <Eigenvalues.hpp>
typedef Kokkos::View<Plato::Scalar**, Plato::Layout, Plato::MemSpace> PV;
typedef Kokkos::View<Plato::Scalar***, Plato::Layout, Plato::MemSpace> GV;
typedef Kokkos::View<Plato::Scalar*, Plato::MemSpace> WV;
// shape functions of the reference simplex
#define F(D) \
int d_bas_n_##D(){ Plato::Basis b(D); return b.basisCardinality(); } \
void d_bas_ref_##D(PV x){ Plato::Basis b(D); b.getRefCoords(x); } \
void d_bas_val_##D(PV x, PV v){ Plato::Basis b(D); b.getValues(x, v); } \
void d_bas_grad_##D(PV x, GV g){ Plato::Basis b(D); b.getGradientValues(x, g); } \
void d_bas_node_##D(PV x, PV v){ Plato::Basis b(D); b.getRefCoords(x); b.getValues(x, v); } \
void d_bas_again_##D(PV x, PV y, PV v, GV g){ Plato::Basis b(D); b.getGradientValues(y, g); b.getValues(y, v); b.getValues(x, v); b.getGradientValues(x, g); } \
S d_tet_w_##D(){ Plato::LinearTetCubRuleDegreeOne<D> r; return r.getCubWeight(); } \
int d_tet_n_##D(){ Plato::LinearTetCubRuleDegreeOne<D> r; return r.getNumCubPoints(); } \
V1 d_tet_x_##D(){ Plato::LinearTetCubRuleDegreeOne<D> r; return r.getCubPointsCoords(); } \
V1 d_tet_b_##D(){ Plato::LinearTetCubRuleDegreeOne<D> r; return r.getBasisFunctions(); }
D123(F)
#undef F
// quadrature
#define F(D,q) void d_cub_##D##_##q(PV p, WV w){ Plato::Cubature::getCubature(D, q, p, w); } \
int d_cubn_##D##_##q(){ return Plato::Cubature::getNumCubaturePoints(D, q); }
#define G(D) F(D,0) F(D,1) F(D,2) F(D,3) F(D,4) F(D,5)
G(1) G(2) G(3) F(4,1)
#undef F
#undef G
int d_cubn_any(I D, I q){ return Plato::Cubature::getNumCubaturePoints(D, q); }
// principal values
void d_eig_1(I c, V2 t, V2 e, bool st){ Plato::Eigenvalues<1> f; f(c, t, e, st); }
void d_eig_2(I c, V2 t, V2 e, bool st){ Plato::Eigenvalues<2> f; f(c, t, e, st); }
void d_eig_3_0(I c, V2 t, V2 e, bool st){ Plato::Eigenvalues<3> f(0); f(c, t, e, st); }
void d_eig_3_1(I c, V2 t, V2 e, bool st){ Plato::Eigenvalues<3> f(1); f(c, t, e, st); }
void d_eig_3_2(I c, V2 t, V2 e, bool st){ Plato::Eigenvalues<3> f(2); f(c, t, e, st); }
void d_eig_3_set(I c, V2 t, V2 e, bool st){ Plato::Eigenvalues<3> f; f.setNumFixedIterations(1); f(c, t, e, st); }
int d_voigt_1(I k){ Plato::VoigtMap<1> m; return 10*m.I[0] + m.J[0]; }
#define F(D,k) int d_voigt_##D##_##k(){ Plato::VoigtMap<D> m; return 10*m.I[k] + m.J[k]; }
F(1,0) F(2,0) F(2,1) F(2,2) F(3,0) F(3,1) F(3,2) F(3,3) F(3,4) F(3,5)
#undef F
