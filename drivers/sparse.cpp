#include "common.hpp"
typedef Plato::ScalarVectorT<int> IV;
typedef Plato::ScalarVector SV;
typedef Plato::CrsMatrixType MT;
typedef Teuchos::RCP<MT> MP;
typedef Plato::LocalOrdinalVector LO;
#define BS(M) M(1,1) M(1,2) M(2,1) M(2,2) M(3,3) M(3,1) M(2,3) M(4,4) M(6,6) M(6,1) M(1,6) M(4,5)
// essential boundary conditions; entries stay visible through the caller's views
#define F(n) \
void d_bcB_##n(IV rm, IV ci, SV en, I nr, SV rhs, LO dof, SV val, S sc){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nr,n,n)); Plato::applyBlockConstraints<n>(a,rhs,dof,val,sc); } \
void d_bcB1_##n(IV rm, IV ci, SV en, I nr, SV rhs, LO dof, SV val){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nr,n,n)); Plato::applyBlockConstraints<n>(a,rhs,dof,val); }
F(1) F(2) F(3) F(4) F(6)
#undef F
void d_bcP(IV rm, IV ci, SV en, I nr, SV rhs, LO dof, SV val, S sc){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nr,1,1)); Plato::applyConstraints<1>(a,rhs,dof,val,sc); }
void d_bcP1(IV rm, IV ci, SV en, I nr, SV rhs, LO dof, SV val){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nr,1,1)); Plato::applyConstraints<1>(a,rhs,dof,val); }
// matrix-vector product
#define F(r,c) void d_spmv_##r##_##c(IV rm, IV ci, SV en, I nr, I nc, SV x, SV y){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nc,r,c)); Plato::MatrixTimesVectorPlusVector<double>(a,x,y); }
BS(F)
#undef F
// row sums
#define F(r,c) void d_rowsum_##r##_##c(I b, IV rm, IV ci, SV en, I nr, I nc, SV out){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nc,r,c)); Plato::RowSum f(a); f(b,out); } \
void d_diaginv_##r##_##c(I b, IV rm, IV ci, SV en, I nr, I nc, SV dg){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nc,r,c)); Plato::DiagonalInverseMultiply f(a); f(b,dg); } \
void d_invweight_##r##_##c(I b, SV rs, SV rhs, SV lhs, S sc){ Plato::InverseWeight<r,c> f; f(b,rs,rhs,lhs,sc); } \
void d_invweight1_##r##_##c(I b, SV rs, SV rhs, SV lhs){ Plato::InverseWeight<r,c> f; f(b,rs,rhs,lhs); } \
void d_rsim_##r##_##c(IV rm, IV ci, SV en, IV rm2, IV ci2, SV en2, I nr, I nc){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nr,r,r)); MP d = Teuchos::rcp(new MT(rm2,ci2,en2,nr,nc,r,c)); Plato::RowSummedInverseMultiply(a,d); }
BS(F)
#undef F
#define F(n) void d_rsolve_##n(IV rm, IV ci, SV en, I nr, SV x, SV b){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nr,n,n)); Plato::Solve::RowSummed<n>(a,x,b); }
F(1) F(2) F(3) F(4) F(6)
#undef F
S d_condexpr(S x, S y, S a, S b){ return Plato::conditional_expression(x,y,a,b); }
// block <-> scalar conversions
#define F(r,c) void d_nonblock_##r##_##c(IV rm, IV ci, SV en, I nr, I nc, IV orm, IV oci, SV oen){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nc,r,c)); IV m; IV k; SV v; Plato::getDataAsNonBlock(a,m,k,v); Kokkos::deep_copy(orm,m); Kokkos::deep_copy(oci,k); Kokkos::deep_copy(oen,v); } \
void d_fromnonblock_##r##_##c(IV rm, IV ci, SV en, I nr, I nc, IV orm, IV oci, SV oen){ MP a = Teuchos::rcp(new MT(nr,nc,r,c)); Plato::setDataFromNonBlock(a,rm,ci,en); Kokkos::deep_copy(orm,a->rowMap()); Kokkos::deep_copy(oci,a->columnIndices()); Kokkos::deep_copy(oen,a->entries()); }
BS(F)
#undef F
#define F(c) void d_nonblocks_##c(IV rm, IV ci, SV en, I nr, I nc, I stride, I off, IV orm, IV oci, SV oen){ MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nc,1,c)); IV m; IV k; SV v; Plato::getDataAsNonBlock(a,m,k,v,stride,off); Kokkos::deep_copy(orm,m); Kokkos::deep_copy(oci,k); Kokkos::deep_copy(oen,v); }
F(1) F(2) F(3) F(6)
#undef F
void d_sortcols(IV rm, IV ci, SV en){ Plato::sortColumnEntries(rm,ci,en); }
// products and differences
#define F(r,k,c) void d_mmult_##r##_##k##_##c(IV rm, IV ci, SV en, IV rm2, IV ci2, SV en2, I nr, I nk, I nc, IV orm, IV oci, SV oen){ \
 MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nk,r,k)); MP b = Teuchos::rcp(new MT(rm2,ci2,en2,nk,nc,k,c)); MP o = Teuchos::rcp(new MT(nr,nc,r,c)); \
 Plato::MatrixMatrixMultiply(a,b,o); Kokkos::deep_copy(orm,o->rowMap()); Kokkos::deep_copy(oci,o->columnIndices()); Kokkos::deep_copy(oen,o->entries()); }
F(1,1,1) F(2,2,2) F(1,2,2) F(1,2,1) F(2,1,2) F(3,3,1)
#undef F
#define F(r,c) void d_mminus_##r##_##c(IV rm, IV ci, SV en, IV rm2, IV ci2, SV en2, I nr, I nr2, I nc, I off, IV orm, IV oci, SV oen){ \
 MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nc,r,c)); MP b = Teuchos::rcp(new MT(rm2,ci2,en2,nr2,nc,1,c)); \
 Plato::MatrixMinusMatrix(a,b,off); Kokkos::deep_copy(orm,a->rowMap()); Kokkos::deep_copy(oci,a->columnIndices()); Kokkos::deep_copy(oen,a->entries()); }
F(1,1) F(2,2) F(3,3) F(2,1) F(4,4) F(6,6)
#undef F
#define F(r,k) void d_condense_##r##_##k(IV rm, IV ci, SV en, IV rmB, IV ciB, SV enB, IV rmC, IV ciC, SV enC, IV rmD, IV ciD, SV enD, I nn, I off, IV orm, IV oci, SV oen){ \
 MP a = Teuchos::rcp(new MT(rm,ci,en,nn*r,nn*r,r,r)); MP b = Teuchos::rcp(new MT(rmB,ciB,enB,nn,nn*k,1,k)); MP c = Teuchos::rcp(new MT(rmC,ciC,enC,nn*k,nn*k,k,k)); MP d = Teuchos::rcp(new MT(rmD,ciD,enD,nn*k,nn*r,k,r)); \
 Plato::Condense(a,b,c,d,off); Kokkos::deep_copy(orm,a->rowMap()); Kokkos::deep_copy(oci,a->columnIndices()); Kokkos::deep_copy(oen,a->entries()); }
F(3,2) F(2,1) F(4,3) F(6,1)
#undef F
// a result matrix that held something before
void d_mmultpre(IV rm, IV ci, SV en, IV rm2, IV ci2, SV en2, I nr, I nk, I nc, IV prm, IV pci, SV pen, IV orm, IV oci, SV oen){
 MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nk,1,1)); MP b = Teuchos::rcp(new MT(rm2,ci2,en2,nk,nc,1,1)); MP o = Teuchos::rcp(new MT(prm,pci,pen,nr,nc,1,1));
 Plato::MatrixMatrixMultiply(a,b,o); Kokkos::deep_copy(orm,o->rowMap()); Kokkos::deep_copy(oci,o->columnIndices()); Kokkos::deep_copy(oen,o->entries()); }
// the same matrix in two roles, and a second product into the same result
void d_mmultself(IV rm, IV ci, SV en, I nr, IV orm, IV oci, SV oen){
 MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nr,1,1)); MP o = Teuchos::rcp(new MT(nr,nr,1,1));
 Plato::MatrixMatrixMultiply(a,a,o); Kokkos::deep_copy(orm,o->rowMap()); Kokkos::deep_copy(oci,o->columnIndices()); Kokkos::deep_copy(oen,o->entries()); }
void d_mmulttwice(IV rm, IV ci, SV en, IV rm2, IV ci2, SV en2, I nr, IV orm, IV oci, SV oen){
 MP a = Teuchos::rcp(new MT(rm,ci,en,nr,nr,1,1)); MP b = Teuchos::rcp(new MT(rm2,ci2,en2,nr,nr,1,1)); MP o = Teuchos::rcp(new MT(nr,nr,1,1));
 Plato::MatrixMatrixMultiply(a,a,o); Plato::MatrixMatrixMultiply(a,b,o); Kokkos::deep_copy(orm,o->rowMap()); Kokkos::deep_copy(oci,o->columnIndices()); Kokkos::deep_copy(oen,o->entries()); }
void d_mminustwice(IV rm, IV ci, SV en, IV rm2, IV ci2, SV en2, I nr, I nc, IV orm, IV oci, SV oen){
 MP a = Teuchos::rcp(new MT(rm,ci,en,nr*2,nc*2,2,2)); MP b = Teuchos::rcp(new MT(rm2,ci2,en2,nr,nc*2,1,2));
 Plato::MatrixMinusMatrix(a,b,0); Plato::MatrixMinusMatrix(a,b,1); Plato::MatrixMinusMatrix(a,b,0); Kokkos::deep_copy(orm,a->rowMap()); Kokkos::deep_copy(oci,a->columnIndices()); Kokkos::deep_copy(oen,a->entries()); }
// the container itself
int d_crs_rows(I a, I b, I r, I c){ MT m(a,b,r,c); return m.numRows(); }
int d_crs_cols(I a, I b, I r, I c){ MT m(a,b,r,c); return m.numCols(); }
int d_crs_rpb(I a, I b, I r, I c){ MT m(a,b,r,c); return m.numRowsPerBlock(); }
int d_crs_cpb(I a, I b, I r, I c){ MT m(a,b,r,c); return m.numColsPerBlock(); }
bool d_crs_blk(I a, I b, I r, I c){ MT m(a,b,r,c); return m.isBlockMatrix(); }
int d_crs_unset_rows(IV rm, IV ci, SV en){ MT m(rm,ci,en); return m.numRows(); }
int d_crs_unset_cols(IV rm, IV ci, SV en){ MT m(rm,ci,en,2,2); return m.numCols(); }
int d_crs_dflt_rows(){ MT m; return m.numRows(); }
void d_crs_set(IV rm, IV ci, SV en, I i, IV orm, IV oci, SV oen){ MT m(4,4,2,2); m.setRowMap(rm); m.setColumnIndices(ci); m.setEntries(en); Kokkos::deep_copy(orm,m.rowMap()); Kokkos::deep_copy(oci,m.columnIndices()); Kokkos::deep_copy(oen,m.entries()); }
// shapes that need not match
void d_mmshape(IV rm, IV ci, SV en, IV rm2, IV ci2, SV en2, I r1, I c1, I r2, I c2, I r3, I c3){ MP a = Teuchos::rcp(new MT(rm,ci,en,r1,c1,1,1)); MP b = Teuchos::rcp(new MT(rm2,ci2,en2,r2,c2,1,1)); MP o = Teuchos::rcp(new MT(r3,c3,1,1)); Plato::MatrixMatrixMultiply(a,b,o); }
void d_mishape(IV rm, IV ci, SV en, IV rm2, IV ci2, SV en2, I r1, I c1, I r2, I c2){ MP a = Teuchos::rcp(new MT(rm,ci,en,r1,c1,1,1)); MP b = Teuchos::rcp(new MT(rm2,ci2,en2,r2,c2,1,1)); Plato::MatrixMinusMatrix(a,b,0); }
