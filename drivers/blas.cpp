#include "common.hpp"
typedef Plato::LocalOrdinalVector LO;
typedef Plato::ScalarVector SV; typedef Plato::ScalarMultiVector SMV; typedef Plato::ScalarArray3D S3;
void d_random(S lo, S hi, SV out){ Plato::blas1::random(lo,hi,out); }
S d_dot(SV a, SV b){ return Plato::blas1::dot(a,b); }
S d_norm(SV a){ return Plato::blas1::norm(a); }
void d_fill(S al, SV out){ Plato::blas1::fill(al,out); }
void d_fillsel(S al, LO ord, SV val, SV out){ Plato::blas1::fill(al,ord,val,out); }
void d_copy(SV a, SV out){ Plato::blas1::copy(a,out); }
void d_scale(S al, SV out){ Plato::blas1::scale(al,out); }
void d_axpy(S al, SV a, SV out){ Plato::blas1::axpy(al,a,out); }
void d_update(S al, SV a, S be, SV out){ Plato::blas1::update(al,a,be,out); }
S d_sum(SV a){ S r; Plato::blas1::local_sum(a,r); return r; }
S d_max(SV a){ S r; Plato::blas1::max(a,r); return r; }
S d_min(SV a){ S r; Plato::blas1::min(a,r); return r; }
#define F(s,o) void d_extract_##s##_##o(SV a, SV out){ Plato::blas1::extract<s,o>(a,out); }
F(1,0) F(2,1) F(4,3) F(5,2)
#undef F
#define F(s,o) void d_ext2_##s##_##o(SMV a, SMV out){ Plato::blas2::extract<s,o>(a,out); }
F(1,0) F(2,1) F(4,3)
#undef F
#define F(s,d,o) void d_ext2n_##s##_##d##_##o(I n, SMV a, SMV out){ Plato::blas2::extract<s,d,o>(n,a,out); }
F(1,1,0) F(3,2,0) F(4,3,1) F(2,1,1)
#undef F
void d_fill2(S al, V2 out){ Plato::blas2::fill(al,out); }
void d_scale2(S al, V2 out){ Plato::blas2::scale(al,out); }
void d_update2(S al, V2 a, S be, V2 out){ Plato::blas2::update(al,a,be,out); }
#define F(n,o) void d_axpy2_##n##_##o(S al, SMV a, SMV out){ Plato::blas2::axpy<n,o>(al,a,out); }
F(1,0) F(3,2) F(4,3) F(5,0)
#undef F
void d_mvN(S al, V3 A, V2 x, S be, V2 y){ Plato::blas2::matrix_times_vector("N",al,A,x,be,y); }
void d_mvT(S al, V3 A, V2 x, S be, V2 y){ Plato::blas2::matrix_times_vector("T",al,A,x,be,y); }
void d_mvn(S al, V3 A, V2 x, S be, V2 y){ Plato::blas2::matrix_times_vector("n",al,A,x,be,y); }
void d_mvt(S al, V3 A, V2 x, S be, V2 y){ Plato::blas2::matrix_times_vector("t",al,A,x,be,y); }
void d_mvbad(S al, V3 A, V2 x, S be, V2 y){ Plato::blas2::matrix_times_vector("C",al,A,x,be,y); }
#define F(r,c) void d_identity_##r##_##c(I n, S3 out){ Plato::blas3::identity<r,c>(n,out); }
F(1,1) F(3,3) F(2,3) F(14,14)
#undef F
#define F(r,c) void d_fill3_##r##_##c(I n, S al, S3 out){ Plato::blas3::fill<r,c>(n,al,out); }
F(1,1) F(3,3) F(2,5)
#undef F
void d_update3(I n, S al, V3 A, S be, V3 B){ Plato::blas3::update(n,al,A,be,B); }
void d_mult3(I n, S al, V3 A, V3 B, S be, V3 C){ Plato::blas3::multiply(n,al,A,B,be,C); }
#define F(r,c) void d_inverse_##r##_##c(I n, V3 A, V3 out){ Plato::blas3::inverse<r,c>(n,A,out); }
F(2,2) F(3,3)
#undef F
// the same array in two roles, and calls in sequence
S d_dotself(SV a){ return Plato::blas1::dot(a,a); }
void d_copyself(SV out){ Plato::blas1::copy(out,out); }
void d_axpyself(S al, SV out){ Plato::blas1::axpy(al,out,out); }
void d_updateself(S al, S be, SV out){ Plato::blas1::update(al,out,be,out); }
void d_update2self(S al, S be, V2 out){ Plato::blas2::update(al,out,be,out); }
void d_update3self(I n, S al, S be, V3 out){ Plato::blas3::update(n,al,out,be,out); }
void d_mult3self(I n, S al, V3 A, S be, V3 C){ Plato::blas3::multiply(n,al,A,A,be,C); }
S d_seq1(S al, S be, SV a, SV b, SV out){ Plato::blas1::copy(a,out); Plato::blas1::scale(al,out); Plato::blas1::axpy(be,b,out); Plato::blas1::update(al,a,be,out); return Plato::blas1::dot(out,b); }
S d_seq2(S al, SV a, SV b){ S r = Plato::blas1::dot(a,b); Plato::blas1::scale(al,a); return r + al*Plato::blas1::dot(a,b); }
S d_seq3(S al, SV a, SV b){ S r = Plato::blas1::norm(a); Plato::blas1::axpy(al,b,a); S q = Plato::blas1::norm(a); return r*al + q; }
