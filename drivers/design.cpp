#include "common.hpp"
#include <map>
#include <string>
typedef std::map<std::string, double> M;
typedef Teuchos::ParameterList PL;
// penalty functions built from scalars
S d_simp(S p, S mn, S z){ Plato::MSIMP f(p, mn); return f(z); }
S d_heavi0(S z){ Plato::Heaviside f; return f(z); }
S d_heavi(S p, S r, S mn, S z){ Plato::Heaviside f(p, r, mn); return f(z); }
S d_ramp0(S z){ Plato::RAMP f; return f(z); }
S d_nopen(S z){ Plato::NoPenalty f; return f(z); }
// built from an input deck
S d_simp_pl(PL pl, S z){ Plato::MSIMP f(pl); return f(z); }
S d_ramp_pl(PL pl, S z){ Plato::RAMP f(pl); return f(z); }
S d_heavi_pl(PL pl, S z){ Plato::Heaviside f(pl); return f(z); }
S d_nopen_pl(PL pl, S z){ Plato::NoPenalty f(pl); return f(z); }
// continuation steps
S d_simp_pl_u1(PL pl, S z){ Plato::MSIMP f(pl); f.update(); return f(z); }
S d_ramp_pl_u1(PL pl, S z){ Plato::RAMP f(pl); f.update(); return f(z); }
S d_heavi_pl_u1(PL pl, S z){ Plato::Heaviside f(pl); f.update(); return f(z); }
S d_simp_pl_u2(PL pl, S z){ Plato::MSIMP f(pl); f.update(); f.update(); return f(z); }
S d_ramp_pl_u2(PL pl, S z){ Plato::RAMP f(pl); f.update(); f.update(); return f(z); }
S d_heavi_pl_u2(PL pl, S z){ Plato::Heaviside f(pl); f.update(); f.update(); return f(z); }
S d_simp_u1(S p, S mn, S z){ Plato::MSIMP f(p, mn); f.update(); return f(z); }
S d_heavi_u1(S p, S r, S mn, S z){ Plato::Heaviside f(p, r, mn); f.update(); return f(z); }
S d_ramp0_u1(S z){ Plato::RAMP f; f.update(); return f(z); }
// setters
S d_simp_set(S p, S mn, S p2, S mn2, S ac, S z){ Plato::MSIMP f(p, mn); f.setPenalty(p2); f.setMinimumErsatzMaterial(mn2); f.setAdditiveContinuationValue(ac); return f(z); }
S d_simp_set_u1(S p, S mn, S p2, S mn2, S ac, S z){ Plato::MSIMP f(p, mn); f.setPenalty(p2); f.setMinimumErsatzMaterial(mn2); f.setAdditiveContinuationValue(ac); f.update(); return f(z); }
// setParameters with every combination of present and absent keys
#define K0(x)
#define K1(x) x
#define SP(T, t, CT, a, b, d, r) \
S d_##t##_par_##a##b##d##r(PL pl, S ve, S vm, S va, S vr, S z){ Plato::T f CT; M m; K##a(m["Exponent"]=ve;) K##b(m["Minimum Value"]=vm;) K##d(m["Additive Continuation"]=va;) K##r(m["Regularization Length"]=vr;) f.setParameters(m); return f(z); } \
S d_##t##_paru_##a##b##d##r(PL pl, S ve, S vm, S va, S vr, S z){ Plato::T f CT; M m; K##a(m["Exponent"]=ve;) K##b(m["Minimum Value"]=vm;) K##d(m["Additive Continuation"]=va;) K##r(m["Regularization Length"]=vr;) f.setParameters(m); f.update(); return f(z); }
#define SPS(T, t, CT, r) SP(T,t,CT,0,0,0,r) SP(T,t,CT,0,0,1,r) SP(T,t,CT,0,1,0,r) SP(T,t,CT,0,1,1,r) SP(T,t,CT,1,0,0,r) SP(T,t,CT,1,0,1,r) SP(T,t,CT,1,1,0,r) SP(T,t,CT,1,1,1,r)
SPS(MSIMP, simp, (pl), 0) SPS(RAMP, ramp, (pl), 0) SPS(Heaviside, heavi, (pl), 0) SPS(Heaviside, heavi, (pl), 1)
// projections
S d_hproj(S b, S z){ Plato::HeavisideProjection f(b); return f.apply(z); }
S d_hproj0(S z){ Plato::HeavisideProjection f; return f.apply(z); }
S d_hproj_set(S b, S b2, S z){ Plato::HeavisideProjection f(b); f.setCurvatureParameterBeta(b2); return f.apply(z); }
S d_tproj(S b, S e, S z){ Plato::HyperbolicTangentProjection f(b, e); return f.apply(z); }
S d_tproj0(S z){ Plato::HyperbolicTangentProjection f; return f.apply(z); }
S d_tproj_pl(PL pl, S z){ Plato::HyperbolicTangentProjection f(pl); return f.apply(z); }
S d_tproj_setb(S b, S e, S b2, S z){ Plato::HyperbolicTangentProjection f(b, e); f.setCurvatureParameterBeta(b2); return f.apply(z); }
S d_tproj_sete(S b, S e, S e2, S z){ Plato::HyperbolicTangentProjection f(b, e); f.setTresholdLevelParameterEta(e2); return f.apply(z); }
S d_tproj_setbe(S b, S e, S b2, S e2, S z){ Plato::HyperbolicTangentProjection f(b, e); f.setProjectionParameters(b2, e2); return f.apply(z); }
S d_tproj_seq(S b, S e, S b2, S e2, S z){ Plato::HyperbolicTangentProjection f(b, e); f.setTresholdLevelParameterEta(e2); f.setCurvatureParameterBeta(b2); return f.apply(z); }
#define PJ(n) \
S d_applyH_##n(I c, S b, V2 z){ Plato::HeavisideProjection p(b); Plato::ApplyProjection<Plato::HeavisideProjection> op(p); return op(c,z); } \
S d_applyT_##n(I c, S b, S e, V2 z){ Plato::HyperbolicTangentProjection p(b,e); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> op(p); return op(c,z); }
PJ(2) PJ(3) PJ(4)
S d_applyH0_4(I c, V2 z){ Plato::ApplyProjection<Plato::HeavisideProjection> op; return op(c,z); }
// weighting and penalising; *_u: after one continuation step of the weighting object
#define W(T, t, CTA, CT, d, n) \
void d_w2_##t##_##d##_##n(I c, CTA, V2 io, V2 z){ Plato::T f CT; Plato::ApplyWeighting<d,n,Plato::T> op(f); op(c,io,z); } \
void d_w2io_##t##_##d##_##n(I c, CTA, V2 in, V2 out, V2 z){ Plato::T f CT; Plato::ApplyWeighting<d,n,Plato::T> op(f); op(c,in,out,z); } \
void d_w1_##t##_##d##_##n(I c, CTA, V1 io, V2 z){ Plato::T f CT; Plato::ApplyWeighting<d,n,Plato::T> op(f); op(c,io,z); } \
void d_w1io_##t##_##d##_##n(I c, CTA, V1 in, V1 out, V2 z){ Plato::T f CT; Plato::ApplyWeighting<d,n,Plato::T> op(f); op(c,in,out,z); } \
void d_w2u_##t##_##d##_##n(I c, CTA, V2 io, V2 z){ Plato::T f CT; Plato::ApplyWeighting<d,n,Plato::T> op(f); op.update(); op(c,io,z); } \
void d_pen3_##t##_##d##_##n(I c, CTA, S rho, V3 io){ Plato::T f CT; Plato::ApplyPenalty<Plato::T> op(f); op(c,rho,io); } \
void d_pen2_##t##_##d##_##n(I c, CTA, S rho, V2 io){ Plato::T f CT; Plato::ApplyPenalty<Plato::T> op(f); op(c,rho,io); }
#define SA S p, S mn
#define RA PL pl
#define HA S p, S r, S mn
#define NA S unused
W(MSIMP,simp,SA,(p,mn),1,1) W(MSIMP,simp,SA,(p,mn),2,3) W(MSIMP,simp,SA,(p,mn),3,6) W(MSIMP,simp,SA,(p,mn),3,1)
W(RAMP,ramp,RA,(pl),2,3) W(RAMP,ramp,RA,(pl),3,6)
W(NoPenalty,nopen,NA,,2,3) W(NoPenalty,nopen,NA,,3,6)
W(Heaviside,heavi,HA,(p,r,mn),2,3) W(Heaviside,heavi,HA,(p,r,mn),3,6)
#define F(d) void d_apply_penalty_##d(I c, S p, V2 out){ Plato::apply_penalty<d>(c,p,out); }
F(1) F(2) F(3) F(6)
#undef F
