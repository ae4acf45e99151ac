// Generated by tool/genfad.py: kernel call sites with derivatives in one argument and in the results.
#include "common.hpp"
typedef Sacado::Fad::SFad<double,4> A0;
typedef Plato::ScalarVectorT<A0> A1;
typedef Plato::ScalarMultiVectorT<A0> A2;
typedef Plato::ScalarArray3DT<A0> A3;
typedef Teuchos::ParameterList PL;
void d_AdjDamp_1__el(I c, S mc, S sc, A2 el, V2 in, A2 out){ Plato::AdjointComplexRayleighDamping<1> op(mc,sc); op(c,el,in,out); }
void d_AdjDamp_1__in(I c, S mc, S sc, V2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<1> op(mc,sc); op(c,el,in,out); }
void d_AdjDamp_1__all(I c, S mc, S sc, A2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<1> op(mc,sc); op(c,el,in,out); }
void d_AdjDamp_2__el(I c, S mc, S sc, A2 el, V2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op(mc,sc); op(c,el,in,out); }
void d_AdjDamp_2__in(I c, S mc, S sc, V2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op(mc,sc); op(c,el,in,out); }
void d_AdjDamp_2__all(I c, S mc, S sc, A2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op(mc,sc); op(c,el,in,out); }
void d_AdjDamp_3__el(I c, S mc, S sc, A2 el, V2 in, A2 out){ Plato::AdjointComplexRayleighDamping<3> op(mc,sc); op(c,el,in,out); }
void d_AdjDamp_3__in(I c, S mc, S sc, V2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<3> op(mc,sc); op(c,el,in,out); }
void d_AdjDamp_3__all(I c, S mc, S sc, A2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<3> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_1__el(I c, S mc, S sc, A2 el, V2 in, A2 out){ Plato::ComplexRayleighDamping<1> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_1__in(I c, S mc, S sc, V2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<1> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_1__all(I c, S mc, S sc, A2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<1> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_2__el(I c, S mc, S sc, A2 el, V2 in, A2 out){ Plato::ComplexRayleighDamping<2> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_2__in(I c, S mc, S sc, V2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<2> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_2__all(I c, S mc, S sc, A2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<2> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_3__el(I c, S mc, S sc, A2 el, V2 in, A2 out){ Plato::ComplexRayleighDamping<3> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_3__in(I c, S mc, S sc, V2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<3> op(mc,sc); op(c,el,in,out); }
void d_CplxDamp_3__all(I c, S mc, S sc, A2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<3> op(mc,sc); op(c,el,in,out); }
void d_RayDamp_2__st(I c, S mc, S sc, A2 st, V2 ma, A2 out){ Plato::RayleighDamping<2> op(mc,sc); op(c,st,ma,out); }
void d_RayDamp_2__ma(I c, S mc, S sc, V2 st, A2 ma, A2 out){ Plato::RayleighDamping<2> op(mc,sc); op(c,st,ma,out); }
void d_RayDamp_2__all(I c, S mc, S sc, A2 st, A2 ma, A2 out){ Plato::RayleighDamping<2> op(mc,sc); op(c,st,ma,out); }
void d_RayDamp_6__st(I c, S mc, S sc, A2 st, V2 ma, A2 out){ Plato::RayleighDamping<6> op(mc,sc); op(c,st,ma,out); }
void d_RayDamp_6__ma(I c, S mc, S sc, V2 st, A2 ma, A2 out){ Plato::RayleighDamping<6> op(mc,sc); op(c,st,ma,out); }
void d_RayDamp_6__all(I c, S mc, S sc, A2 st, A2 ma, A2 out){ Plato::RayleighDamping<6> op(mc,sc); op(c,st,ma,out); }
void d_RayDamp_12__st(I c, S mc, S sc, A2 st, V2 ma, A2 out){ Plato::RayleighDamping<12> op(mc,sc); op(c,st,ma,out); }
void d_RayDamp_12__ma(I c, S mc, S sc, V2 st, A2 ma, A2 out){ Plato::RayleighDamping<12> op(mc,sc); op(c,st,ma,out); }
void d_RayDamp_12__all(I c, S mc, S sc, A2 st, A2 ma, A2 out){ Plato::RayleighDamping<12> op(mc,sc); op(c,st,ma,out); }
void d_CplxEnergy_1__a(I c, A3 a, V3 b, A1 out){ Plato::ComplexElasticEnergy<1> op; op(c,a,b,out); }
void d_CplxEnergy_1__b(I c, V3 a, A3 b, A1 out){ Plato::ComplexElasticEnergy<1> op; op(c,a,b,out); }
void d_CplxEnergy_1__all(I c, A3 a, A3 b, A1 out){ Plato::ComplexElasticEnergy<1> op; op(c,a,b,out); }
void d_CplxEnergy_3__a(I c, A3 a, V3 b, A1 out){ Plato::ComplexElasticEnergy<3> op; op(c,a,b,out); }
void d_CplxEnergy_3__b(I c, V3 a, A3 b, A1 out){ Plato::ComplexElasticEnergy<3> op; op(c,a,b,out); }
void d_CplxEnergy_3__all(I c, A3 a, A3 b, A1 out){ Plato::ComplexElasticEnergy<3> op; op(c,a,b,out); }
void d_CplxEnergy_6__a(I c, A3 a, V3 b, A1 out){ Plato::ComplexElasticEnergy<6> op; op(c,a,b,out); }
void d_CplxEnergy_6__b(I c, V3 a, A3 b, A1 out){ Plato::ComplexElasticEnergy<6> op; op(c,a,b,out); }
void d_CplxEnergy_6__all(I c, A3 a, A3 b, A1 out){ Plato::ComplexElasticEnergy<6> op; op(c,a,b,out); }
void d_CplxInertia_1__vol(I c, S w, S rho, A1 vol, V2 st, A1 out){ Plato::ComplexInertialEnergy<1> op(w,rho); op(c,vol,st,out); }
void d_CplxInertia_1__st(I c, S w, S rho, V1 vol, A2 st, A1 out){ Plato::ComplexInertialEnergy<1> op(w,rho); op(c,vol,st,out); }
void d_CplxInertia_1__all(I c, S w, S rho, A1 vol, A2 st, A1 out){ Plato::ComplexInertialEnergy<1> op(w,rho); op(c,vol,st,out); }
void d_CplxInertia_2__vol(I c, S w, S rho, A1 vol, V2 st, A1 out){ Plato::ComplexInertialEnergy<2> op(w,rho); op(c,vol,st,out); }
void d_CplxInertia_2__st(I c, S w, S rho, V1 vol, A2 st, A1 out){ Plato::ComplexInertialEnergy<2> op(w,rho); op(c,vol,st,out); }
void d_CplxInertia_2__all(I c, S w, S rho, A1 vol, A2 st, A1 out){ Plato::ComplexInertialEnergy<2> op(w,rho); op(c,vol,st,out); }
void d_CplxInertia_3__vol(I c, S w, S rho, A1 vol, V2 st, A1 out){ Plato::ComplexInertialEnergy<3> op(w,rho); op(c,vol,st,out); }
void d_CplxInertia_3__st(I c, S w, S rho, V1 vol, A2 st, A1 out){ Plato::ComplexInertialEnergy<3> op(w,rho); op(c,vol,st,out); }
void d_CplxInertia_3__all(I c, S w, S rho, A1 vol, A2 st, A1 out){ Plato::ComplexInertialEnergy<3> op(w,rho); op(c,vol,st,out); }
void d_CplxStrain_1__u(I c, A2 u, V3 g, A3 out){ Plato::ComplexStrain<1,2*1> op; op(c,u,g,out); }
void d_CplxStrain_1__g(I c, V2 u, A3 g, A3 out){ Plato::ComplexStrain<1,2*1> op; op(c,u,g,out); }
void d_CplxStrain_1__all(I c, A2 u, A3 g, A3 out){ Plato::ComplexStrain<1,2*1> op; op(c,u,g,out); }
void d_CplxStrain_2__u(I c, A2 u, V3 g, A3 out){ Plato::ComplexStrain<2,2*2> op; op(c,u,g,out); }
void d_CplxStrain_2__g(I c, V2 u, A3 g, A3 out){ Plato::ComplexStrain<2,2*2> op; op(c,u,g,out); }
void d_CplxStrain_2__all(I c, A2 u, A3 g, A3 out){ Plato::ComplexStrain<2,2*2> op; op(c,u,g,out); }
void d_CplxStrain_3__u(I c, A2 u, V3 g, A3 out){ Plato::ComplexStrain<3,2*3> op; op(c,u,g,out); }
void d_CplxStrain_3__g(I c, V2 u, A3 g, A3 out){ Plato::ComplexStrain<3,2*3> op; op(c,u,g,out); }
void d_CplxStrain_3__all(I c, A2 u, A3 g, A3 out){ Plato::ComplexStrain<3,2*3> op; op(c,u,g,out); }
void d_CplxStressDiv_1__vol(I c, A1 vol, V3 g, V3 s, A2 out){ Plato::ComplexStressDivergence<1,2*1> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_1__g(I c, V1 vol, A3 g, V3 s, A2 out){ Plato::ComplexStressDivergence<1,2*1> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_1__s(I c, V1 vol, V3 g, A3 s, A2 out){ Plato::ComplexStressDivergence<1,2*1> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_1__all(I c, A1 vol, A3 g, A3 s, A2 out){ Plato::ComplexStressDivergence<1,2*1> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_2__vol(I c, A1 vol, V3 g, V3 s, A2 out){ Plato::ComplexStressDivergence<2,2*2> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_2__g(I c, V1 vol, A3 g, V3 s, A2 out){ Plato::ComplexStressDivergence<2,2*2> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_2__s(I c, V1 vol, V3 g, A3 s, A2 out){ Plato::ComplexStressDivergence<2,2*2> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_2__all(I c, A1 vol, A3 g, A3 s, A2 out){ Plato::ComplexStressDivergence<2,2*2> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_3__vol(I c, A1 vol, V3 g, V3 s, A2 out){ Plato::ComplexStressDivergence<3,2*3> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_3__g(I c, V1 vol, A3 g, V3 s, A2 out){ Plato::ComplexStressDivergence<3,2*3> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_3__s(I c, V1 vol, V3 g, A3 s, A2 out){ Plato::ComplexStressDivergence<3,2*3> op; op(c,vol,g,s,out); }
void d_CplxStressDiv_3__all(I c, A1 vol, A3 g, A3 s, A2 out){ Plato::ComplexStressDivergence<3,2*3> op; op(c,vol,g,s,out); }
void d_CauchyStress_1__e(I c, S K, S G, A2 e, A2 out){ Plato::ComputeCauchyStress<1> op; op(c,K,G,e,out); }
void d_CauchyStress_1__all(I c, S K, S G, A2 e, A2 out){ Plato::ComputeCauchyStress<1> op; op(c,K,G,e,out); }
void d_CauchyStress_2__e(I c, S K, S G, A2 e, A2 out){ Plato::ComputeCauchyStress<2> op; op(c,K,G,e,out); }
void d_CauchyStress_2__all(I c, S K, S G, A2 e, A2 out){ Plato::ComputeCauchyStress<2> op; op(c,K,G,e,out); }
void d_CauchyStress_3__e(I c, S K, S G, A2 e, A2 out){ Plato::ComputeCauchyStress<3> op; op(c,K,G,e,out); }
void d_CauchyStress_3__all(I c, S K, S G, A2 e, A2 out){ Plato::ComputeCauchyStress<3> op; op(c,K,G,e,out); }
void d_DevStrain_1__e(I c, A2 e, A2 out){ Plato::ComputeDeviatoricStrain<1> op; op(c,e,out); }
void d_DevStrain_1__all(I c, A2 e, A2 out){ Plato::ComputeDeviatoricStrain<1> op; op(c,e,out); }
void d_DevStrain_2__e(I c, A2 e, A2 out){ Plato::ComputeDeviatoricStrain<2> op; op(c,e,out); }
void d_DevStrain_2__all(I c, A2 e, A2 out){ Plato::ComputeDeviatoricStrain<2> op; op(c,e,out); }
void d_DevStrain_3__e(I c, A2 e, A2 out){ Plato::ComputeDeviatoricStrain<3> op; op(c,e,out); }
void d_DevStrain_3__all(I c, A2 e, A2 out){ Plato::ComputeDeviatoricStrain<3> op; op(c,e,out); }
void d_DevStress_1__G(I c, A0 G, V2 e, A2 out){ Plato::ComputeDeviatoricStress<1> op; op(c,G,e,out); }
void d_DevStress_1__e(I c, S G, A2 e, A2 out){ Plato::ComputeDeviatoricStress<1> op; op(c,G,e,out); }
void d_DevStress_1__all(I c, S G, A2 e, A2 out){ Plato::ComputeDeviatoricStress<1> op; op(c,G,e,out); }
void d_DevStress_2__G(I c, A0 G, V2 e, A2 out){ Plato::ComputeDeviatoricStress<2> op; op(c,G,e,out); }
void d_DevStress_2__e(I c, S G, A2 e, A2 out){ Plato::ComputeDeviatoricStress<2> op; op(c,G,e,out); }
void d_DevStress_2__all(I c, S G, A2 e, A2 out){ Plato::ComputeDeviatoricStress<2> op; op(c,G,e,out); }
void d_DevStress_3__G(I c, A0 G, V2 e, A2 out){ Plato::ComputeDeviatoricStress<3> op; op(c,G,e,out); }
void d_DevStress_3__e(I c, S G, A2 e, A2 out){ Plato::ComputeDeviatoricStress<3> op; op(c,G,e,out); }
void d_DevStress_3__all(I c, S G, A2 e, A2 out){ Plato::ComputeDeviatoricStress<3> op; op(c,G,e,out); }
void d_ElasticWork_1__G(I c, A0 G, S K, V2 e, V2 s, A1 out){ Plato::ComputeElasticWork<1> op; op(c,G,K,e,s,out); }
void d_ElasticWork_1__K(I c, S G, A0 K, V2 e, V2 s, A1 out){ Plato::ComputeElasticWork<1> op; op(c,G,K,e,s,out); }
void d_ElasticWork_1__e(I c, S G, S K, A2 e, V2 s, A1 out){ Plato::ComputeElasticWork<1> op; op(c,G,K,e,s,out); }
void d_ElasticWork_1__s(I c, S G, S K, V2 e, A2 s, A1 out){ Plato::ComputeElasticWork<1> op; op(c,G,K,e,s,out); }
void d_ElasticWork_1__all(I c, S G, S K, A2 e, A2 s, A1 out){ Plato::ComputeElasticWork<1> op; op(c,G,K,e,s,out); }
void d_ElasticWork_2__G(I c, A0 G, S K, V2 e, V2 s, A1 out){ Plato::ComputeElasticWork<2> op; op(c,G,K,e,s,out); }
void d_ElasticWork_2__K(I c, S G, A0 K, V2 e, V2 s, A1 out){ Plato::ComputeElasticWork<2> op; op(c,G,K,e,s,out); }
void d_ElasticWork_2__e(I c, S G, S K, A2 e, V2 s, A1 out){ Plato::ComputeElasticWork<2> op; op(c,G,K,e,s,out); }
void d_ElasticWork_2__s(I c, S G, S K, V2 e, A2 s, A1 out){ Plato::ComputeElasticWork<2> op; op(c,G,K,e,s,out); }
void d_ElasticWork_2__all(I c, S G, S K, A2 e, A2 s, A1 out){ Plato::ComputeElasticWork<2> op; op(c,G,K,e,s,out); }
void d_ElasticWork_3__G(I c, A0 G, S K, V2 e, V2 s, A1 out){ Plato::ComputeElasticWork<3> op; op(c,G,K,e,s,out); }
void d_ElasticWork_3__K(I c, S G, A0 K, V2 e, V2 s, A1 out){ Plato::ComputeElasticWork<3> op; op(c,G,K,e,s,out); }
void d_ElasticWork_3__e(I c, S G, S K, A2 e, V2 s, A1 out){ Plato::ComputeElasticWork<3> op; op(c,G,K,e,s,out); }
void d_ElasticWork_3__s(I c, S G, S K, V2 e, A2 s, A1 out){ Plato::ComputeElasticWork<3> op; op(c,G,K,e,s,out); }
void d_ElasticWork_3__all(I c, S G, S K, A2 e, A2 s, A1 out){ Plato::ComputeElasticWork<3> op; op(c,G,K,e,s,out); }
void d_FreqMisfit_1_1__b(I c, V2 a, A2 b, A1 out){ Plato::ComputeFrequencyResponseMisfit<1,1> op; op(c,a,b,out); }
void d_FreqMisfit_1_1__all(I c, V2 a, A2 b, A1 out){ Plato::ComputeFrequencyResponseMisfit<1,1> op; op(c,a,b,out); }
void d_FreqMisfit_2_1__b(I c, V2 a, A2 b, A1 out){ Plato::ComputeFrequencyResponseMisfit<2,1> op; op(c,a,b,out); }
void d_FreqMisfit_2_1__all(I c, V2 a, A2 b, A1 out){ Plato::ComputeFrequencyResponseMisfit<2,1> op; op(c,a,b,out); }
void d_FreqMisfit_3_1__b(I c, V2 a, A2 b, A1 out){ Plato::ComputeFrequencyResponseMisfit<3,1> op; op(c,a,b,out); }
void d_FreqMisfit_3_1__all(I c, V2 a, A2 b, A1 out){ Plato::ComputeFrequencyResponseMisfit<3,1> op; op(c,a,b,out); }
void d_Stabilize_1__vol(I c, S sc, S G, A1 vol, V2 gp, V2 pg, A2 out){ Plato::ComputeStabilization<1> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_1__gp(I c, S sc, S G, V1 vol, A2 gp, V2 pg, A2 out){ Plato::ComputeStabilization<1> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_1__pg(I c, S sc, S G, V1 vol, V2 gp, A2 pg, A2 out){ Plato::ComputeStabilization<1> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_1__all(I c, S sc, S G, A1 vol, A2 gp, A2 pg, A2 out){ Plato::ComputeStabilization<1> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_2__vol(I c, S sc, S G, A1 vol, V2 gp, V2 pg, A2 out){ Plato::ComputeStabilization<2> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_2__gp(I c, S sc, S G, V1 vol, A2 gp, V2 pg, A2 out){ Plato::ComputeStabilization<2> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_2__pg(I c, S sc, S G, V1 vol, V2 gp, A2 pg, A2 out){ Plato::ComputeStabilization<2> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_2__all(I c, S sc, S G, A1 vol, A2 gp, A2 pg, A2 out){ Plato::ComputeStabilization<2> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_3__vol(I c, S sc, S G, A1 vol, V2 gp, V2 pg, A2 out){ Plato::ComputeStabilization<3> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_3__gp(I c, S sc, S G, V1 vol, A2 gp, V2 pg, A2 out){ Plato::ComputeStabilization<3> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_3__pg(I c, S sc, S G, V1 vol, V2 gp, A2 pg, A2 out){ Plato::ComputeStabilization<3> op(sc,G); op(c,vol,gp,pg,out); }
void d_Stabilize_3__all(I c, S sc, S G, A1 vol, A2 gp, A2 pg, A2 out){ Plato::ComputeStabilization<3> op(sc,G); op(c,vol,gp,pg,out); }
void d_Dot_1__a(I c, A2 a, V2 b, A1 out){ Plato::DotProduct<1> op; op(c,a,b,out); }
void d_Dot_1__b(I c, V2 a, A2 b, A1 out){ Plato::DotProduct<1> op; op(c,a,b,out); }
void d_Dot_1__all(I c, A2 a, A2 b, A1 out){ Plato::DotProduct<1> op; op(c,a,b,out); }
void d_Dot_3__a(I c, A2 a, V2 b, A1 out){ Plato::DotProduct<3> op; op(c,a,b,out); }
void d_Dot_3__b(I c, V2 a, A2 b, A1 out){ Plato::DotProduct<3> op; op(c,a,b,out); }
void d_Dot_3__all(I c, A2 a, A2 b, A1 out){ Plato::DotProduct<3> op; op(c,a,b,out); }
void d_Dot_6__a(I c, A2 a, V2 b, A1 out){ Plato::DotProduct<6> op; op(c,a,b,out); }
void d_Dot_6__b(I c, V2 a, A2 b, A1 out){ Plato::DotProduct<6> op; op(c,a,b,out); }
void d_Dot_6__all(I c, A2 a, A2 b, A1 out){ Plato::DotProduct<6> op; op(c,a,b,out); }
void d_DDot_1__a(I c, A2 a, V2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<1> op; op(c,a,b,out); }
void d_DDot_1__b(I c, V2 a, A2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<1> op; op(c,a,b,out); }
void d_DDot_1__all(I c, A2 a, A2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<1> op; op(c,a,b,out); }
void d_DDot_2__a(I c, A2 a, V2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<2> op; op(c,a,b,out); }
void d_DDot_2__b(I c, V2 a, A2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<2> op; op(c,a,b,out); }
void d_DDot_2__all(I c, A2 a, A2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<2> op; op(c,a,b,out); }
void d_DDot_3__a(I c, A2 a, V2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<3> op; op(c,a,b,out); }
void d_DDot_3__b(I c, V2 a, A2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<3> op; op(c,a,b,out); }
void d_DDot_3__all(I c, A2 a, A2 b, A1 out){ Plato::DoubleDotProduct2ndOrderTensor<3> op; op(c,a,b,out); }
void d_EMKin_1__u(I c, A2 strain, A2 ef, A2 u, V3 g){ Plato::EMKinematics<1> op; op(c,strain,ef,u,g); }
void d_EMKin_1__g(I c, A2 strain, A2 ef, V2 u, A3 g){ Plato::EMKinematics<1> op; op(c,strain,ef,u,g); }
void d_EMKin_1__all(I c, A2 strain, A2 ef, A2 u, A3 g){ Plato::EMKinematics<1> op; op(c,strain,ef,u,g); }
void d_EMKin_2__u(I c, A2 strain, A2 ef, A2 u, V3 g){ Plato::EMKinematics<2> op; op(c,strain,ef,u,g); }
void d_EMKin_2__g(I c, A2 strain, A2 ef, V2 u, A3 g){ Plato::EMKinematics<2> op; op(c,strain,ef,u,g); }
void d_EMKin_2__all(I c, A2 strain, A2 ef, A2 u, A3 g){ Plato::EMKinematics<2> op; op(c,strain,ef,u,g); }
void d_EMKin_3__u(I c, A2 strain, A2 ef, A2 u, V3 g){ Plato::EMKinematics<3> op; op(c,strain,ef,u,g); }
void d_EMKin_3__g(I c, A2 strain, A2 ef, V2 u, A3 g){ Plato::EMKinematics<3> op; op(c,strain,ef,u,g); }
void d_EMKin_3__all(I c, A2 strain, A2 ef, A2 u, A3 g){ Plato::EMKinematics<3> op; op(c,strain,ef,u,g); }
void d_TMKin_1__u(I c, A2 strain, A2 tg, A2 u, V3 g){ Plato::TMKinematics<1> op; op(c,strain,tg,u,g); }
void d_TMKin_1__g(I c, A2 strain, A2 tg, V2 u, A3 g){ Plato::TMKinematics<1> op; op(c,strain,tg,u,g); }
void d_TMKin_1__all(I c, A2 strain, A2 tg, A2 u, A3 g){ Plato::TMKinematics<1> op; op(c,strain,tg,u,g); }
void d_TMKin_2__u(I c, A2 strain, A2 tg, A2 u, V3 g){ Plato::TMKinematics<2> op; op(c,strain,tg,u,g); }
void d_TMKin_2__g(I c, A2 strain, A2 tg, V2 u, A3 g){ Plato::TMKinematics<2> op; op(c,strain,tg,u,g); }
void d_TMKin_2__all(I c, A2 strain, A2 tg, A2 u, A3 g){ Plato::TMKinematics<2> op; op(c,strain,tg,u,g); }
void d_TMKin_3__u(I c, A2 strain, A2 tg, A2 u, V3 g){ Plato::TMKinematics<3> op; op(c,strain,tg,u,g); }
void d_TMKin_3__g(I c, A2 strain, A2 tg, V2 u, A3 g){ Plato::TMKinematics<3> op; op(c,strain,tg,u,g); }
void d_TMKin_3__all(I c, A2 strain, A2 tg, A2 u, A3 g){ Plato::TMKinematics<3> op; op(c,strain,tg,u,g); }
void d_StabTMKin_1__u(I c, A2 strain, A2 pg, A2 tg, A2 u, V3 g){ Plato::StabilizedTMKinematics<1> op; op(c,strain,pg,tg,u,g); }
void d_StabTMKin_1__g(I c, A2 strain, A2 pg, A2 tg, V2 u, A3 g){ Plato::StabilizedTMKinematics<1> op; op(c,strain,pg,tg,u,g); }
void d_StabTMKin_1__all(I c, A2 strain, A2 pg, A2 tg, A2 u, A3 g){ Plato::StabilizedTMKinematics<1> op; op(c,strain,pg,tg,u,g); }
void d_StabTMKin_2__u(I c, A2 strain, A2 pg, A2 tg, A2 u, V3 g){ Plato::StabilizedTMKinematics<2> op; op(c,strain,pg,tg,u,g); }
void d_StabTMKin_2__g(I c, A2 strain, A2 pg, A2 tg, V2 u, A3 g){ Plato::StabilizedTMKinematics<2> op; op(c,strain,pg,tg,u,g); }
void d_StabTMKin_2__all(I c, A2 strain, A2 pg, A2 tg, A2 u, A3 g){ Plato::StabilizedTMKinematics<2> op; op(c,strain,pg,tg,u,g); }
void d_StabTMKin_3__u(I c, A2 strain, A2 pg, A2 tg, A2 u, V3 g){ Plato::StabilizedTMKinematics<3> op; op(c,strain,pg,tg,u,g); }
void d_StabTMKin_3__g(I c, A2 strain, A2 pg, A2 tg, V2 u, A3 g){ Plato::StabilizedTMKinematics<3> op; op(c,strain,pg,tg,u,g); }
void d_StabTMKin_3__all(I c, A2 strain, A2 pg, A2 tg, A2 u, A3 g){ Plato::StabilizedTMKinematics<3> op; op(c,strain,pg,tg,u,g); }
void d_StabKin_1__u(I c, A2 strain, A2 pg, A2 u, V3 g){ Plato::StabilizedKinematics<1> op; op(c,strain,pg,u,g); }
void d_StabKin_1__g(I c, A2 strain, A2 pg, V2 u, A3 g){ Plato::StabilizedKinematics<1> op; op(c,strain,pg,u,g); }
void d_StabKin_1__all(I c, A2 strain, A2 pg, A2 u, A3 g){ Plato::StabilizedKinematics<1> op; op(c,strain,pg,u,g); }
void d_StabKin_2__u(I c, A2 strain, A2 pg, A2 u, V3 g){ Plato::StabilizedKinematics<2> op; op(c,strain,pg,u,g); }
void d_StabKin_2__g(I c, A2 strain, A2 pg, V2 u, A3 g){ Plato::StabilizedKinematics<2> op; op(c,strain,pg,u,g); }
void d_StabKin_2__all(I c, A2 strain, A2 pg, A2 u, A3 g){ Plato::StabilizedKinematics<2> op; op(c,strain,pg,u,g); }
void d_StabKin_3__u(I c, A2 strain, A2 pg, A2 u, V3 g){ Plato::StabilizedKinematics<3> op; op(c,strain,pg,u,g); }
void d_StabKin_3__g(I c, A2 strain, A2 pg, V2 u, A3 g){ Plato::StabilizedKinematics<3> op; op(c,strain,pg,u,g); }
void d_StabKin_3__all(I c, A2 strain, A2 pg, A2 u, A3 g){ Plato::StabilizedKinematics<3> op; op(c,strain,pg,u,g); }
void d_FluxDiv_1_1_0__f(I c, A2 out, A2 f, V3 g, V1 vol, S sc){ Plato::FluxDivergence<1,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_1_1_0__g(I c, A2 out, V2 f, A3 g, V1 vol, S sc){ Plato::FluxDivergence<1,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_1_1_0__vol(I c, A2 out, V2 f, V3 g, A1 vol, S sc){ Plato::FluxDivergence<1,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_1_1_0__all(I c, A2 out, A2 f, A3 g, A1 vol, S sc){ Plato::FluxDivergence<1,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_2_1_0__f(I c, A2 out, A2 f, V3 g, V1 vol, S sc){ Plato::FluxDivergence<2,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_2_1_0__g(I c, A2 out, V2 f, A3 g, V1 vol, S sc){ Plato::FluxDivergence<2,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_2_1_0__vol(I c, A2 out, V2 f, V3 g, A1 vol, S sc){ Plato::FluxDivergence<2,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_2_1_0__all(I c, A2 out, A2 f, A3 g, A1 vol, S sc){ Plato::FluxDivergence<2,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_3_1_0__f(I c, A2 out, A2 f, V3 g, V1 vol, S sc){ Plato::FluxDivergence<3,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_3_1_0__g(I c, A2 out, V2 f, A3 g, V1 vol, S sc){ Plato::FluxDivergence<3,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_3_1_0__vol(I c, A2 out, V2 f, V3 g, A1 vol, S sc){ Plato::FluxDivergence<3,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_3_1_0__all(I c, A2 out, A2 f, A3 g, A1 vol, S sc){ Plato::FluxDivergence<3,1,0> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_2_3_2__f(I c, A2 out, A2 f, V3 g, V1 vol, S sc){ Plato::FluxDivergence<2,3,2> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_2_3_2__g(I c, A2 out, V2 f, A3 g, V1 vol, S sc){ Plato::FluxDivergence<2,3,2> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_2_3_2__vol(I c, A2 out, V2 f, V3 g, A1 vol, S sc){ Plato::FluxDivergence<2,3,2> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_2_3_2__all(I c, A2 out, A2 f, A3 g, A1 vol, S sc){ Plato::FluxDivergence<2,3,2> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_3_4_3__f(I c, A2 out, A2 f, V3 g, V1 vol, S sc){ Plato::FluxDivergence<3,4,3> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_3_4_3__g(I c, A2 out, V2 f, A3 g, V1 vol, S sc){ Plato::FluxDivergence<3,4,3> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_3_4_3__vol(I c, A2 out, V2 f, V3 g, A1 vol, S sc){ Plato::FluxDivergence<3,4,3> op; op(c,out,f,g,vol,sc); }
void d_FluxDiv_3_4_3__all(I c, A2 out, A2 f, A3 g, A1 vol, S sc){ Plato::FluxDivergence<3,4,3> op; op(c,out,f,g,vol,sc); }
void d_StressDiv_1_1_0__s(I c, A2 out, A2 s, V3 g, V1 vol, S sc){ Plato::StressDivergence<1,1,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_1_1_0__g(I c, A2 out, V2 s, A3 g, V1 vol, S sc){ Plato::StressDivergence<1,1,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_1_1_0__vol(I c, A2 out, V2 s, V3 g, A1 vol, S sc){ Plato::StressDivergence<1,1,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_1_1_0__all(I c, A2 out, A2 s, A3 g, A1 vol, S sc){ Plato::StressDivergence<1,1,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_2_2_0__s(I c, A2 out, A2 s, V3 g, V1 vol, S sc){ Plato::StressDivergence<2,2,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_2_2_0__g(I c, A2 out, V2 s, A3 g, V1 vol, S sc){ Plato::StressDivergence<2,2,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_2_2_0__vol(I c, A2 out, V2 s, V3 g, A1 vol, S sc){ Plato::StressDivergence<2,2,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_2_2_0__all(I c, A2 out, A2 s, A3 g, A1 vol, S sc){ Plato::StressDivergence<2,2,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_3_0__s(I c, A2 out, A2 s, V3 g, V1 vol, S sc){ Plato::StressDivergence<3,3,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_3_0__g(I c, A2 out, V2 s, A3 g, V1 vol, S sc){ Plato::StressDivergence<3,3,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_3_0__vol(I c, A2 out, V2 s, V3 g, A1 vol, S sc){ Plato::StressDivergence<3,3,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_3_0__all(I c, A2 out, A2 s, A3 g, A1 vol, S sc){ Plato::StressDivergence<3,3,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_2_4_0__s(I c, A2 out, A2 s, V3 g, V1 vol, S sc){ Plato::StressDivergence<2,4,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_2_4_0__g(I c, A2 out, V2 s, A3 g, V1 vol, S sc){ Plato::StressDivergence<2,4,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_2_4_0__vol(I c, A2 out, V2 s, V3 g, A1 vol, S sc){ Plato::StressDivergence<2,4,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_2_4_0__all(I c, A2 out, A2 s, A3 g, A1 vol, S sc){ Plato::StressDivergence<2,4,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_4_0__s(I c, A2 out, A2 s, V3 g, V1 vol, S sc){ Plato::StressDivergence<3,4,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_4_0__g(I c, A2 out, V2 s, A3 g, V1 vol, S sc){ Plato::StressDivergence<3,4,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_4_0__vol(I c, A2 out, V2 s, V3 g, A1 vol, S sc){ Plato::StressDivergence<3,4,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_4_0__all(I c, A2 out, A2 s, A3 g, A1 vol, S sc){ Plato::StressDivergence<3,4,0> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_5_1__s(I c, A2 out, A2 s, V3 g, V1 vol, S sc){ Plato::StressDivergence<3,5,1> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_5_1__g(I c, A2 out, V2 s, A3 g, V1 vol, S sc){ Plato::StressDivergence<3,5,1> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_5_1__vol(I c, A2 out, V2 s, V3 g, A1 vol, S sc){ Plato::StressDivergence<3,5,1> op; op(c,out,s,g,vol,sc); }
void d_StressDiv_3_5_1__all(I c, A2 out, A2 s, A3 g, A1 vol, S sc){ Plato::StressDivergence<3,5,1> op; op(c,out,s,g,vol,sc); }
void d_PressDiv_1_1_0__p(I c, A2 out, A1 p, V3 g, V1 vol, S sc){ Plato::PressureDivergence<1,1,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_1_1_0__g(I c, A2 out, V1 p, A3 g, V1 vol, S sc){ Plato::PressureDivergence<1,1,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_1_1_0__vol(I c, A2 out, V1 p, V3 g, A1 vol, S sc){ Plato::PressureDivergence<1,1,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_1_1_0__all(I c, A2 out, A1 p, A3 g, A1 vol, S sc){ Plato::PressureDivergence<1,1,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_2_2_0__p(I c, A2 out, A1 p, V3 g, V1 vol, S sc){ Plato::PressureDivergence<2,2,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_2_2_0__g(I c, A2 out, V1 p, A3 g, V1 vol, S sc){ Plato::PressureDivergence<2,2,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_2_2_0__vol(I c, A2 out, V1 p, V3 g, A1 vol, S sc){ Plato::PressureDivergence<2,2,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_2_2_0__all(I c, A2 out, A1 p, A3 g, A1 vol, S sc){ Plato::PressureDivergence<2,2,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_3_0__p(I c, A2 out, A1 p, V3 g, V1 vol, S sc){ Plato::PressureDivergence<3,3,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_3_0__g(I c, A2 out, V1 p, A3 g, V1 vol, S sc){ Plato::PressureDivergence<3,3,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_3_0__vol(I c, A2 out, V1 p, V3 g, A1 vol, S sc){ Plato::PressureDivergence<3,3,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_3_0__all(I c, A2 out, A1 p, A3 g, A1 vol, S sc){ Plato::PressureDivergence<3,3,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_2_3_0__p(I c, A2 out, A1 p, V3 g, V1 vol, S sc){ Plato::PressureDivergence<2,3,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_2_3_0__g(I c, A2 out, V1 p, A3 g, V1 vol, S sc){ Plato::PressureDivergence<2,3,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_2_3_0__vol(I c, A2 out, V1 p, V3 g, A1 vol, S sc){ Plato::PressureDivergence<2,3,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_2_3_0__all(I c, A2 out, A1 p, A3 g, A1 vol, S sc){ Plato::PressureDivergence<2,3,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_5_0__p(I c, A2 out, A1 p, V3 g, V1 vol, S sc){ Plato::PressureDivergence<3,5,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_5_0__g(I c, A2 out, V1 p, A3 g, V1 vol, S sc){ Plato::PressureDivergence<3,5,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_5_0__vol(I c, A2 out, V1 p, V3 g, A1 vol, S sc){ Plato::PressureDivergence<3,5,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_5_0__all(I c, A2 out, A1 p, A3 g, A1 vol, S sc){ Plato::PressureDivergence<3,5,0> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_5_1__p(I c, A2 out, A1 p, V3 g, V1 vol, S sc){ Plato::PressureDivergence<3,5,1> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_5_1__g(I c, A2 out, V1 p, A3 g, V1 vol, S sc){ Plato::PressureDivergence<3,5,1> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_5_1__vol(I c, A2 out, V1 p, V3 g, A1 vol, S sc){ Plato::PressureDivergence<3,5,1> op; op(c,out,p,g,vol,sc); }
void d_PressDiv_3_5_1__all(I c, A2 out, A1 p, A3 g, A1 vol, S sc){ Plato::PressureDivergence<3,5,1> op; op(c,out,p,g,vol,sc); }
void d_PressGrad_1__p(I c, S sc, A2 out, A2 p, V3 g){ Plato::PressureGradient<1> op(sc); op(c,out,p,g); }
void d_PressGrad_1__g(I c, S sc, A2 out, V2 p, A3 g){ Plato::PressureGradient<1> op(sc); op(c,out,p,g); }
void d_PressGrad_1__all(I c, S sc, A2 out, A2 p, A3 g){ Plato::PressureGradient<1> op(sc); op(c,out,p,g); }
void d_PressGrad_2__p(I c, S sc, A2 out, A2 p, V3 g){ Plato::PressureGradient<2> op(sc); op(c,out,p,g); }
void d_PressGrad_2__g(I c, S sc, A2 out, V2 p, A3 g){ Plato::PressureGradient<2> op(sc); op(c,out,p,g); }
void d_PressGrad_2__all(I c, S sc, A2 out, A2 p, A3 g){ Plato::PressureGradient<2> op(sc); op(c,out,p,g); }
void d_PressGrad_3__p(I c, S sc, A2 out, A2 p, V3 g){ Plato::PressureGradient<3> op(sc); op(c,out,p,g); }
void d_PressGrad_3__g(I c, S sc, A2 out, V2 p, A3 g){ Plato::PressureGradient<3> op(sc); op(c,out,p,g); }
void d_PressGrad_3__all(I c, S sc, A2 out, A2 p, A3 g){ Plato::PressureGradient<3> op(sc); op(c,out,p,g); }
void d_ProjNode2_1_1_0__vol(I c, A1 vol, V1 N, V2 s, A2 out, S sc){ Plato::ProjectToNode<1,1,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_1_1_0__s(I c, V1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<1,1,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_1_1_0__all(I c, A1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<1,1,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_2_2_0__vol(I c, A1 vol, V1 N, V2 s, A2 out, S sc){ Plato::ProjectToNode<2,2,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_2_2_0__s(I c, V1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<2,2,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_2_2_0__all(I c, A1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<2,2,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_3_3_0__vol(I c, A1 vol, V1 N, V2 s, A2 out, S sc){ Plato::ProjectToNode<3,3,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_3_3_0__s(I c, V1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<3,3,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_3_3_0__all(I c, A1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<3,3,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_2_3_0__vol(I c, A1 vol, V1 N, V2 s, A2 out, S sc){ Plato::ProjectToNode<2,3,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_2_3_0__s(I c, V1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<2,3,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_2_3_0__all(I c, A1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<2,3,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_3_5_1__vol(I c, A1 vol, V1 N, V2 s, A2 out, S sc){ Plato::ProjectToNode<3,5,1> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_3_5_1__s(I c, V1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<3,5,1> op; op(c,vol,N,s,out,sc); }
void d_ProjNode2_3_5_1__all(I c, A1 vol, V1 N, A2 s, A2 out, S sc){ Plato::ProjectToNode<3,5,1> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_1_1_0__vol(I c, A1 vol, V1 N, V1 s, A2 out, S sc){ Plato::ProjectToNode<1,1,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_1_1_0__s(I c, V1 vol, V1 N, A1 s, A2 out, S sc){ Plato::ProjectToNode<1,1,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_1_1_0__all(I c, A1 vol, V1 N, A1 s, A2 out, S sc){ Plato::ProjectToNode<1,1,0> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_2_3_2__vol(I c, A1 vol, V1 N, V1 s, A2 out, S sc){ Plato::ProjectToNode<2,3,2> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_2_3_2__s(I c, V1 vol, V1 N, A1 s, A2 out, S sc){ Plato::ProjectToNode<2,3,2> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_2_3_2__all(I c, A1 vol, V1 N, A1 s, A2 out, S sc){ Plato::ProjectToNode<2,3,2> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_3_4_3__vol(I c, A1 vol, V1 N, V1 s, A2 out, S sc){ Plato::ProjectToNode<3,4,3> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_3_4_3__s(I c, V1 vol, V1 N, A1 s, A2 out, S sc){ Plato::ProjectToNode<3,4,3> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_3_4_3__all(I c, A1 vol, V1 N, A1 s, A2 out, S sc){ Plato::ProjectToNode<3,4,3> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_3_5_3__vol(I c, A1 vol, V1 N, V1 s, A2 out, S sc){ Plato::ProjectToNode<3,5,3> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_3_5_3__s(I c, V1 vol, V1 N, A1 s, A2 out, S sc){ Plato::ProjectToNode<3,5,3> op; op(c,vol,N,s,out,sc); }
void d_ProjNode1_3_5_3__all(I c, A1 vol, V1 N, A1 s, A2 out, S sc){ Plato::ProjectToNode<3,5,3> op; op(c,vol,N,s,out,sc); }
void d_Interp1_1_1_0__u(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<1,1,0> op; op(c,N,u,out); }
void d_Interp1_1_1_0__all(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<1,1,0> op; op(c,N,u,out); }
void d_Interp1_2_1_0__u(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<2,1,0> op; op(c,N,u,out); }
void d_Interp1_2_1_0__all(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<2,1,0> op; op(c,N,u,out); }
void d_Interp1_3_1_0__u(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<3,1,0> op; op(c,N,u,out); }
void d_Interp1_3_1_0__all(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<3,1,0> op; op(c,N,u,out); }
void d_Interp1_2_3_2__u(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<2,3,2> op; op(c,N,u,out); }
void d_Interp1_2_3_2__all(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<2,3,2> op; op(c,N,u,out); }
void d_Interp1_3_5_3__u(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<3,5,3> op; op(c,N,u,out); }
void d_Interp1_3_5_3__all(I c, V1 N, A2 u, A1 out){ Plato::InterpolateFromNodal<3,5,3> op; op(c,N,u,out); }
void d_Interp2_1_1_0_1__u(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<1,1,0,1> op; op(c,N,u,out); }
void d_Interp2_1_1_0_1__all(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<1,1,0,1> op; op(c,N,u,out); }
void d_Interp2_2_2_0_2__u(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<2,2,0,2> op; op(c,N,u,out); }
void d_Interp2_2_2_0_2__all(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<2,2,0,2> op; op(c,N,u,out); }
void d_Interp2_3_3_0_3__u(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<3,3,0,3> op; op(c,N,u,out); }
void d_Interp2_3_3_0_3__all(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<3,3,0,3> op; op(c,N,u,out); }
void d_Interp2_2_4_0_2__u(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<2,4,0,2> op; op(c,N,u,out); }
void d_Interp2_2_4_0_2__all(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<2,4,0,2> op; op(c,N,u,out); }
void d_Interp2_3_5_1_3__u(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<3,5,1,3> op; op(c,N,u,out); }
void d_Interp2_3_5_1_3__all(I c, V1 N, A2 u, A2 out){ Plato::InterpolateFromNodal<3,5,1,3> op; op(c,N,u,out); }
void d_InterpGrad_1_1_0__g(I c, A3 g, V2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<1,1,0> op; op(c,g,u,out); }
void d_InterpGrad_1_1_0__u(I c, V3 g, A2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<1,1,0> op; op(c,g,u,out); }
void d_InterpGrad_1_1_0__all(I c, A3 g, A2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<1,1,0> op; op(c,g,u,out); }
void d_InterpGrad_2_1_0__g(I c, A3 g, V2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<2,1,0> op; op(c,g,u,out); }
void d_InterpGrad_2_1_0__u(I c, V3 g, A2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<2,1,0> op; op(c,g,u,out); }
void d_InterpGrad_2_1_0__all(I c, A3 g, A2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<2,1,0> op; op(c,g,u,out); }
void d_InterpGrad_3_1_0__g(I c, A3 g, V2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<3,1,0> op; op(c,g,u,out); }
void d_InterpGrad_3_1_0__u(I c, V3 g, A2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<3,1,0> op; op(c,g,u,out); }
void d_InterpGrad_3_1_0__all(I c, A3 g, A2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<3,1,0> op; op(c,g,u,out); }
void d_InterpGrad_3_5_4__g(I c, A3 g, V2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<3,5,4> op; op(c,g,u,out); }
void d_InterpGrad_3_5_4__u(I c, V3 g, A2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<3,5,4> op; op(c,g,u,out); }
void d_InterpGrad_3_5_4__all(I c, A3 g, A2 u, A2 out){ Plato::InterpolateGradientFromScalarNodal<3,5,4> op; op(c,g,u,out); }
void d_Inertial__vol(I c, S rho, A1 vol, V1 N, V2 s, A2 out){ Plato::InertialForces op(rho); op(c,vol,N,s,out); }
void d_Inertial__s(I c, S rho, V1 vol, V1 N, A2 s, A2 out){ Plato::InertialForces op(rho); op(c,vol,N,s,out); }
void d_Inertial__all(I c, S rho, A1 vol, V1 N, A2 s, A2 out){ Plato::InertialForces op(rho); op(c,vol,N,s,out); }
void d_StateValues__u(I c, V1 N, A2 u, A2 out){ Plato::StateValues op; op(c,N,u,out); }
void d_StateValues__all(I c, V1 N, A2 u, A2 out){ Plato::StateValues op; op(c,N,u,out); }
void d_StrainDiv_1__e(I c, A2 e, A1 out){ Plato::StrainDivergence<1> op; op(c,e,out); }
void d_StrainDiv_1__all(I c, A2 e, A1 out){ Plato::StrainDivergence<1> op; op(c,e,out); }
void d_StrainDiv_2__e(I c, A2 e, A1 out){ Plato::StrainDivergence<2> op; op(c,e,out); }
void d_StrainDiv_2__all(I c, A2 e, A1 out){ Plato::StrainDivergence<2> op; op(c,e,out); }
void d_StrainDiv_3__e(I c, A2 e, A1 out){ Plato::StrainDivergence<3> op; op(c,e,out); }
void d_StrainDiv_3__all(I c, A2 e, A1 out){ Plato::StrainDivergence<3> op; op(c,e,out); }
void d_SDResidual_4__all(I c, S ww, A2 e, A2 dmp, A2 in, A2 out){ Plato::structural_dynamics_cell_residual<4>(c,ww,e,dmp,in,out); }
void d_SDResidual_12__all(I c, S ww, A2 e, A2 dmp, A2 in, A2 out){ Plato::structural_dynamics_cell_residual<12>(c,ww,e,dmp,in,out); }
void d_Tensile_1__e(I c, A2 e, S lam, S mu, A1 out){ Plato::TensileEnergyDensity<1> op; op(c,e,lam,mu,out); }
void d_Tensile_1__all(I c, A2 e, S lam, S mu, A1 out){ Plato::TensileEnergyDensity<1> op; op(c,e,lam,mu,out); }
void d_Tensile_2__e(I c, A2 e, S lam, S mu, A1 out){ Plato::TensileEnergyDensity<2> op; op(c,e,lam,mu,out); }
void d_Tensile_2__all(I c, A2 e, S lam, S mu, A1 out){ Plato::TensileEnergyDensity<2> op; op(c,e,lam,mu,out); }
void d_Tensile_3__e(I c, A2 e, S lam, S mu, A1 out){ Plato::TensileEnergyDensity<3> op; op(c,e,lam,mu,out); }
void d_Tensile_3__all(I c, A2 e, S lam, S mu, A1 out){ Plato::TensileEnergyDensity<3> op; op(c,e,lam,mu,out); }
void d_VonMises_1__s(I c, A2 s, A1 out){ Plato::VonMisesYieldFunction<1> op; op(c,s,out); }
void d_VonMises_1__all(I c, A2 s, A1 out){ Plato::VonMisesYieldFunction<1> op; op(c,s,out); }
void d_VonMises_2__s(I c, A2 s, A1 out){ Plato::VonMisesYieldFunction<2> op; op(c,s,out); }
void d_VonMises_2__all(I c, A2 s, A1 out){ Plato::VonMisesYieldFunction<2> op; op(c,s,out); }
void d_VonMises_3__s(I c, A2 s, A1 out){ Plato::VonMisesYieldFunction<3> op; op(c,s,out); }
void d_VonMises_3__all(I c, A2 s, A1 out){ Plato::VonMisesYieldFunction<3> op; op(c,s,out); }
void d_VecPNorm_1__a(I c, A1 out, A2 a, I p, V1 vol){ Plato::VectorPNorm<1> op; op(c,out,a,p,vol); }
void d_VecPNorm_1__vol(I c, A1 out, V2 a, I p, A1 vol){ Plato::VectorPNorm<1> op; op(c,out,a,p,vol); }
void d_VecPNorm_1__all(I c, A1 out, A2 a, I p, A1 vol){ Plato::VectorPNorm<1> op; op(c,out,a,p,vol); }
void d_VecPNorm_2__a(I c, A1 out, A2 a, I p, V1 vol){ Plato::VectorPNorm<2> op; op(c,out,a,p,vol); }
void d_VecPNorm_2__vol(I c, A1 out, V2 a, I p, A1 vol){ Plato::VectorPNorm<2> op; op(c,out,a,p,vol); }
void d_VecPNorm_2__all(I c, A1 out, A2 a, I p, A1 vol){ Plato::VectorPNorm<2> op; op(c,out,a,p,vol); }
void d_VecPNorm_3__a(I c, A1 out, A2 a, I p, V1 vol){ Plato::VectorPNorm<3> op; op(c,out,a,p,vol); }
void d_VecPNorm_3__vol(I c, A1 out, V2 a, I p, A1 vol){ Plato::VectorPNorm<3> op; op(c,out,a,p,vol); }
void d_VecPNorm_3__all(I c, A1 out, A2 a, I p, A1 vol){ Plato::VectorPNorm<3> op; op(c,out,a,p,vol); }
void d_TensPNorm_1__a(Teuchos::ParameterList pl, I c, A1 out, A2 a, I p, V1 vol){ Plato::TensorPNormFunctor<1> op(pl); op(c,out,a,p,vol); }
void d_TensPNorm_1__vol(Teuchos::ParameterList pl, I c, A1 out, V2 a, I p, A1 vol){ Plato::TensorPNormFunctor<1> op(pl); op(c,out,a,p,vol); }
void d_TensPNorm_1__all(Teuchos::ParameterList pl, I c, A1 out, A2 a, I p, A1 vol){ Plato::TensorPNormFunctor<1> op(pl); op(c,out,a,p,vol); }
void d_TensPNorm_3__a(Teuchos::ParameterList pl, I c, A1 out, A2 a, I p, V1 vol){ Plato::TensorPNormFunctor<3> op(pl); op(c,out,a,p,vol); }
void d_TensPNorm_3__vol(Teuchos::ParameterList pl, I c, A1 out, V2 a, I p, A1 vol){ Plato::TensorPNormFunctor<3> op(pl); op(c,out,a,p,vol); }
void d_TensPNorm_3__all(Teuchos::ParameterList pl, I c, A1 out, A2 a, I p, A1 vol){ Plato::TensorPNormFunctor<3> op(pl); op(c,out,a,p,vol); }
void d_TensPNorm_6__a(Teuchos::ParameterList pl, I c, A1 out, A2 a, I p, V1 vol){ Plato::TensorPNormFunctor<6> op(pl); op(c,out,a,p,vol); }
void d_TensPNorm_6__vol(Teuchos::ParameterList pl, I c, A1 out, V2 a, I p, A1 vol){ Plato::TensorPNormFunctor<6> op(pl); op(c,out,a,p,vol); }
void d_TensPNorm_6__all(Teuchos::ParameterList pl, I c, A1 out, A2 a, I p, A1 vol){ Plato::TensorPNormFunctor<6> op(pl); op(c,out,a,p,vol); }
A0 d_cell_mass_2__z(I c, V1 N, A2 z){ return Plato::cell_mass<2>(c,N,z); }
A0 d_cell_mass_2__all(I c, V1 N, A2 z){ return Plato::cell_mass<2>(c,N,z); }
A0 d_cell_mass_3__z(I c, V1 N, A2 z){ return Plato::cell_mass<3>(c,N,z); }
A0 d_cell_mass_3__all(I c, V1 N, A2 z){ return Plato::cell_mass<3>(c,N,z); }
A0 d_cell_mass_4__z(I c, V1 N, A2 z){ return Plato::cell_mass<4>(c,N,z); }
A0 d_cell_mass_4__all(I c, V1 N, A2 z){ return Plato::cell_mass<4>(c,N,z); }
A0 d_cell_density_2__z(I c, A2 z){ return Plato::cell_density<2>(c,z); }
A0 d_cell_density_2__all(I c, A2 z){ return Plato::cell_density<2>(c,z); }
A0 d_cell_density_3__z(I c, A2 z){ return Plato::cell_density<3>(c,z); }
A0 d_cell_density_3__all(I c, A2 z){ return Plato::cell_density<3>(c,z); }
A0 d_cell_density_4__z(I c, A2 z){ return Plato::cell_density<4>(c,z); }
A0 d_cell_density_4__all(I c, A2 z){ return Plato::cell_density<4>(c,z); }
void d_J2_norm_2__s(I c, A2 s, V2 q, A2 out, A1 nrm){ Plato::J2PlasticityUtilities<2> op; op.computeDeviatoricStressMinusBackstressNormalized(c,s,q,out,nrm); }
void d_J2_norm_2__all(I c, A2 s, A2 q, A2 out, A1 nrm){ Plato::J2PlasticityUtilities<2> op; op.computeDeviatoricStressMinusBackstressNormalized(c,s,q,out,nrm); }
void d_J2_misfit_2__a(I c, A2 a, V2 b, A2 out){ Plato::J2PlasticityUtilities<2> op; op.computePlasticStrainMisfit(c,a,b,out); }
void d_J2_misfit_2__b(I c, V2 a, A2 b, A2 out){ Plato::J2PlasticityUtilities<2> op; op.computePlasticStrainMisfit(c,a,b,out); }
void d_J2_misfit_2__all(I c, A2 a, A2 b, A2 out){ Plato::J2PlasticityUtilities<2> op; op.computePlasticStrainMisfit(c,a,b,out); }
void d_J2_resPsP_2__q(I c, A2 q, V2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); }
void d_J2_resPsP_2__prev(I c, V2 q, A2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); }
void d_J2_resPsP_2__nrm(I c, V2 q, V2 prev, A2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); }
void d_J2_resPsP_2__all(I c, A2 q, A2 prev, A2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); }
void d_J2_resBsP_2__H(I c, A0 H, V2 q, V2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resBsP_2__q(I c, S H, A2 q, V2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resBsP_2__prev(I c, S H, V2 q, A2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resBsP_2__nrm(I c, S H, V2 q, V2 prev, A2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resBsP_2__all(I c, S H, A2 q, A2 prev, A2 nrm, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resPsE_2__q(I c, A2 q, V2 prev, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillPlasticStrainTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resPsE_2__prev(I c, V2 q, A2 prev, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillPlasticStrainTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resPsE_2__all(I c, A2 q, A2 prev, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillPlasticStrainTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resBsE_2__q(I c, A2 q, V2 prev, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillBackstressTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resBsE_2__prev(I c, V2 q, A2 prev, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillBackstressTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resBsE_2__all(I c, A2 q, A2 prev, A2 out){ Plato::J2PlasticityUtilities<2> op; op.fillBackstressTensorResidualElasticStep(c,q,prev,out); }
void d_J2_getA_2__q(I c, A2 q, A1 out){ Plato::J2PlasticityUtilities<2> op; op.getAccumulatedPlasticStrain(c,q,out); }
void d_J2_getA_2__all(I c, A2 q, A1 out){ Plato::J2PlasticityUtilities<2> op; op.getAccumulatedPlasticStrain(c,q,out); }
void d_J2_getM_2__q(I c, A2 q, A1 out){ Plato::J2PlasticityUtilities<2> op; op.getPlasticMultiplierIncrement(c,q,out); }
void d_J2_getM_2__all(I c, A2 q, A1 out){ Plato::J2PlasticityUtilities<2> op; op.getPlasticMultiplierIncrement(c,q,out); }
void d_J2_getP_2__q(I c, A2 q, A2 out){ Plato::J2PlasticityUtilities<2> op; op.getPlasticStrainTensor(c,q,out); }
void d_J2_getP_2__all(I c, A2 q, A2 out){ Plato::J2PlasticityUtilities<2> op; op.getPlasticStrainTensor(c,q,out); }
void d_J2_getB_2__q(I c, A2 q, A2 out){ Plato::J2PlasticityUtilities<2> op; op.getBackstressTensor(c,q,out); }
void d_J2_getB_2__all(I c, A2 q, A2 out){ Plato::J2PlasticityUtilities<2> op; op.getBackstressTensor(c,q,out); }
void d_ElStrainP_2__u(I c, S al, S T0, S ts, A2 u, V2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainP_2__q(I c, S al, S T0, S ts, V2 u, A2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainP_2__g(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, A3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainP_2__e(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, V3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainP_2__all(I c, S al, S T0, S ts, A2 u, A2 q, V1 N, A3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_2__u(I c, S al, S T0, S ts, A2 u, V2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_2__q(I c, S al, S T0, S ts, V2 u, A2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_2__g(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, A3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_2__e(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, V3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_2__all(I c, S al, S T0, S ts, A2 u, A2 q, V1 N, A3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_J2_norm_3__s(I c, A2 s, V2 q, A2 out, A1 nrm){ Plato::J2PlasticityUtilities<3> op; op.computeDeviatoricStressMinusBackstressNormalized(c,s,q,out,nrm); }
void d_J2_norm_3__all(I c, A2 s, A2 q, A2 out, A1 nrm){ Plato::J2PlasticityUtilities<3> op; op.computeDeviatoricStressMinusBackstressNormalized(c,s,q,out,nrm); }
void d_J2_misfit_3__a(I c, A2 a, V2 b, A2 out){ Plato::J2PlasticityUtilities<3> op; op.computePlasticStrainMisfit(c,a,b,out); }
void d_J2_misfit_3__b(I c, V2 a, A2 b, A2 out){ Plato::J2PlasticityUtilities<3> op; op.computePlasticStrainMisfit(c,a,b,out); }
void d_J2_misfit_3__all(I c, A2 a, A2 b, A2 out){ Plato::J2PlasticityUtilities<3> op; op.computePlasticStrainMisfit(c,a,b,out); }
void d_J2_resPsP_3__q(I c, A2 q, V2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); }
void d_J2_resPsP_3__prev(I c, V2 q, A2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); }
void d_J2_resPsP_3__nrm(I c, V2 q, V2 prev, A2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); }
void d_J2_resPsP_3__all(I c, A2 q, A2 prev, A2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); }
void d_J2_resBsP_3__H(I c, A0 H, V2 q, V2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resBsP_3__q(I c, S H, A2 q, V2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resBsP_3__prev(I c, S H, V2 q, A2 prev, V2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resBsP_3__nrm(I c, S H, V2 q, V2 prev, A2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resBsP_3__all(I c, S H, A2 q, A2 prev, A2 nrm, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); }
void d_J2_resPsE_3__q(I c, A2 q, V2 prev, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillPlasticStrainTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resPsE_3__prev(I c, V2 q, A2 prev, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillPlasticStrainTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resPsE_3__all(I c, A2 q, A2 prev, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillPlasticStrainTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resBsE_3__q(I c, A2 q, V2 prev, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillBackstressTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resBsE_3__prev(I c, V2 q, A2 prev, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillBackstressTensorResidualElasticStep(c,q,prev,out); }
void d_J2_resBsE_3__all(I c, A2 q, A2 prev, A2 out){ Plato::J2PlasticityUtilities<3> op; op.fillBackstressTensorResidualElasticStep(c,q,prev,out); }
void d_J2_getA_3__q(I c, A2 q, A1 out){ Plato::J2PlasticityUtilities<3> op; op.getAccumulatedPlasticStrain(c,q,out); }
void d_J2_getA_3__all(I c, A2 q, A1 out){ Plato::J2PlasticityUtilities<3> op; op.getAccumulatedPlasticStrain(c,q,out); }
void d_J2_getM_3__q(I c, A2 q, A1 out){ Plato::J2PlasticityUtilities<3> op; op.getPlasticMultiplierIncrement(c,q,out); }
void d_J2_getM_3__all(I c, A2 q, A1 out){ Plato::J2PlasticityUtilities<3> op; op.getPlasticMultiplierIncrement(c,q,out); }
void d_J2_getP_3__q(I c, A2 q, A2 out){ Plato::J2PlasticityUtilities<3> op; op.getPlasticStrainTensor(c,q,out); }
void d_J2_getP_3__all(I c, A2 q, A2 out){ Plato::J2PlasticityUtilities<3> op; op.getPlasticStrainTensor(c,q,out); }
void d_J2_getB_3__q(I c, A2 q, A2 out){ Plato::J2PlasticityUtilities<3> op; op.getBackstressTensor(c,q,out); }
void d_J2_getB_3__all(I c, A2 q, A2 out){ Plato::J2PlasticityUtilities<3> op; op.getBackstressTensor(c,q,out); }
void d_ElStrainP_3__u(I c, S al, S T0, S ts, A2 u, V2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainP_3__q(I c, S al, S T0, S ts, V2 u, A2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainP_3__g(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, A3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainP_3__e(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, V3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainP_3__all(I c, S al, S T0, S ts, A2 u, A2 q, V1 N, A3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_3__u(I c, S al, S T0, S ts, A2 u, V2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexThermoPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_3__q(I c, S al, S T0, S ts, V2 u, A2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexThermoPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_3__g(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, A3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexThermoPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_3__e(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, V3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexThermoPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT_3__all(I c, S al, S T0, S ts, A2 u, A2 q, V1 N, A3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<3,Plato::SimplexThermoPlasticity<3>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
void d_FluxDiv0_2_3_2__f(I c, A2 out, A2 f, V3 g, V1 vol){ Plato::FluxDivergence<2,3,2> op; op(c,out,f,g,vol); }
void d_FluxDiv0_2_3_2__g(I c, A2 out, V2 f, A3 g, V1 vol){ Plato::FluxDivergence<2,3,2> op; op(c,out,f,g,vol); }
void d_FluxDiv0_2_3_2__vol(I c, A2 out, V2 f, V3 g, A1 vol){ Plato::FluxDivergence<2,3,2> op; op(c,out,f,g,vol); }
void d_FluxDiv0_2_3_2__all(I c, A2 out, A2 f, A3 g, A1 vol){ Plato::FluxDivergence<2,3,2> op; op(c,out,f,g,vol); }
void d_StressDiv0_2_2_0__s(I c, A2 out, A2 s, V3 g, V1 vol){ Plato::StressDivergence<2,2,0> op; op(c,out,s,g,vol); }
void d_StressDiv0_2_2_0__g(I c, A2 out, V2 s, A3 g, V1 vol){ Plato::StressDivergence<2,2,0> op; op(c,out,s,g,vol); }
void d_StressDiv0_2_2_0__vol(I c, A2 out, V2 s, V3 g, A1 vol){ Plato::StressDivergence<2,2,0> op; op(c,out,s,g,vol); }
void d_StressDiv0_2_2_0__all(I c, A2 out, A2 s, A3 g, A1 vol){ Plato::StressDivergence<2,2,0> op; op(c,out,s,g,vol); }
void d_PressDiv0_2_3_0__p(I c, A2 out, A1 p, V3 g, V1 vol){ Plato::PressureDivergence<2,3,0> op; op(c,out,p,g,vol); }
void d_PressDiv0_2_3_0__g(I c, A2 out, V1 p, A3 g, V1 vol){ Plato::PressureDivergence<2,3,0> op; op(c,out,p,g,vol); }
void d_PressDiv0_2_3_0__vol(I c, A2 out, V1 p, V3 g, A1 vol){ Plato::PressureDivergence<2,3,0> op; op(c,out,p,g,vol); }
void d_PressDiv0_2_3_0__all(I c, A2 out, A1 p, A3 g, A1 vol){ Plato::PressureDivergence<2,3,0> op; op(c,out,p,g,vol); }
void d_PressGrad0_2__p(I c, A2 out, A2 p, V3 g){ Plato::PressureGradient<2> op; op(c,out,p,g); }
void d_PressGrad0_2__g(I c, A2 out, V2 p, A3 g){ Plato::PressureGradient<2> op; op(c,out,p,g); }
void d_PressGrad0_2__all(I c, A2 out, A2 p, A3 g){ Plato::PressureGradient<2> op; op(c,out,p,g); }
void d_ProjNode20_2_3_0__vol(I c, A1 vol, V1 N, V2 s, A2 out){ Plato::ProjectToNode<2,3,0> op; op(c,vol,N,s,out); }
void d_ProjNode20_2_3_0__s(I c, V1 vol, V1 N, A2 s, A2 out){ Plato::ProjectToNode<2,3,0> op; op(c,vol,N,s,out); }
void d_ProjNode20_2_3_0__all(I c, A1 vol, V1 N, A2 s, A2 out){ Plato::ProjectToNode<2,3,0> op; op(c,vol,N,s,out); }
void d_ProjNode10_2_3_2__vol(I c, A1 vol, V1 N, V1 s, A2 out){ Plato::ProjectToNode<2,3,2> op; op(c,vol,N,s,out); }
void d_ProjNode10_2_3_2__s(I c, V1 vol, V1 N, A1 s, A2 out){ Plato::ProjectToNode<2,3,2> op; op(c,vol,N,s,out); }
void d_ProjNode10_2_3_2__all(I c, A1 vol, V1 N, A1 s, A2 out){ Plato::ProjectToNode<2,3,2> op; op(c,vol,N,s,out); }
void d_AdjDamp0_2__el(I c, A2 el, V2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op; op(c,el,in,out); }
void d_AdjDamp0_2__in(I c, V2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op; op(c,el,in,out); }
void d_AdjDamp0_2__all(I c, A2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op; op(c,el,in,out); }
void d_CplxDamp0_2__el(I c, A2 el, V2 in, A2 out){ Plato::ComplexRayleighDamping<2> op; op(c,el,in,out); }
void d_CplxDamp0_2__in(I c, V2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<2> op; op(c,el,in,out); }
void d_CplxDamp0_2__all(I c, A2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<2> op; op(c,el,in,out); }
void d_RayDamp0_6__st(I c, A2 st, V2 ma, A2 out){ Plato::RayleighDamping<6> op; op(c,st,ma,out); }
void d_RayDamp0_6__ma(I c, V2 st, A2 ma, A2 out){ Plato::RayleighDamping<6> op; op(c,st,ma,out); }
void d_RayDamp0_6__all(I c, A2 st, A2 ma, A2 out){ Plato::RayleighDamping<6> op; op(c,st,ma,out); }
void d_AdjDampPL_2__el(PL pl, I c, A2 el, V2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op(pl); op(c,el,in,out); }
void d_AdjDampPL_2__in(PL pl, I c, V2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op(pl); op(c,el,in,out); }
void d_AdjDampPL_2__all(PL pl, I c, A2 el, A2 in, A2 out){ Plato::AdjointComplexRayleighDamping<2> op(pl); op(c,el,in,out); }
void d_CplxDampPL_2__el(PL pl, I c, A2 el, V2 in, A2 out){ Plato::ComplexRayleighDamping<2> op(pl); op(c,el,in,out); }
void d_CplxDampPL_2__in(PL pl, I c, V2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<2> op(pl); op(c,el,in,out); }
void d_CplxDampPL_2__all(PL pl, I c, A2 el, A2 in, A2 out){ Plato::ComplexRayleighDamping<2> op(pl); op(c,el,in,out); }
void d_RayDampPL_6__st(PL pl, I c, A2 st, V2 ma, A2 out){ Plato::RayleighDamping<6> op(pl); op(c,st,ma,out); }
void d_RayDampPL_6__ma(PL pl, I c, V2 st, A2 ma, A2 out){ Plato::RayleighDamping<6> op(pl); op(c,st,ma,out); }
void d_RayDampPL_6__all(PL pl, I c, A2 st, A2 ma, A2 out){ Plato::RayleighDamping<6> op(pl); op(c,st,ma,out); }
void d_ElStrainT0_2__u(I c, A2 u, V2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op; op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT0_2__q(I c, V2 u, A2 q, V1 N, V3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op; op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT0_2__g(I c, V2 u, V2 q, V1 N, A3 g, V2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op; op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT0_2__e(I c, V2 u, V2 q, V1 N, V3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op; op.computeElasticStrain(c,u,q,N,e,out); }
void d_ElStrainT0_2__all(I c, A2 u, A2 q, V1 N, A3 g, A2 e, A2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op; op.computeElasticStrain(c,u,q,N,e,out); }
A0 d_simp__z(S p, S mn, A0 z){ Plato::MSIMP f(p, mn); return f(z); }
A0 d_simp__all(S p, S mn, S z){ Plato::MSIMP f(p, mn); return f(z); }
A0 d_heavi0__z(A0 z){ Plato::Heaviside f; return f(z); }
A0 d_heavi0__all(S z){ Plato::Heaviside f; return f(z); }
A0 d_heavi__z(S p, S r, S mn, A0 z){ Plato::Heaviside f(p, r, mn); return f(z); }
A0 d_heavi__all(S p, S r, S mn, S z){ Plato::Heaviside f(p, r, mn); return f(z); }
A0 d_ramp0__z(A0 z){ Plato::RAMP f; return f(z); }
A0 d_ramp0__all(S z){ Plato::RAMP f; return f(z); }
A0 d_nopen__z(A0 z){ Plato::NoPenalty f; return f(z); }
A0 d_nopen__all(S z){ Plato::NoPenalty f; return f(z); }
A0 d_simp_pl__z(PL pl, A0 z){ Plato::MSIMP f(pl); return f(z); }
A0 d_simp_pl__all(PL pl, S z){ Plato::MSIMP f(pl); return f(z); }
A0 d_ramp_pl__z(PL pl, A0 z){ Plato::RAMP f(pl); return f(z); }
A0 d_ramp_pl__all(PL pl, S z){ Plato::RAMP f(pl); return f(z); }
A0 d_heavi_pl__z(PL pl, A0 z){ Plato::Heaviside f(pl); return f(z); }
A0 d_heavi_pl__all(PL pl, S z){ Plato::Heaviside f(pl); return f(z); }
A0 d_nopen_pl__z(PL pl, A0 z){ Plato::NoPenalty f(pl); return f(z); }
A0 d_nopen_pl__all(PL pl, S z){ Plato::NoPenalty f(pl); return f(z); }
A0 d_simp_u1__z(S p, S mn, A0 z){ Plato::MSIMP f(p, mn); f.update(); return f(z); }
A0 d_simp_u1__all(S p, S mn, S z){ Plato::MSIMP f(p, mn); f.update(); return f(z); }
A0 d_heavi_u1__z(S p, S r, S mn, A0 z){ Plato::Heaviside f(p, r, mn); f.update(); return f(z); }
A0 d_heavi_u1__all(S p, S r, S mn, S z){ Plato::Heaviside f(p, r, mn); f.update(); return f(z); }
A0 d_ramp0_u1__z(A0 z){ Plato::RAMP f; f.update(); return f(z); }
A0 d_ramp0_u1__all(S z){ Plato::RAMP f; f.update(); return f(z); }
A0 d_hproj__z(S b, A0 z){ Plato::HeavisideProjection f(b); return f.apply(z); }
A0 d_hproj__all(S b, S z){ Plato::HeavisideProjection f(b); return f.apply(z); }
A0 d_hproj0__z(A0 z){ Plato::HeavisideProjection f; return f.apply(z); }
A0 d_hproj0__all(S z){ Plato::HeavisideProjection f; return f.apply(z); }
A0 d_tproj__z(S b, S e, A0 z){ Plato::HyperbolicTangentProjection f(b, e); return f.apply(z); }
A0 d_tproj__all(S b, S e, S z){ Plato::HyperbolicTangentProjection f(b, e); return f.apply(z); }
A0 d_tproj0__z(A0 z){ Plato::HyperbolicTangentProjection f; return f.apply(z); }
A0 d_tproj0__all(S z){ Plato::HyperbolicTangentProjection f; return f.apply(z); }
A0 d_tproj_pl__z(PL pl, A0 z){ Plato::HyperbolicTangentProjection f(pl); return f.apply(z); }
A0 d_tproj_pl__all(PL pl, S z){ Plato::HyperbolicTangentProjection f(pl); return f.apply(z); }
A0 d_applyH_2__z(I c, S b, A2 z){ Plato::HeavisideProjection p(b); Plato::ApplyProjection<Plato::HeavisideProjection> op(p); return op(c,z); }
A0 d_applyH_2__all(I c, S b, A2 z){ Plato::HeavisideProjection p(b); Plato::ApplyProjection<Plato::HeavisideProjection> op(p); return op(c,z); }
A0 d_applyT_2__z(I c, S b, S e, A2 z){ Plato::HyperbolicTangentProjection p(b,e); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> op(p); return op(c,z); }
A0 d_applyT_2__all(I c, S b, S e, A2 z){ Plato::HyperbolicTangentProjection p(b,e); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> op(p); return op(c,z); }
A0 d_applyH_3__z(I c, S b, A2 z){ Plato::HeavisideProjection p(b); Plato::ApplyProjection<Plato::HeavisideProjection> op(p); return op(c,z); }
A0 d_applyH_3__all(I c, S b, A2 z){ Plato::HeavisideProjection p(b); Plato::ApplyProjection<Plato::HeavisideProjection> op(p); return op(c,z); }
A0 d_applyT_3__z(I c, S b, S e, A2 z){ Plato::HyperbolicTangentProjection p(b,e); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> op(p); return op(c,z); }
A0 d_applyT_3__all(I c, S b, S e, A2 z){ Plato::HyperbolicTangentProjection p(b,e); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> op(p); return op(c,z); }
A0 d_applyH_4__z(I c, S b, A2 z){ Plato::HeavisideProjection p(b); Plato::ApplyProjection<Plato::HeavisideProjection> op(p); return op(c,z); }
A0 d_applyH_4__all(I c, S b, A2 z){ Plato::HeavisideProjection p(b); Plato::ApplyProjection<Plato::HeavisideProjection> op(p); return op(c,z); }
A0 d_applyT_4__z(I c, S b, S e, A2 z){ Plato::HyperbolicTangentProjection p(b,e); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> op(p); return op(c,z); }
A0 d_applyT_4__all(I c, S b, S e, A2 z){ Plato::HyperbolicTangentProjection p(b,e); Plato::ApplyProjection<Plato::HyperbolicTangentProjection> op(p); return op(c,z); }
A0 d_applyH0_4__z(I c, A2 z){ Plato::ApplyProjection<Plato::HeavisideProjection> op; return op(c,z); }
A0 d_applyH0_4__all(I c, A2 z){ Plato::ApplyProjection<Plato::HeavisideProjection> op; return op(c,z); }
void d_w2_simp_1_1__z(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,io,z); }
void d_w2_simp_1_1__all(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,io,z); }
void d_w2io_simp_1_1__in(I c, S p, S mn, A2 in, A2 out, V2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2io_simp_1_1__z(I c, S p, S mn, V2 in, A2 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2io_simp_1_1__all(I c, S p, S mn, A2 in, A2 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1_simp_1_1__z(I c, S p, S mn, A1 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,io,z); }
void d_w1_simp_1_1__all(I c, S p, S mn, A1 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,io,z); }
void d_w1io_simp_1_1__in(I c, S p, S mn, A1 in, A1 out, V2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1io_simp_1_1__z(I c, S p, S mn, V1 in, A1 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1io_simp_1_1__all(I c, S p, S mn, A1 in, A1 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2u_simp_1_1__z(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op.update(); op(c,io,z); }
void d_w2u_simp_1_1__all(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<1,1,Plato::MSIMP> op(f); op.update(); op(c,io,z); }
void d_pen3_simp_1_1__rho(I c, S p, S mn, A0 rho, A3 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen3_simp_1_1__all(I c, S p, S mn, S rho, A3 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen2_simp_1_1__rho(I c, S p, S mn, A0 rho, A2 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen2_simp_1_1__all(I c, S p, S mn, S rho, A2 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_w2_simp_2_3__z(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,io,z); }
void d_w2_simp_2_3__all(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,io,z); }
void d_w2io_simp_2_3__in(I c, S p, S mn, A2 in, A2 out, V2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2io_simp_2_3__z(I c, S p, S mn, V2 in, A2 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2io_simp_2_3__all(I c, S p, S mn, A2 in, A2 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1_simp_2_3__z(I c, S p, S mn, A1 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,io,z); }
void d_w1_simp_2_3__all(I c, S p, S mn, A1 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,io,z); }
void d_w1io_simp_2_3__in(I c, S p, S mn, A1 in, A1 out, V2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1io_simp_2_3__z(I c, S p, S mn, V1 in, A1 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1io_simp_2_3__all(I c, S p, S mn, A1 in, A1 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2u_simp_2_3__z(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op.update(); op(c,io,z); }
void d_w2u_simp_2_3__all(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<2,3,Plato::MSIMP> op(f); op.update(); op(c,io,z); }
void d_pen3_simp_2_3__rho(I c, S p, S mn, A0 rho, A3 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen3_simp_2_3__all(I c, S p, S mn, S rho, A3 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen2_simp_2_3__rho(I c, S p, S mn, A0 rho, A2 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen2_simp_2_3__all(I c, S p, S mn, S rho, A2 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_w2_simp_3_6__z(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,io,z); }
void d_w2_simp_3_6__all(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,io,z); }
void d_w2io_simp_3_6__in(I c, S p, S mn, A2 in, A2 out, V2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2io_simp_3_6__z(I c, S p, S mn, V2 in, A2 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2io_simp_3_6__all(I c, S p, S mn, A2 in, A2 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1_simp_3_6__z(I c, S p, S mn, A1 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,io,z); }
void d_w1_simp_3_6__all(I c, S p, S mn, A1 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,io,z); }
void d_w1io_simp_3_6__in(I c, S p, S mn, A1 in, A1 out, V2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1io_simp_3_6__z(I c, S p, S mn, V1 in, A1 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1io_simp_3_6__all(I c, S p, S mn, A1 in, A1 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2u_simp_3_6__z(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op.update(); op(c,io,z); }
void d_w2u_simp_3_6__all(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,6,Plato::MSIMP> op(f); op.update(); op(c,io,z); }
void d_pen3_simp_3_6__rho(I c, S p, S mn, A0 rho, A3 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen3_simp_3_6__all(I c, S p, S mn, S rho, A3 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen2_simp_3_6__rho(I c, S p, S mn, A0 rho, A2 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen2_simp_3_6__all(I c, S p, S mn, S rho, A2 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_w2_simp_3_1__z(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,io,z); }
void d_w2_simp_3_1__all(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,io,z); }
void d_w2io_simp_3_1__in(I c, S p, S mn, A2 in, A2 out, V2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2io_simp_3_1__z(I c, S p, S mn, V2 in, A2 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2io_simp_3_1__all(I c, S p, S mn, A2 in, A2 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1_simp_3_1__z(I c, S p, S mn, A1 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,io,z); }
void d_w1_simp_3_1__all(I c, S p, S mn, A1 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,io,z); }
void d_w1io_simp_3_1__in(I c, S p, S mn, A1 in, A1 out, V2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1io_simp_3_1__z(I c, S p, S mn, V1 in, A1 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w1io_simp_3_1__all(I c, S p, S mn, A1 in, A1 out, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op(c,in,out,z); }
void d_w2u_simp_3_1__z(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op.update(); op(c,io,z); }
void d_w2u_simp_3_1__all(I c, S p, S mn, A2 io, A2 z){ Plato::MSIMP f (p,mn); Plato::ApplyWeighting<3,1,Plato::MSIMP> op(f); op.update(); op(c,io,z); }
void d_pen3_simp_3_1__rho(I c, S p, S mn, A0 rho, A3 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen3_simp_3_1__all(I c, S p, S mn, S rho, A3 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen2_simp_3_1__rho(I c, S p, S mn, A0 rho, A2 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_pen2_simp_3_1__all(I c, S p, S mn, S rho, A2 io){ Plato::MSIMP f (p,mn); Plato::ApplyPenalty<Plato::MSIMP> op(f); op(c,rho,io); }
void d_w2_ramp_2_3__z(I c, PL pl, A2 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,io,z); }
void d_w2_ramp_2_3__all(I c, PL pl, A2 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,io,z); }
void d_w2io_ramp_2_3__in(I c, PL pl, A2 in, A2 out, V2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w2io_ramp_2_3__z(I c, PL pl, V2 in, A2 out, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w2io_ramp_2_3__all(I c, PL pl, A2 in, A2 out, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w1_ramp_2_3__z(I c, PL pl, A1 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,io,z); }
void d_w1_ramp_2_3__all(I c, PL pl, A1 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,io,z); }
void d_w1io_ramp_2_3__in(I c, PL pl, A1 in, A1 out, V2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w1io_ramp_2_3__z(I c, PL pl, V1 in, A1 out, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w1io_ramp_2_3__all(I c, PL pl, A1 in, A1 out, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w2u_ramp_2_3__z(I c, PL pl, A2 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op.update(); op(c,io,z); }
void d_w2u_ramp_2_3__all(I c, PL pl, A2 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<2,3,Plato::RAMP> op(f); op.update(); op(c,io,z); }
void d_pen3_ramp_2_3__rho(I c, PL pl, A0 rho, A3 io){ Plato::RAMP f (pl); Plato::ApplyPenalty<Plato::RAMP> op(f); op(c,rho,io); }
void d_pen3_ramp_2_3__all(I c, PL pl, S rho, A3 io){ Plato::RAMP f (pl); Plato::ApplyPenalty<Plato::RAMP> op(f); op(c,rho,io); }
void d_pen2_ramp_2_3__rho(I c, PL pl, A0 rho, A2 io){ Plato::RAMP f (pl); Plato::ApplyPenalty<Plato::RAMP> op(f); op(c,rho,io); }
void d_pen2_ramp_2_3__all(I c, PL pl, S rho, A2 io){ Plato::RAMP f (pl); Plato::ApplyPenalty<Plato::RAMP> op(f); op(c,rho,io); }
void d_w2_ramp_3_6__z(I c, PL pl, A2 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,io,z); }
void d_w2_ramp_3_6__all(I c, PL pl, A2 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,io,z); }
void d_w2io_ramp_3_6__in(I c, PL pl, A2 in, A2 out, V2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w2io_ramp_3_6__z(I c, PL pl, V2 in, A2 out, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w2io_ramp_3_6__all(I c, PL pl, A2 in, A2 out, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w1_ramp_3_6__z(I c, PL pl, A1 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,io,z); }
void d_w1_ramp_3_6__all(I c, PL pl, A1 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,io,z); }
void d_w1io_ramp_3_6__in(I c, PL pl, A1 in, A1 out, V2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w1io_ramp_3_6__z(I c, PL pl, V1 in, A1 out, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w1io_ramp_3_6__all(I c, PL pl, A1 in, A1 out, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op(c,in,out,z); }
void d_w2u_ramp_3_6__z(I c, PL pl, A2 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op.update(); op(c,io,z); }
void d_w2u_ramp_3_6__all(I c, PL pl, A2 io, A2 z){ Plato::RAMP f (pl); Plato::ApplyWeighting<3,6,Plato::RAMP> op(f); op.update(); op(c,io,z); }
void d_pen3_ramp_3_6__rho(I c, PL pl, A0 rho, A3 io){ Plato::RAMP f (pl); Plato::ApplyPenalty<Plato::RAMP> op(f); op(c,rho,io); }
void d_pen3_ramp_3_6__all(I c, PL pl, S rho, A3 io){ Plato::RAMP f (pl); Plato::ApplyPenalty<Plato::RAMP> op(f); op(c,rho,io); }
void d_pen2_ramp_3_6__rho(I c, PL pl, A0 rho, A2 io){ Plato::RAMP f (pl); Plato::ApplyPenalty<Plato::RAMP> op(f); op(c,rho,io); }
void d_pen2_ramp_3_6__all(I c, PL pl, S rho, A2 io){ Plato::RAMP f (pl); Plato::ApplyPenalty<Plato::RAMP> op(f); op(c,rho,io); }
void d_w2_nopen_2_3__z(I c, S unused, A2 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,io,z); }
void d_w2_nopen_2_3__all(I c, S unused, A2 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,io,z); }
void d_w2io_nopen_2_3__in(I c, S unused, A2 in, A2 out, V2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w2io_nopen_2_3__z(I c, S unused, V2 in, A2 out, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w2io_nopen_2_3__all(I c, S unused, A2 in, A2 out, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w1_nopen_2_3__z(I c, S unused, A1 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,io,z); }
void d_w1_nopen_2_3__all(I c, S unused, A1 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,io,z); }
void d_w1io_nopen_2_3__in(I c, S unused, A1 in, A1 out, V2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w1io_nopen_2_3__z(I c, S unused, V1 in, A1 out, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w1io_nopen_2_3__all(I c, S unused, A1 in, A1 out, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w2u_nopen_2_3__z(I c, S unused, A2 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op.update(); op(c,io,z); }
void d_w2u_nopen_2_3__all(I c, S unused, A2 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<2,3,Plato::NoPenalty> op(f); op.update(); op(c,io,z); }
void d_pen3_nopen_2_3__rho(I c, S unused, A0 rho, A3 io){ Plato::NoPenalty f ; Plato::ApplyPenalty<Plato::NoPenalty> op(f); op(c,rho,io); }
void d_pen3_nopen_2_3__all(I c, S unused, S rho, A3 io){ Plato::NoPenalty f ; Plato::ApplyPenalty<Plato::NoPenalty> op(f); op(c,rho,io); }
void d_pen2_nopen_2_3__rho(I c, S unused, A0 rho, A2 io){ Plato::NoPenalty f ; Plato::ApplyPenalty<Plato::NoPenalty> op(f); op(c,rho,io); }
void d_pen2_nopen_2_3__all(I c, S unused, S rho, A2 io){ Plato::NoPenalty f ; Plato::ApplyPenalty<Plato::NoPenalty> op(f); op(c,rho,io); }
void d_w2_nopen_3_6__z(I c, S unused, A2 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,io,z); }
void d_w2_nopen_3_6__all(I c, S unused, A2 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,io,z); }
void d_w2io_nopen_3_6__in(I c, S unused, A2 in, A2 out, V2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w2io_nopen_3_6__z(I c, S unused, V2 in, A2 out, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w2io_nopen_3_6__all(I c, S unused, A2 in, A2 out, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w1_nopen_3_6__z(I c, S unused, A1 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,io,z); }
void d_w1_nopen_3_6__all(I c, S unused, A1 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,io,z); }
void d_w1io_nopen_3_6__in(I c, S unused, A1 in, A1 out, V2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w1io_nopen_3_6__z(I c, S unused, V1 in, A1 out, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w1io_nopen_3_6__all(I c, S unused, A1 in, A1 out, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op(c,in,out,z); }
void d_w2u_nopen_3_6__z(I c, S unused, A2 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op.update(); op(c,io,z); }
void d_w2u_nopen_3_6__all(I c, S unused, A2 io, A2 z){ Plato::NoPenalty f ; Plato::ApplyWeighting<3,6,Plato::NoPenalty> op(f); op.update(); op(c,io,z); }
void d_pen3_nopen_3_6__rho(I c, S unused, A0 rho, A3 io){ Plato::NoPenalty f ; Plato::ApplyPenalty<Plato::NoPenalty> op(f); op(c,rho,io); }
void d_pen3_nopen_3_6__all(I c, S unused, S rho, A3 io){ Plato::NoPenalty f ; Plato::ApplyPenalty<Plato::NoPenalty> op(f); op(c,rho,io); }
void d_pen2_nopen_3_6__rho(I c, S unused, A0 rho, A2 io){ Plato::NoPenalty f ; Plato::ApplyPenalty<Plato::NoPenalty> op(f); op(c,rho,io); }
void d_pen2_nopen_3_6__all(I c, S unused, S rho, A2 io){ Plato::NoPenalty f ; Plato::ApplyPenalty<Plato::NoPenalty> op(f); op(c,rho,io); }
void d_w2_heavi_2_3__z(I c, S p, S r, S mn, A2 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,io,z); }
void d_w2_heavi_2_3__all(I c, S p, S r, S mn, A2 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,io,z); }
void d_w2io_heavi_2_3__in(I c, S p, S r, S mn, A2 in, A2 out, V2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w2io_heavi_2_3__z(I c, S p, S r, S mn, V2 in, A2 out, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w2io_heavi_2_3__all(I c, S p, S r, S mn, A2 in, A2 out, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w1_heavi_2_3__z(I c, S p, S r, S mn, A1 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,io,z); }
void d_w1_heavi_2_3__all(I c, S p, S r, S mn, A1 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,io,z); }
void d_w1io_heavi_2_3__in(I c, S p, S r, S mn, A1 in, A1 out, V2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w1io_heavi_2_3__z(I c, S p, S r, S mn, V1 in, A1 out, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w1io_heavi_2_3__all(I c, S p, S r, S mn, A1 in, A1 out, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w2u_heavi_2_3__z(I c, S p, S r, S mn, A2 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op.update(); op(c,io,z); }
void d_w2u_heavi_2_3__all(I c, S p, S r, S mn, A2 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<2,3,Plato::Heaviside> op(f); op.update(); op(c,io,z); }
void d_pen3_heavi_2_3__rho(I c, S p, S r, S mn, A0 rho, A3 io){ Plato::Heaviside f (p,r,mn); Plato::ApplyPenalty<Plato::Heaviside> op(f); op(c,rho,io); }
void d_pen3_heavi_2_3__all(I c, S p, S r, S mn, S rho, A3 io){ Plato::Heaviside f (p,r,mn); Plato::ApplyPenalty<Plato::Heaviside> op(f); op(c,rho,io); }
void d_pen2_heavi_2_3__rho(I c, S p, S r, S mn, A0 rho, A2 io){ Plato::Heaviside f (p,r,mn); Plato::ApplyPenalty<Plato::Heaviside> op(f); op(c,rho,io); }
void d_pen2_heavi_2_3__all(I c, S p, S r, S mn, S rho, A2 io){ Plato::Heaviside f (p,r,mn); Plato::ApplyPenalty<Plato::Heaviside> op(f); op(c,rho,io); }
void d_w2_heavi_3_6__z(I c, S p, S r, S mn, A2 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,io,z); }
void d_w2_heavi_3_6__all(I c, S p, S r, S mn, A2 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,io,z); }
void d_w2io_heavi_3_6__in(I c, S p, S r, S mn, A2 in, A2 out, V2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w2io_heavi_3_6__z(I c, S p, S r, S mn, V2 in, A2 out, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w2io_heavi_3_6__all(I c, S p, S r, S mn, A2 in, A2 out, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w1_heavi_3_6__z(I c, S p, S r, S mn, A1 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,io,z); }
void d_w1_heavi_3_6__all(I c, S p, S r, S mn, A1 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,io,z); }
void d_w1io_heavi_3_6__in(I c, S p, S r, S mn, A1 in, A1 out, V2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w1io_heavi_3_6__z(I c, S p, S r, S mn, V1 in, A1 out, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w1io_heavi_3_6__all(I c, S p, S r, S mn, A1 in, A1 out, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op(c,in,out,z); }
void d_w2u_heavi_3_6__z(I c, S p, S r, S mn, A2 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op.update(); op(c,io,z); }
void d_w2u_heavi_3_6__all(I c, S p, S r, S mn, A2 io, A2 z){ Plato::Heaviside f (p,r,mn); Plato::ApplyWeighting<3,6,Plato::Heaviside> op(f); op.update(); op(c,io,z); }
void d_pen3_heavi_3_6__rho(I c, S p, S r, S mn, A0 rho, A3 io){ Plato::Heaviside f (p,r,mn); Plato::ApplyPenalty<Plato::Heaviside> op(f); op(c,rho,io); }
void d_pen3_heavi_3_6__all(I c, S p, S r, S mn, S rho, A3 io){ Plato::Heaviside f (p,r,mn); Plato::ApplyPenalty<Plato::Heaviside> op(f); op(c,rho,io); }
void d_pen2_heavi_3_6__rho(I c, S p, S r, S mn, A0 rho, A2 io){ Plato::Heaviside f (p,r,mn); Plato::ApplyPenalty<Plato::Heaviside> op(f); op(c,rho,io); }
void d_pen2_heavi_3_6__all(I c, S p, S r, S mn, S rho, A2 io){ Plato::Heaviside f (p,r,mn); Plato::ApplyPenalty<Plato::Heaviside> op(f); op(c,rho,io); }
void d_apply_penalty_1__p(I c, A0 p, A2 out){ Plato::apply_penalty<1>(c,p,out); }
void d_apply_penalty_1__all(I c, S p, A2 out){ Plato::apply_penalty<1>(c,p,out); }
void d_apply_penalty_2__p(I c, A0 p, A2 out){ Plato::apply_penalty<2>(c,p,out); }
void d_apply_penalty_2__all(I c, S p, A2 out){ Plato::apply_penalty<2>(c,p,out); }
void d_apply_penalty_3__p(I c, A0 p, A2 out){ Plato::apply_penalty<3>(c,p,out); }
void d_apply_penalty_3__all(I c, S p, A2 out){ Plato::apply_penalty<3>(c,p,out); }
void d_apply_penalty_6__p(I c, A0 p, A2 out){ Plato::apply_penalty<6>(c,p,out); }
void d_apply_penalty_6__all(I c, S p, A2 out){ Plato::apply_penalty<6>(c,p,out); }
