// Call sites for the per-cell kernels: every function below names one use of the repository's public interface.
// Nothing here is ever run; the analysis starts at these functions with unknown arguments.
#include "/opt/vp/plato/headers.cpp"
typedef Plato::ScalarVectorT<double> V1;
typedef Plato::ScalarMultiVectorT<double> V2;
typedef Plato::ScalarArray3DT<double> V3;
typedef int I;
typedef double S;
#define D123(M) M(1) M(2) M(3)
#define D23(M) M(2) M(3)

#define F(d) void d_AdjDamp_##d(I c, S mc, S sc, V2 el, V2 in, V2 out){ Plato::AdjointComplexRayleighDamping<d> op(mc,sc); op(c,el,in,out); }
D123(F)
#undef F
#define F(d) void d_CplxDamp_##d(I c, S mc, S sc, V2 el, V2 in, V2 out){ Plato::ComplexRayleighDamping<d> op(mc,sc); op(c,el,in,out); }
D123(F)
#undef F
#define F(d) void d_RayDamp_##d(I c, S mc, S sc, V2 st, V2 ma, V2 out){ Plato::RayleighDamping<d> op(mc,sc); op(c,st,ma,out); }
F(2) F(6) F(12)
#undef F
#define F(d) void d_CplxEnergy_##d(I c, V3 a, V3 b, V1 out){ Plato::ComplexElasticEnergy<d> op; op(c,a,b,out); }
F(1) F(3) F(6)
#undef F
#define F(d) void d_CplxInertia_##d(I c, S w, S rho, V1 vol, V2 st, V1 out){ Plato::ComplexInertialEnergy<d> op(w,rho); op(c,vol,st,out); }
D123(F)
#undef F
#define F(d) void d_CplxStrain_##d(I c, V2 u, V3 g, V3 out){ Plato::ComplexStrain<d,2*d> op; op(c,u,g,out); }
D123(F)
#undef F
#define F(d) void d_CplxStressDiv_##d(I c, V1 vol, V3 g, V3 s, V2 out){ Plato::ComplexStressDivergence<d,2*d> op; op(c,vol,g,s,out); }
D123(F)
#undef F
#define F(d) void d_CauchyStress_##d(I c, S K, S G, V2 e, V2 out){ Plato::ComputeCauchyStress<d> op; op(c,K,G,e,out); }
D123(F)
#undef F
#define F(d) void d_DevStrain_##d(I c, V2 e, V2 out){ Plato::ComputeDeviatoricStrain<d> op; op(c,e,out); }
D123(F)
#undef F
#define F(d) void d_DevStress_##d(I c, S G, V2 e, V2 out){ Plato::ComputeDeviatoricStress<d> op; op(c,G,e,out); }
D123(F)
#undef F
#define F(d) void d_ElasticWork_##d(I c, S G, S K, V2 e, V2 s, V1 out){ Plato::ComputeElasticWork<d> op; op(c,G,K,e,s,out); }
D123(F)
#undef F
#define F(d,n) void d_FreqMisfit_##d##_##n(I c, V2 a, V2 b, V1 out){ Plato::ComputeFrequencyResponseMisfit<d,n> op; op(c,a,b,out); }
F(1,1) F(2,1) F(3,1)
#undef F
#define F(d) void d_Stabilize_##d(I c, S sc, S G, V1 vol, V2 gp, V2 pg, V2 out){ Plato::ComputeStabilization<d> op(sc,G); op(c,vol,gp,pg,out); }
D123(F)
#undef F
#define F(d) void d_Dot_##d(I c, V2 a, V2 b, V1 out){ Plato::DotProduct<d> op; op(c,a,b,out); }
F(1) F(3) F(6)
#undef F
#define F(d) void d_DDot_##d(I c, V2 a, V2 b, V1 out){ Plato::DoubleDotProduct2ndOrderTensor<d> op; op(c,a,b,out); }
D123(F)
#undef F
#define F(d) void d_EMKin_##d(I c, V2 strain, V2 ef, V2 u, V3 g){ Plato::EMKinematics<d> op; op(c,strain,ef,u,g); }
D123(F)
#undef F
#define F(d) void d_TMKin_##d(I c, V2 strain, V2 tg, V2 u, V3 g){ Plato::TMKinematics<d> op; op(c,strain,tg,u,g); }
D123(F)
#undef F
#define F(d) void d_StabTMKin_##d(I c, V2 strain, V2 pg, V2 tg, V2 u, V3 g){ Plato::StabilizedTMKinematics<d> op; op(c,strain,pg,tg,u,g); }
D123(F)
#undef F
#define F(d) void d_StabKin_##d(I c, V2 strain, V2 pg, V2 u, V3 g){ Plato::StabilizedKinematics<d> op; op(c,strain,pg,u,g); }
D123(F)
#undef F
#define F(d) void d_Eigen_##d(I c, V2 t, V2 out, bool isstrain){ Plato::Eigenvalues<d> op; op(c,t,out,isstrain); }
D123(F)
#undef F
#define F(d,n,o) void d_FluxDiv_##d##_##n##_##o(I c, V2 out, V2 f, V3 g, V1 vol, S sc){ Plato::FluxDivergence<d,n,o> op; op(c,out,f,g,vol,sc); }
F(1,1,0) F(2,1,0) F(3,1,0) F(2,3,2) F(3,4,3) F(1,3,1) F(1,9,6) F(2,9,6) F(3,9,6) F(3,7,0)
#undef F
#define F(d,n,o) void d_StressDiv_##d##_##n##_##o(I c, V2 out, V2 s, V3 g, V1 vol, S sc){ Plato::StressDivergence<d,n,o> op; op(c,out,s,g,vol,sc); }
F(1,1,0) F(2,2,0) F(3,3,0) F(2,4,0) F(3,4,0) F(3,5,1) F(1,3,1) F(1,9,6) F(2,9,6) F(3,9,6) F(3,7,0)
#undef F
#define F(d,n,o) void d_PressDiv_##d##_##n##_##o(I c, V2 out, V1 p, V3 g, V1 vol, S sc){ Plato::PressureDivergence<d,n,o> op; op(c,out,p,g,vol,sc); }
F(1,1,0) F(2,2,0) F(3,3,0) F(2,3,0) F(3,5,0) F(3,5,1) F(1,3,1) F(1,9,6) F(2,9,6) F(3,9,6) F(3,7,0)
#undef F
#define F(d) void d_PressGrad_##d(I c, S sc, V2 out, V2 p, V3 g){ Plato::PressureGradient<d> op(sc); op(c,out,p,g); }
D123(F)
#undef F
#define F(d,n,o) void d_ProjNode2_##d##_##n##_##o(I c, V1 vol, V1 N, V2 s, V2 out, S sc){ Plato::ProjectToNode<d,n,o> op; op(c,vol,N,s,out,sc); }
F(1,1,0) F(2,2,0) F(3,3,0) F(2,3,0) F(3,5,1) F(1,3,1) F(1,9,6) F(2,9,6) F(3,9,6) F(3,7,0)
#undef F
#define F(d,n,o) void d_ProjNode1_##d##_##n##_##o(I c, V1 vol, V1 N, V1 s, V2 out, S sc){ Plato::ProjectToNode<d,n,o> op; op(c,vol,N,s,out,sc); }
F(1,1,0) F(2,3,2) F(3,4,3) F(3,5,3) F(1,3,1) F(1,9,6) F(2,9,6) F(3,9,6) F(3,7,0)
#undef F
#define F(d,n,o) void d_Interp1_##d##_##n##_##o(I c, V1 N, V2 u, V1 out){ Plato::InterpolateFromNodal<d,n,o> op; op(c,N,u,out); }
F(1,1,0) F(2,1,0) F(3,1,0) F(2,3,2) F(3,5,3) F(1,3,1) F(1,9,6) F(2,9,6) F(3,9,6) F(3,7,0)
#undef F
#define F(d,n,o,m) void d_Interp2_##d##_##n##_##o##_##m(I c, V1 N, V2 u, V2 out){ Plato::InterpolateFromNodal<d,n,o,m> op; op(c,N,u,out); }
F(1,1,0,1) F(2,2,0,2) F(3,3,0,3) F(2,4,0,2) F(3,5,1,3) F(1,9,6,1) F(2,9,6,2) F(3,9,6,3) F(3,7,0,7) F(1,9,5,4) F(2,9,2,7)
#undef F
#define F(d,n,o) void d_InterpGrad_##d##_##n##_##o(I c, V3 g, V2 u, V2 out){ Plato::InterpolateGradientFromScalarNodal<d,n,o> op; op(c,g,u,out); }
F(1,1,0) F(2,1,0) F(3,1,0) F(3,5,4) F(1,3,1) F(1,9,6) F(2,9,6) F(3,9,6) F(3,7,0)
#undef F
void d_Inertial(I c, S rho, V1 vol, V1 N, V2 s, V2 out){ Plato::InertialForces op(rho); op(c,vol,N,s,out); }
void d_StateValues(I c, V1 N, V2 u, V2 out){ Plato::StateValues op; op(c,N,u,out); }
#define F(d) void d_StrainDiv_##d(I c, V2 e, V1 out){ Plato::StrainDivergence<d> op; op(c,e,out); }
D123(F)
#undef F
#define F(d) void d_SDResidual_##d(I c, S ww, V2 e, V2 dmp, V2 in, V2 out){ Plato::structural_dynamics_cell_residual<d>(c,ww,e,dmp,in,out); }
F(4) F(12)
#undef F
#define F(d) void d_Tensile_##d(I c, V2 e, S lam, S mu, V1 out){ Plato::TensileEnergyDensity<d> op; op(c,e,lam,mu,out); }
D123(F)
#undef F
#define F(d) void d_VonMises_##d(I c, V2 s, V1 out){ Plato::VonMisesYieldFunction<d> op; op(c,s,out); }
D123(F)
#undef F
#define F(d) void d_VecPNorm_##d(I c, V1 out, V2 a, I p, V1 vol){ Plato::VectorPNorm<d> op; op(c,out,a,p,vol); }
D123(F)
#undef F
#define F(d) void d_TensPNorm_##d(Teuchos::ParameterList pl, I c, V1 out, V2 a, I p, V1 vol){ Plato::TensorPNormFunctor<d> op(pl); op(c,out,a,p,vol); }
F(1) F(3) F(6)
#undef F
#define F(d) void d_WeightedPNorm_##d(Teuchos::ParameterList pl, I c, V1 out, V2 a, I p, V1 vol){ Plato::WeightedNormFunctor<d> op(pl); op(c,out,a,p,vol); }
F(3) F(6)
#undef F
#define F(d) void d_BarlatNorm_##d(Teuchos::ParameterList pl, I c, V1 out, V2 a, I p, V1 vol){ Plato::BarlatNormFunctor<d> op(pl); op(c,out,a,p,vol); }
F(6)
#undef F
#define F(d) S d_cell_mass_##d(I c, V1 N, V2 z){ return Plato::cell_mass<d>(c,N,z); }
F(2) F(3) F(4)
#undef F
#define F(d) S d_cell_density_##d(I c, V2 z){ return Plato::cell_density<d>(c,z); }
F(2) F(3) F(4)
#undef F
// plasticity
#define F(d) \
void d_J2_updP_##d(I c, V2 prev, V2 nrm, S H, V2 out){ Plato::J2PlasticityUtilities<d> op; op.updatePlasticStrainAndBackstressPlasticStep(c,prev,nrm,H,out); } \
void d_J2_updE_##d(I c, V2 prev, V2 out){ Plato::J2PlasticityUtilities<d> op; op.updatePlasticStrainAndBackstressElasticStep(c,prev,out); } \
void d_J2_norm_##d(I c, V2 s, V2 q, V2 out, V1 nrm){ Plato::J2PlasticityUtilities<d> op; op.computeDeviatoricStressMinusBackstressNormalized(c,s,q,out,nrm); } \
void d_J2_misfit_##d(I c, V2 a, V2 b, V2 out){ Plato::J2PlasticityUtilities<d> op; op.computePlasticStrainMisfit(c,a,b,out); } \
void d_J2_resPsP_##d(I c, V2 q, V2 prev, V2 nrm, V2 out){ Plato::J2PlasticityUtilities<d> op; op.fillPlasticStrainTensorResidualPlasticStep(c,q,prev,nrm,out); } \
void d_J2_resBsP_##d(I c, S H, V2 q, V2 prev, V2 nrm, V2 out){ Plato::J2PlasticityUtilities<d> op; op.fillBackstressTensorResidualPlasticStep(c,H,q,prev,nrm,out); } \
void d_J2_resPsE_##d(I c, V2 q, V2 prev, V2 out){ Plato::J2PlasticityUtilities<d> op; op.fillPlasticStrainTensorResidualElasticStep(c,q,prev,out); } \
void d_J2_resBsE_##d(I c, V2 q, V2 prev, V2 out){ Plato::J2PlasticityUtilities<d> op; op.fillBackstressTensorResidualElasticStep(c,q,prev,out); } \
void d_J2_getA_##d(I c, V2 q, V1 out){ Plato::J2PlasticityUtilities<d> op; op.getAccumulatedPlasticStrain(c,q,out); } \
void d_J2_getM_##d(I c, V2 q, V1 out){ Plato::J2PlasticityUtilities<d> op; op.getPlasticMultiplierIncrement(c,q,out); } \
void d_J2_getP_##d(I c, V2 q, V2 out){ Plato::J2PlasticityUtilities<d> op; op.getPlasticStrainTensor(c,q,out); } \
void d_J2_getB_##d(I c, V2 q, V2 out){ Plato::J2PlasticityUtilities<d> op; op.getBackstressTensor(c,q,out); } \
void d_ElStrainP_##d(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, V3 g, V2 e, V2 out){ Plato::ThermoPlasticityUtilities<d,Plato::SimplexPlasticity<d>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); } \
void d_ElStrainT_##d(I c, S al, S T0, S ts, V2 u, V2 q, V1 N, V3 g, V2 e, V2 out){ Plato::ThermoPlasticityUtilities<d,Plato::SimplexThermoPlasticity<d>> op(al,T0,ts); op.computeElasticStrain(c,u,q,N,e,out); }
D23(F)
#undef F

// omitted arguments take their documented defaults; the input deck supplies the damping constants
typedef Teuchos::ParameterList PLd;
#define F(d,n,o) void d_FluxDiv0_##d##_##n##_##o(I c, V2 out, V2 f, V3 g, V1 vol){ Plato::FluxDivergence<d,n,o> op; op(c,out,f,g,vol); }
F(2,3,2)
#undef F
#define F(d,n,o) void d_StressDiv0_##d##_##n##_##o(I c, V2 out, V2 s, V3 g, V1 vol){ Plato::StressDivergence<d,n,o> op; op(c,out,s,g,vol); }
F(2,2,0)
#undef F
#define F(d,n,o) void d_PressDiv0_##d##_##n##_##o(I c, V2 out, V1 p, V3 g, V1 vol){ Plato::PressureDivergence<d,n,o> op; op(c,out,p,g,vol); }
F(2,3,0)
#undef F
#define F(d) void d_PressGrad0_##d(I c, V2 out, V2 p, V3 g){ Plato::PressureGradient<d> op; op(c,out,p,g); }
F(2)
#undef F
#define F(d,n,o) void d_ProjNode20_##d##_##n##_##o(I c, V1 vol, V1 N, V2 s, V2 out){ Plato::ProjectToNode<d,n,o> op; op(c,vol,N,s,out); }
F(2,3,0)
#undef F
#define F(d,n,o) void d_ProjNode10_##d##_##n##_##o(I c, V1 vol, V1 N, V1 s, V2 out){ Plato::ProjectToNode<d,n,o> op; op(c,vol,N,s,out); }
F(2,3,2)
#undef F
void d_AdjDamp0_2(I c, V2 el, V2 in, V2 out){ Plato::AdjointComplexRayleighDamping<2> op; op(c,el,in,out); }
void d_CplxDamp0_2(I c, V2 el, V2 in, V2 out){ Plato::ComplexRayleighDamping<2> op; op(c,el,in,out); }
void d_RayDamp0_6(I c, V2 st, V2 ma, V2 out){ Plato::RayleighDamping<6> op; op(c,st,ma,out); }
void d_AdjDampPL_2(PLd pl, I c, V2 el, V2 in, V2 out){ Plato::AdjointComplexRayleighDamping<2> op(pl); op(c,el,in,out); }
void d_CplxDampPL_2(PLd pl, I c, V2 el, V2 in, V2 out){ Plato::ComplexRayleighDamping<2> op(pl); op(c,el,in,out); }
void d_RayDampPL_6(PLd pl, I c, V2 st, V2 ma, V2 out){ Plato::RayleighDamping<6> op(pl); op(c,st,ma,out); }
void d_ElStrainT0_2(I c, V2 u, V2 q, V1 N, V3 g, V2 e, V2 out){ Plato::ThermoPlasticityUtilities<2,Plato::SimplexThermoPlasticity<2>> op; op.computeElasticStrain(c,u,q,N,e,out); }
