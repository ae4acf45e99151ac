#include "common.hpp"
template<class T> struct N_ { static constexpr int v = Sacado::StaticSize<T>::value; };
// ---- layout constants: d_lay_<physics>_<dim>_<constant>
#define L1(P,D,M) I d_lay_##P##_##D##_##M(){ return Plato::P<D>::M; }
#define L123(P,M) L1(P,1,M) L1(P,2,M) L1(P,3,M)
#define BASE(P) L123(P,mNumSpatialDims) L123(P,mNumNodesPerCell) L123(P,mNumDofsPerNode) L123(P,mNumDofsPerCell) L123(P,mNumControl) L123(P,mNumNodeStatePerNode) L123(P,mNumLocalDofsPerCell)
BASE(SimplexMechanics) BASE(SimplexElectromechanics) BASE(SimplexThermal) BASE(SimplexThermomechanics) BASE(SimplexStabilizedMechanics)
BASE(SimplexStabilizedThermomechanics) BASE(SimplexStructuralDynamics) BASE(SimplexPlasticity) BASE(SimplexThermoPlasticity) BASE(SimplexProjection)
#define VT(P) L123(P,mNumVoigtTerms)
VT(SimplexMechanics) VT(SimplexElectromechanics) VT(SimplexThermomechanics) VT(SimplexStabilizedMechanics) VT(SimplexStabilizedThermomechanics) VT(SimplexStructuralDynamics) VT(SimplexPlasticity) VT(SimplexThermoPlasticity)
L123(SimplexThermomechanics,mTDofOffset) L123(SimplexStabilizedThermomechanics,mTDofOffset) L123(SimplexStabilizedThermomechanics,mPressureDofOffset) L123(SimplexStabilizedMechanics,mPressureDofOffset)
#define PL(P) L123(P,mNumStressTerms) L123(P,mDisplacementDofOffset) L123(P,mPressureDofOffset) L123(P,mTemperatureDofOffset) L123(P,mNumNodeStatePerCell)
PL(SimplexPlasticity) PL(SimplexThermoPlasticity)
L123(SimplexStabilizedMechanics,mNumNodeStatePerCell) L123(SimplexStabilizedThermomechanics,mNumNodeStatePerCell)
L123(SimplexStructuralDynamics,mComplexSpaceDim)
L123(SimplexProjection,mNumNodeStatePerCell) L123(SimplexProjection,mProjectionDof) L123(SimplexProjection,mTotalDofs) L123(SimplexProjection,mPressureDofOffset)
I d_lay_SimplexProjectionB_3_mNumNodeStatePerNode(){ return Plato::SimplexProjection<3,5,3,2,7>::mNumNodeStatePerNode; }
I d_lay_SimplexProjectionB_3_mProjectionDof(){ return Plato::SimplexProjection<3,5,3,2,7>::mProjectionDof; }
I d_lay_SimplexProjectionB_3_mTotalDofs(){ return Plato::SimplexProjection<3,5,3,2,7>::mTotalDofs; }
I d_lay_SimplexProjectionB_3_mNumControl(){ return Plato::SimplexProjection<3,5,3,2,7>::mNumControl; }
#define NCT(P) I d_lay_##P##C_2_mNumControl(){ return Plato::P<2,4>::mNumControl; }
NCT(SimplexMechanics) NCT(SimplexElectromechanics) NCT(SimplexThermomechanics) NCT(SimplexStabilizedMechanics) NCT(SimplexStabilizedThermomechanics) NCT(SimplexStructuralDynamics) NCT(SimplexPlasticity) NCT(SimplexThermoPlasticity)
I d_lay_MaterialModel_1_voigt(){ return sizeof(Plato::VoigtMap<1>::I)/sizeof(int); }
I d_lay_MaterialModel_2_voigt(){ return sizeof(Plato::VoigtMap<2>::I)/sizeof(int); }
I d_lay_MaterialModel_3_voigt(){ return sizeof(Plato::VoigtMap<3>::I)/sizeof(int); }
// ---- derivative components: d_fad_<physics>_<dim>_<type>
#define FT(P,D) \
I d_fad_##P##_##D##_StateFad(){ return N_<typename Plato::SimplexFadTypes<Plato::P<D>>::StateFad>::v; } \
I d_fad_##P##_##D##_LocalStateFad(){ return N_<typename Plato::SimplexFadTypes<Plato::P<D>>::LocalStateFad>::v; } \
I d_fad_##P##_##D##_ControlFad(){ return N_<typename Plato::SimplexFadTypes<Plato::P<D>>::ControlFad>::v; } \
I d_fad_##P##_##D##_ConfigFad(){ return N_<typename Plato::SimplexFadTypes<Plato::P<D>>::ConfigFad>::v; } \
I d_fad_##P##_##D##_NodeStateFad(){ return N_<typename Plato::SimplexFadTypes<Plato::P<D>>::NodeStateFad>::v; }
FT(SimplexPlasticity,2) FT(SimplexPlasticity,3) FT(SimplexThermoPlasticity,2) FT(SimplexThermoPlasticity,3)
#define GT(P,D) \
I d_fad_##P##_##D##_GeoControlFad(){ return N_<typename Plato::Geometric::SimplexFadTypes<Plato::P<D>>::ControlFad>::v; } \
I d_fad_##P##_##D##_GeoConfigFad(){ return N_<typename Plato::Geometric::SimplexFadTypes<Plato::P<D>>::ConfigFad>::v; }
GT(SimplexMechanics,1) GT(SimplexMechanics,2) GT(SimplexMechanics,3)
// ---- evaluation types: d_ev_<kind>_<evaluation>_<field>_<physics>_<dim>
#define EF(K,V,F,P,D) I d_ev_##K##_##V##_##F##_##P##_##D(){ return N_<typename Plato::K::Evaluation<Plato::P<D>>::V::F##ScalarType>::v; }
#define EC(K,V,P,D) EF(K,V,Control,P,D) EF(K,V,Config,P,D) EF(K,V,Result,P,D) \
I d_evc_##K##_##V##_nodes_##P##_##D(){ return Plato::K::Evaluation<Plato::P<D>>::V::NumNodesPerCell; } \
I d_evc_##K##_##V##_controls_##P##_##D(){ return Plato::K::Evaluation<Plato::P<D>>::V::NumControls; } \
I d_evc_##K##_##V##_dims_##P##_##D(){ return Plato::K::Evaluation<Plato::P<D>>::V::SpatialDim; }
#define ES(K,V,P,D) EC(K,V,P,D) EF(K,V,State,P,D)
#define ED(K,V,P,D) ES(K,V,P,D) EF(K,V,StateDot,P,D)
#define EA(K,V,P,D) ED(K,V,P,D) EF(K,V,StateDotDot,P,D)
#define ELL(P,D) ES(Elliptic,Residual,P,D) ES(Elliptic,Jacobian,P,D) ES(Elliptic,GradientZ,P,D) ES(Elliptic,GradientX,P,D)
#define PAR(P,D) ED(Parabolic,Residual,P,D) ED(Parabolic,GradientU,P,D) ED(Parabolic,GradientV,P,D) ED(Parabolic,GradientZ,P,D) ED(Parabolic,GradientX,P,D)
#define HYP(P,D) EA(Hyperbolic,Residual,P,D) EA(Hyperbolic,GradientU,P,D) EA(Hyperbolic,GradientV,P,D) EA(Hyperbolic,GradientA,P,D) EA(Hyperbolic,GradientZ,P,D) EA(Hyperbolic,GradientX,P,D)
#define GEO(P,D) EC(Geometric,Residual,P,D) EC(Geometric,GradientZ,P,D) EC(Geometric,GradientX,P,D)
ELL(SimplexMechanics,1) ELL(SimplexMechanics,2) ELL(SimplexMechanics,3) ELL(SimplexThermal,2) ELL(SimplexThermal,3) ELL(SimplexElectromechanics,2) ELL(SimplexThermomechanics,3)
PAR(SimplexThermal,1) PAR(SimplexThermal,2) PAR(SimplexThermal,3) PAR(SimplexThermomechanics,2) PAR(SimplexThermomechanics,3)
HYP(SimplexMechanics,1) HYP(SimplexMechanics,2) HYP(SimplexMechanics,3)
GEO(SimplexMechanics,2) GEO(SimplexMechanics,3)
// ---- combining argument types: the only derivative type wins, in whatever position
typedef Plato::SimplexPlasticity<2> PP; typedef Plato::SimplexFadTypes<PP> FF; typedef double Dd;
#define PICK(F) \
bool d_pick_##F##_1(){ return std::is_same<Plato::fad_type_t<PP,typename FF::F>,typename FF::F>::value; } \
bool d_pick_##F##_2(){ return std::is_same<Plato::fad_type_t<PP,typename FF::F,Dd,Dd>,typename FF::F>::value; } \
bool d_pick_##F##_3(){ return std::is_same<Plato::fad_type_t<PP,Dd,typename FF::F,Dd>,typename FF::F>::value; } \
bool d_pick_##F##_4(){ return std::is_same<Plato::fad_type_t<PP,Dd,Dd,typename FF::F>,typename FF::F>::value; } \
bool d_pick_##F##_5(){ return std::is_same<Plato::fad_type_t<PP,Dd,Dd,Dd,typename FF::F,Dd>,typename FF::F>::value; } \
bool d_pick_##F##_6(){ return Plato::is_fad<FF,typename FF::F>::value; } \
bool d_pick_##F##_7(){ return !Plato::is_fad<FF,Dd>::value && !Plato::is_fad<FF,float>::value; }
PICK(StateFad) PICK(LocalStateFad) PICK(ControlFad) PICK(ConfigFad) PICK(NodeStateFad)
bool d_pick_none(){ return std::is_same<Plato::fad_type_t<PP,Dd,Dd,Dd>,Dd>::value; }
