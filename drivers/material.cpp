#include "common.hpp"
typedef Teuchos::ParameterList PL;
typedef std::string STR;
// coefficient functions
S d_sf_pl(PL pl, S T){ Plato::ScalarFunctor f(pl); return f(T); }
S d_sf_val(S v, S T){ Plato::ScalarFunctor f(v); return f(T); }
S d_sf_zero(S T){ Plato::ScalarFunctor f; return f(T); }
#define TEN(D) \
void d_tf_pl_##D(PL pl, S T, V2 out){ Plato::TensorFunctor<D> f(pl); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(T,i,j); } \
void d_tf_val_##D(S v, S T, V2 out){ Plato::TensorFunctor<D> f(v); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(T,i,j); } \
void d_tf_zero_##D(S T, V2 out){ Plato::TensorFunctor<D> f; for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(T,i,j); } \
void d_tc_pl_##D(PL pl, V2 out){ Plato::TensorConstant<D> f(pl); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(i,j); } \
void d_tc_val_##D(S v, V2 out){ Plato::TensorConstant<D> f(v); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(i,j); } \
void d_tc_zero_##D(V2 out){ Plato::TensorConstant<D> f; for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(i,j); }
D123(TEN)
#define NV(D) (D==3?6:(D==2?3:1))
#define R4(D) \
void d_r4f_pl_##D(PL pl, S T, V2 out){ Plato::Rank4VoigtFunctor<D> f(pl); for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(T,i,j); } \
void d_r4f_zero_##D(S T, V2 out){ Plato::Rank4VoigtFunctor<D> f; for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(T,i,j); } \
void d_r4c_pl_##D(PL pl, V2 out){ Plato::Rank4VoigtConstant<D> f(pl); for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(i,j); } \
void d_r4c_zero_##D(V2 out){ Plato::Rank4VoigtConstant<D> f; for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(i,j); } \
void d_isof_pl_##D(PL pl, S T, V2 out){ Plato::IsotropicStiffnessFunctor<D> f(pl); for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(T,i,j); } \
void d_isoc_pl_##D(PL pl, V2 out){ Plato::IsotropicStiffnessConstant<D> f(pl); for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(i,j); }
D123(R4)
// moduli
S d_shear(S e, S v){ return Plato::compute_shear_modulus(e, v); }
S d_bulk(S e, S v){ return Plato::compute_bulk_modulus(e, v); }
S d_shear_pl(PL pl){ return Plato::compute_shear_modulus(pl); }
S d_bulk_pl(PL pl){ return Plato::compute_bulk_modulus(pl); }
S d_pem(PL pl){ return Plato::parse_elastic_modulus(pl); }
S d_ppr(PL pl){ return Plato::parse_poissons_ratio(pl); }
// parse tools
S d_getparam(PL pl){ return Plato::ParseTools::getParam<S>(pl, "K"); }
S d_getparam_d(PL pl, S d){ return Plato::ParseTools::getParam<S>(pl, "K", d); }
S d_getsub(PL pl, S d){ return Plato::ParseTools::getSubParam<S>(pl, "L", "K", d); }
// material model: parse, store, retrieve
#define MM(D) \
S d_mm_scalar_lin_##D(PL pl){ Plato::MaterialModel<D> m(pl); m.parseScalar("K", pl); return m.getScalarConstant("K"); } \
S d_mm_scalar_fun_##D(PL pl, S T){ Plato::MaterialModel<D> m(pl); m.parseScalar("K", pl); Plato::ScalarFunctor f = m.getScalarFunctor("K"); return f(T); } \
S d_mm_sc_##D(PL pl){ Plato::MaterialModel<D> m(pl); m.parseScalarConstant("K", pl); return m.getScalarConstant("K"); } \
S d_mm_scd_##D(PL pl, S d){ Plato::MaterialModel<D> m(pl); m.parseScalarConstant("K", pl, d); return m.getScalarConstant("K"); } \
void d_mm_tensor_lin_##D(PL pl, V2 out){ Plato::MaterialModel<D> m(pl); m.parseTensor("K", pl); Plato::TensorConstant<D> f = m.getTensorConstant("K"); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(i,j); } \
void d_mm_tensor_fun_##D(PL pl, S T, V2 out){ Plato::MaterialModel<D> m(pl); m.parseTensor("K", pl); Plato::TensorFunctor<D> f = m.getTensorFunctor("K"); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(T,i,j); } \
void d_mm_r4_lin_##D(PL pl, V2 out){ Plato::MaterialModel<D> m(pl); m.parseRank4Voigt("K", pl); Plato::Rank4VoigtConstant<D> f = m.getRank4VoigtConstant("K"); for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(i,j); } \
void d_mm_r4_fun_##D(PL pl, S T, V2 out){ Plato::MaterialModel<D> m(pl); m.parseRank4Voigt("K", pl); Plato::Rank4VoigtFunctor<D> f = m.getRank4VoigtFunctor("K"); for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(T,i,j); } \
bool d_mm_type_##D(PL pl){ Plato::MaterialModel<D> m(pl); return m.type() == Plato::MaterialModelType::Nonlinear; } \
bool d_mm_type0_##D(){ Plato::MaterialModel<D> m; return m.type() == Plato::MaterialModelType::Nonlinear; } \
S d_mm_two_##D(S a, S b){ Plato::MaterialModel<D> m; m.setScalarConstant("A", a); m.setScalarConstant("B", b); return m.getScalarConstant("A"); } \
S d_mm_over_##D(S a, S b){ Plato::MaterialModel<D> m; m.setScalarConstant("A", a); m.setScalarConstant("A", b); return m.getScalarConstant("A"); } \
S d_mm_fun2_##D(S a, S b, S T){ Plato::MaterialModel<D> m; m.setScalarFunctor("A", Plato::ScalarFunctor(a)); m.setScalarFunctor("B", Plato::ScalarFunctor(b)); m.setScalarConstant("A", b); Plato::ScalarFunctor f = m.getScalarFunctor("A"); return f(T); } \
void d_te_stiff_lin_##D(PL pl, V2 out){ Plato::ThermoelasticMaterial<D> m(pl); Plato::Rank4VoigtConstant<D> f = m.getRank4VoigtConstant("Elastic Stiffness"); for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(i,j); } \
void d_te_stiff_fun_##D(PL pl, S T, V2 out){ Plato::ThermoelasticMaterial<D> m(pl); Plato::Rank4VoigtFunctor<D> f = m.getRank4VoigtFunctor("Elastic Stiffness"); for(int i=0;i<NV(D);i++) for(int j=0;j<NV(D);j++) out(i,j)=f(T,i,j); } \
void d_te_expan_lin_##D(PL pl, V2 out){ Plato::ThermoelasticMaterial<D> m(pl); Plato::TensorConstant<D> f = m.getTensorConstant("Thermal Expansivity"); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(i,j); } \
void d_te_cond_lin_##D(PL pl, V2 out){ Plato::ThermoelasticMaterial<D> m(pl); Plato::TensorConstant<D> f = m.getTensorConstant("Thermal Conductivity"); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(i,j); } \
void d_te_expan_fun_##D(PL pl, S T, V2 out){ Plato::ThermoelasticMaterial<D> m(pl); Plato::TensorFunctor<D> f = m.getTensorFunctor("Thermal Expansivity"); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(T,i,j); } \
void d_te_cond_fun_##D(PL pl, S T, V2 out){ Plato::ThermoelasticMaterial<D> m(pl); Plato::TensorFunctor<D> f = m.getTensorFunctor("Thermal Conductivity"); for(int i=0;i<D;i++) for(int j=0;j<D;j++) out(i,j)=f(T,i,j); } \
S d_te_tref_##D(PL pl){ Plato::ThermoelasticMaterial<D> m(pl); return m.getScalarConstant("Reference Temperature"); } \
S d_te_tscale_##D(PL pl){ Plato::ThermoelasticMaterial<D> m(pl); return m.getScalarConstant("Temperature Scaling"); }
D123(MM)
// factories and the kernels that consume the models
#define FAC(D) \
void d_flux_##D(I c, PL pl, V2 fl, V2 gr, V1 te){ Plato::ThermalConductionModelFactory<D> fac(pl); auto m = fac.create("M"); Plato::ThermalFlux<D> k(m); k(c, fl, gr, te); } \
void d_fluxc_##D(I c, PL pl, V2 fl, V2 gr){ Plato::ThermalConductionModelFactory<D> fac(pl); auto m = fac.create("M"); Plato::ThermalFlux<D> k(m); k(c, fl, gr); } \
void d_content_##D(I c, PL pl, V1 co, V1 ra, V1 te){ Plato::ThermalMassModelFactory<D> fac(pl); auto m = fac.create("M"); Plato::ThermalContent<D> k(m); k(c, co, ra, te); } \
void d_contentc_##D(I c, PL pl, V1 co, V1 ra){ Plato::ThermalMassModelFactory<D> fac(pl); auto m = fac.create("M"); Plato::ThermalContent<D> k(m); k(c, co, ra); } \
S d_tefac_##D(PL pl){ Plato::ThermoelasticModelFactory<D> fac(pl); auto m = fac.create("M"); return m->getScalarConstant("Reference Temperature"); } \
bool d_nofac_c_##D(PL pl){ Plato::ThermalConductionModelFactory<D> fac(pl); auto m = fac.create("M"); return m.is_null(); } \
bool d_nofac_m_##D(PL pl){ Plato::ThermalMassModelFactory<D> fac(pl); auto m = fac.create("M"); return m.is_null(); } \
bool d_nofac_t_##D(PL pl){ Plato::ThermoelasticModelFactory<D> fac(pl); auto m = fac.create("M"); return m.is_null(); }
D123(FAC)
