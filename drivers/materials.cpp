// Elastic material models built from a deck.
#include "common.hpp"
#include "omega/Omega_h_stub.hpp"
#include "IsotropicLinearElasticMaterial.hpp"
#include "CubicLinearElasticMaterial.hpp"
#include "OrthotropicLinearElasticMaterial.hpp"
typedef Teuchos::ParameterList PL;
#define M(N,T,D) \
 S d_##N##_##D(PL pl, I i, I j){ Plato::T<D> m(pl); auto c = m.getStiffnessMatrix(); return c(i,j); } \
 S d_##N##r_##D(PL pl, I i){ Plato::T<D> m(pl); auto c = m.getReferenceStrain(); return c(i); } \
 S d_##N##s_##D(PL pl, I k){ Plato::T<D> m(pl); if (k == 0) return m.getMassDensity(); if (k == 1) return m.getPressureScaling(); if (k == 2) return m.getRayleighA(); return m.getRayleighB(); }
#define A(N,T) M(N,T,1) M(N,T,2) M(N,T,3)
A(iso,IsotropicLinearElasticMaterial) A(cub,CubicLinearElasticMaterial) A(ort,OrthotropicLinearElasticMaterial)
#define E(D) S d_isov_##D(S e, S n, I i, I j){ Plato::IsotropicLinearElasticMaterial<D> m(e, n); auto c = m.getStiffnessMatrix(); return c(i,j); }
E(1) E(2) E(3)
