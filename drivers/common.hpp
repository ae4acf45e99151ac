// Call sites: every function below names one use of the repository's public interface.
// Nothing here is ever run; the analysis starts at these functions with unknown arguments.
#pragma once
#include "/opt/vp/plato/headers.cpp"
typedef Plato::ScalarVectorT<double> V1;
typedef Plato::ScalarMultiVectorT<double> V2;
typedef Plato::ScalarArray3DT<double> V3;
typedef int I;
typedef double S;
#define D123(M) M(1) M(2) M(3)
#define D23(M) M(2) M(3)
