#include "common.hpp"
// a quantity that would carry derivatives with respect to two fields at once must not build: every typedef below is refused
typedef Plato::SimplexPlasticity<2> PP; typedef Plato::SimplexFadTypes<PP> FF;
typedef Plato::fad_type_t<PP, double, FF::StateFad, double, FF::LocalStateFad, double> Bad_StateFad_LocalStateFad;
typedef Plato::fad_type_t<PP, double, FF::StateFad, double, FF::ControlFad, double> Bad_StateFad_ControlFad;
typedef Plato::fad_type_t<PP, double, FF::StateFad, double, FF::ConfigFad, double> Bad_StateFad_ConfigFad;
typedef Plato::fad_type_t<PP, double, FF::LocalStateFad, double, FF::StateFad, double> Bad_LocalStateFad_StateFad;
typedef Plato::fad_type_t<PP, double, FF::LocalStateFad, double, FF::ControlFad, double> Bad_LocalStateFad_ControlFad;
typedef Plato::fad_type_t<PP, double, FF::LocalStateFad, double, FF::ConfigFad, double> Bad_LocalStateFad_ConfigFad;
typedef Plato::fad_type_t<PP, double, FF::ControlFad, double, FF::StateFad, double> Bad_ControlFad_StateFad;
typedef Plato::fad_type_t<PP, double, FF::ControlFad, double, FF::LocalStateFad, double> Bad_ControlFad_LocalStateFad;
typedef Plato::fad_type_t<PP, double, FF::ControlFad, double, FF::ConfigFad, double> Bad_ControlFad_ConfigFad;
typedef Plato::fad_type_t<PP, double, FF::ConfigFad, double, FF::StateFad, double> Bad_ConfigFad_StateFad;
typedef Plato::fad_type_t<PP, double, FF::ConfigFad, double, FF::LocalStateFad, double> Bad_ConfigFad_LocalStateFad;
typedef Plato::fad_type_t<PP, double, FF::ConfigFad, double, FF::ControlFad, double> Bad_ConfigFad_ControlFad;
