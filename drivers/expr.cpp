// entry points of the expression evaluator and of custom material expressions
#include "common.hpp"
#include "ExpressionEvaluator.hpp"
#include "CustomMaterial.hpp"
typedef Teuchos::ParameterList PL;
S d_ex_eval(PL& pl, const char* s){ Plato::ExpressionEvaluator e(pl); e.parse_expression(s); if(e.validate_expression() != 0) THROWERR("invalid"); return e.evaluate_expression(); }
void d_ex_check(PL& pl, const char* s){ Plato::ExpressionEvaluator e(pl); e.parse_expression(s); if(e.validate_expression() != 0) THROWERR("invalid"); }
// the same evaluator used again
S d_ex_again(PL& pl, const char* s, const char* q){ Plato::ExpressionEvaluator e(pl); e.parse_expression(q); e.evaluate_expression(); e.parse_expression(s); e.evaluate_expression(); return e.evaluate_expression(); }
S d_ex_afterbad(PL& pl, const char* s, const char* q){ Plato::ExpressionEvaluator e(pl); try { e.parse_expression(q); } catch(...) {} e.parse_expression(s); return e.evaluate_expression(); }
S d_ex_deleted(PL& pl, const char* s){ Plato::ExpressionEvaluator e(pl); e.parse_expression(s); e.delete_expression(); return e.evaluate_expression(); }
S d_ex_null(PL& pl){ Plato::ExpressionEvaluator e(pl); e.parse_expression(nullptr); return e.evaluate_expression(); }
struct CM : public Plato::CustomMaterial { CM(const PL& p) : Plato::CustomMaterial(p) {} S get(const PL& p, const std::string n) const { return this->GetCustomExpressionValue(p, n); } S get(const PL& p, int k, const std::string n) const { return this->GetCustomExpressionValue(p, k, n); } };
S d_cm_named(PL& pl){ CM m(pl); return m.get(pl, "E"); }
S d_cm_index(PL& pl, I k){ CM m(pl); return m.get(pl, k, "E"); }
