#include "common.hpp"
typedef Teuchos::ParameterList PL;
typedef Plato::ScalarVector W;
struct EV {};
typedef Plato::NewmarkIntegrator<EV> NI;
typedef Plato::Parabolic::TrapezoidIntegrator<EV> TI;
#define NG(f) S d_nm_##f(PL pl, S dt){ NI x(pl); return x.f(dt); }
NG(v_grad_u) NG(v_grad_u_prev) NG(v_grad_v_prev) NG(v_grad_a_prev) NG(a_grad_u) NG(a_grad_u_prev) NG(a_grad_v_prev) NG(a_grad_a_prev)
W d_nm_v(PL pl, W u, W up, W v, W vp, W a, W ap, S dt){ NI x(pl); return x.v_value(u, up, v, vp, a, ap, dt); }
W d_nm_a(PL pl, W u, W up, W v, W vp, W a, W ap, S dt){ NI x(pl); return x.a_value(u, up, v, vp, a, ap, dt); }
#define TG(f) S d_tr_##f(PL pl, S dt){ TI x(pl); return x.f(dt); }
TG(v_grad_u) TG(v_grad_u_prev) TG(v_grad_v_prev)
W d_tr_v(PL pl, W u, W up, W v, W vp, S dt){ TI x(pl); return x.v_value(u, up, v, vp, dt); }
// the same object used again, with another step size
W d_nm_v2(PL pl, W u, W up, W v, W vp, W a, W ap, S dt0, S dt){ NI x(pl); x.v_value(v, vp, u, up, ap, a, dt0); x.a_value(u, up, v, vp, a, ap, dt0); x.v_grad_u(dt0); return x.v_value(u, up, v, vp, a, ap, dt); }
W d_nm_a2(PL pl, W u, W up, W v, W vp, W a, W ap, S dt0, S dt){ NI x(pl); x.v_value(v, vp, u, up, ap, a, dt0); x.a_value(u, up, v, vp, a, ap, dt0); x.a_grad_u(dt0); return x.a_value(u, up, v, vp, a, ap, dt); }
S d_nm_agu2(PL pl, S dt0, S dt){ NI x(pl); x.a_grad_u(dt0); x.v_grad_u(dt0); return x.a_grad_u(dt); }
S d_nm_vgu2(PL pl, S dt0, S dt){ NI x(pl); x.a_grad_u(dt0); x.v_grad_u(dt0); return x.v_grad_u(dt); }
W d_tr_v2(PL pl, W u, W up, W v, W vp, S dt0, S dt){ TI x(pl); x.v_value(v, vp, u, up, dt0); x.v_grad_u(dt0); return x.v_value(u, up, v, vp, dt); }
S d_tr_vgu2(PL pl, S dt0, S dt){ TI x(pl); x.v_grad_u(dt0); x.v_grad_v_prev(dt0); return x.v_grad_u(dt); }
