"""Oracles of the time integrators: update residuals and their derivatives."""
from symb import *
from spec_cell import V, S
n, i = sym('n', True), sym('i', True)
RNG = {'n': (1, None), 'i': (0, n)}
G, B = S('pl/Newmark Gamma'), S('pl/Newmark Beta')
AL = ite(boolsym('has:pl/Trapezoid Alpha'), S('pl/Trapezoid Alpha'), num(1) / 2)
dt = S('dt')
u, up, v, vp, a, ap = (V(k)(i) for k in ('u', 'up', 'v', 'vp', 'a', 'ap'))


def predv():
    return vp + (1 - G) * dt * ap


def predu():
    return up + dt * vp + dt * dt / 2 * (1 - 2 * B) * ap


NV = v - predv() - G / (B * dt) * (u - predu())
NA = a - (u - predu()) / (B * dt * dt)
TV = v - (u - up - dt * (1 - AL) * vp) / (AL * dt)


def deriv(r, x):
    """the residuals are affine in every field, so the derivative is the difference quotient"""
    at = as_atom(x)
    return subst_atom(r, at, x + 1) - r


GRAD = {'d_nm_v_grad_u': (NV, u), 'd_nm_v_grad_u_prev': (NV, up), 'd_nm_v_grad_v_prev': (NV, vp), 'd_nm_v_grad_a_prev': (NV, ap),
        'd_nm_a_grad_u': (NA, u), 'd_nm_a_grad_u_prev': (NA, up), 'd_nm_a_grad_v_prev': (NA, vp), 'd_nm_a_grad_a_prev': (NA, ap),
        'd_nm_agu2': (NA, u), 'd_nm_vgu2': (NV, u),
        'd_tr_v_grad_u': (TV, u), 'd_tr_v_grad_u_prev': (TV, up), 'd_tr_v_grad_v_prev': (TV, vp), 'd_tr_vgu2': (TV, u)}
VALUE = {'d_nm_v': NV, 'd_nm_a': NA, 'd_tr_v': TV, 'd_nm_v2': NV, 'd_nm_a2': NA, 'd_tr_v2': TV}
