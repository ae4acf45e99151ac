#include "Omega_h_stub.hpp"
