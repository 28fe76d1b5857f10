EL = "_elements.py"; QL = "_qlaw.py"; SY = "_symbolic.py"; EO = "_eom.py"; IN = "_integrate.py"; LY = "_lyapunov.py"; PE = PT = "_perturbations.py"; CO = "_convergence.py"; TR = "_transformations.py"; PM = "_plot_methods.py"; PH = "_plot_helper.py"
# (name, [(file, old, new)...], [properties])
BUGS = [
 ("mee2kep raan swapped", [(EL, "raan = np.arctan2(k,h)", "raan = np.arctan2(h,k)")], ["C01"]),
 ("mee2kep om sign", [(EL, "om = np.arctan2(g*h-f*k, f*h+g*k)", "om = np.arctan2(g*h-f*k, f*h-g*k)")], ["C01"]),
 ("mee2kep equatorial", [(EL, "om = np.arctan2(g, f)", "om = 0.0")], ["C01"]),
 ("mee2kep inclination", [(EL, "i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)", "i = np.arctan(2*np.sqrt(h**2+k**2)/(1-h**2-k**2))")], ["C01"]),
 ("kep2mee_with_a tan", [(EL, "    h = np.tan(i/2)*np.cos(raan)\n    k = np.tan(i/2)*np.sin(raan)\n    l = raan + om + ta\n    return np.array([a,", "    h = np.tan(i/2)*np.cos(raan)\n    k = np.tan(i/2)*np.sin(om)\n    l = raan + om + ta\n    return np.array([a,")], ["C01"]),
 ("ta2ea inverted", [(EL, "np.sqrt((1-ecc)/(1+ecc))", "np.sqrt((1+ecc)/(1-ecc))")], ["C01"]),
 ("mee2ea arctan", [(EL, "np.arctan2(mee[2],mee[1])", "np.arctan(mee[2]/mee[1])")], ["C01"]),
 ("kep2sv vel", [(EL, "vPF = mu/h * np.array([-np.sin(ta), ecc + np.cos(ta), 0.0])", "vPF = mu/h * np.array([-np.sin(ta), 1 + ecc*np.cos(ta), 0.0])")], ["C02"]),
 ("kep2sv order", [(EL, "r2 = np.dot(rotmat1(-inc), r1)", "r2 = np.dot(rotmat1(inc), r1)")], ["C02"]),
 ("raan branch", [(EL, "if (raan != 0.0):", "if (raan > 0.0):")], ["C02"]),
 ("aop branch", [(EL, "if (aop != 0.0):", "if (abs(aop) > 1e-3):")], ["C02"]),
 ("get_omega sign", [(EL, "if ecc[2] < 0:", "if ecc[1] < 0:")], ["C02"]),
 ("get_raan", [(EL, "raan = np.arctan2(ndir[1], ndir[0])", "raan = np.arctan(ndir[1]/ndir[0])")], ["C02"]),
 ("trueanom", [(EL, "theta = np.arctan2(h*vr, h**2/la.norm(r) - mu)", "theta = np.arccos((h**2/la.norm(r) - mu)/mu)")], ["C02"]),
 ("rotmat2", [(TR, "np.cos(phi), 0.0, -np.sin(phi)]", "np.cos(phi), 0.0, np.sin(phi)]")], ["C02"]),
 ("sma", [(EL, "a = h**2 / (mu*(1 - e**2))", "a = h**2 / (mu*(1 + e**2))")], ["C02"]),
 ("outline", [(EL, "np.linspace(0.0, 2*np.pi, steps)", "np.linspace(0.0, np.pi, steps)")], ["C02"]),
 ("outline2", [(EL, "np.array([sma, ecc, inc, raan, aop, tas[idx]])", "np.array([sma, ecc, inc, aop, raan, tas[idx]])")], ["C02"]),
 ("period", [(EL, "period = 2*np.pi*np.sqrt(a**3/mu)", "period = 2*np.pi*np.sqrt(a**2/mu)")], ["C02"]),
 ("sv2kep order", [(EL, "return np.array([sma, ecc, inc, raan, aop, ta])", "return np.array([sma, ecc, inc, aop, raan, ta])")], ["C02"]),
 ("unclamped inc", [(EL, "np.arccos(max(-1.0, min(1.0, h[2] / la.norm(h))))", "np.arccos(h[2] / la.norm(h))")], ["C03"]),
 ("half clamp omega", [(EL, "max(-1.0, min(1.0, np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc))))", "min(1.0, np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)))")], ["C03"]),
 ("half clamp omega 2", [(EL, "max(-1.0, min(1.0, np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc))))", "max(-1.0, np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)))")], ["C03"]),
 ("conv acos sum", [(CO, "np.arccos(np.cos(oeT[3] - oe[3]))", "np.arccos(np.cos(oeT[3])*np.cos(oe[3]) + np.sin(oeT[3])*np.sin(oe[3]))")], ["C03"]),
 ("ta acos", [(EL, "    theta = np.arctan2(h*vr, h**2/la.norm(r) - mu)", "    ev = get_eccentricity(state, mu)\n    theta = np.arccos(np.dot(ev, r)/(la.norm(ev)*la.norm(r)))\n    if vr < 0:\n        theta = 2*np.pi - theta")], ["C03"]),
 ("clamp 2", [(EL, "max(-1.0, min(1.0, np.dot(ndir,ecc)", "max(-1.0, min(1.0+1e-9, np.dot(ndir,ecc)")], ["C03"]),
 ("kep rate sign", [(EO, "- (p+r)*np.sin(ta) / ( ecc*h ), 0.0]", "(p+r)*np.sin(ta) / ( ecc*h ), 0.0]")], ["C04"]),
 ("kep rate motion", [(EO, "0.0, 0.0, 0.0, 0.0, 0.0, h/r**2])", "0.0, 0.0, 0.0, 0.0, 0.0, np.sqrt(mu/sma**3)])")], ["C04"]),
 ("mee g", [(EO, "-g/w*sqrt_pmu*(h*sinL - k*cosL)],\n        [-sqrt_pmu*cosL", "-g/w*sqrt_pmu*(h*sinL + k*cosL)],\n        [-sqrt_pmu*cosL")], ["C04"]),
 ("mee ptrb", [(EO, "    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, h/r**2])", "    doe = np.dot(psi, u) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, h/r**2])")], ["C04"]),
 ("psi i", [(SY, "r*sym.cos(ta+om)/h,", "r*sym.cos(ta-om)/h,")], ["C04"]),
 ("psi mee", [(SY, "sqrt_pmu/w* ( f*(h*sinL - k*cosL)),", "sqrt_pmu/w* ( f*(h*sinL - k*sinL)),")], ["C04"]),
 ("psi swap", [(EO, "[psi_c0[4], psi_c1[4], psi_c2[4]],\n        [p*np", "[psi_c0[4], psi_c1[4], psi_c2[3]],\n        [p*np")], ["C04"]),
 ("psi a", [(SY, "2*a**2/ang_mom*e*sym.sin(ta), #", "2*a**2/ang_mom*e*sym.sin(l), #")], ["C04"]),
 ("Q penalty sign", [(SY, "p_rp = sym.exp(k_petro*(1.0 - rp/rpmin))", "p_rp = sym.exp(k_petro*(1.0 - p/rpmin))")], ["C06"]),
 ("Q scale", [(SY, "soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0", "soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*a))**n_petro)**(1/r_petro), 1.0, 1.0")], ["C06"]),
 ("Q raan unwrapped", [(SY, "sym.acos(sym.cos(ra - raT)),", "ra - raT,")], ["C06"]),
 ("Q hdot", [(SY, "s_squared/(sym.sqrt(1 - g**2) + f)", "s_squared/(sym.sqrt(1 - f**2) + f)")], ["C06"]),
 ("Q idot", [(SY, "e*sym.sqrt(cosom**2))),  # idot", "e*sym.sqrt(sinom**2))),  # idot")], ["C06"]),
 ("Q idot abs", [(SY, "e*sym.sqrt(cosom**2))),  # idot", "e*cosom)),  # idot")], ["C06"]),
 ("Q weights", [(SY, "woe[3]*soe[3]*(doe[3]/oedot[3])**2 +\n            woe[4]*soe[4]*(doe[4]/oedot[4])**2 \n        )\n\n        # -------- compute Gauss differential equation terms -------- #\n        cosL", "woe[4]*soe[3]*(doe[3]/oedot[3])**2 +\n            woe[3]*soe[4]*(doe[4]/oedot[4])**2 \n        )\n\n        # -------- compute Gauss differential equation terms -------- #\n        cosL")], ["C06"]),
 ("Q omdot", [(SY, "omdot_o = radot*sym.sqrt(cosi**2)", "omdot_o = radot*cosi")], ["C06"]),
 ("Q b", [(SY, "(omdot_i + b_petro*omdot_o)/(1+b_petro)", "(b_petro*omdot_i + omdot_o)/(1+b_petro)")], ["C06"]),
 ("Q 1/27", [(SY, "+ 1/27)", "+ 1/24)")], ["C06"]),
 ("Q power", [(SY, "(sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), \n", "(sym.sqrt((a-aT)**2)/(m_petro*aT))**r_petro)**(1/n_petro), \n")], ["C06"]),
 ("alpha atan", [(LY, "alpha = np.arctan2(-u[0],-u[1])", "alpha = np.arctan(u[0]/u[1])")], ["C07"]),
 ("alpha order", [(LY, "alpha = np.arctan2(-u[0],-u[1])", "alpha = np.arctan2(-u[1],-u[0])")], ["C07"]),
 ("beta sign", [(LY, "np.arctan2(-u[2], np.sqrt", "np.arctan2(u[2], np.sqrt")], ["C07"]),
 ("beta asin", [(LY, "np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))", "np.arcsin(-u_float[2]/np.sqrt(1 + u_float[2]**2))")], ["C07"]),
 ("dqdt f", [(LY, "@ np.array(psi).T @ (f * u)", "@ np.array(psi).T @ (f * u_float)")], ["C07"]),
 ("uy term", [(SY, "psi[1][3]*dqdoe3 + psi[1][4]*dqdoe4)\n        uz = (psi[2][0]*dqdoe0 + psi[2][1]*dqdoe1 + psi[2][2]*dqdoe2 + psi[2][3]*dqdoe3 + psi[2][4]*dqdoe4)\n        \n", "psi[1][3]*dqdoe3 + psi[1][4]*dqdoe3)\n        uz = (psi[2][0]*dqdoe0 + psi[2][1]*dqdoe1 + psi[2][2]*dqdoe2 + psi[2][3]*dqdoe3 + psi[2][4]*dqdoe4)\n        \n")], []),
 ("diff wrong", [(SY, "dqdoe3 = sym.diff(q, oe[3])   # RA", "dqdoe3 = sym.diff(q, oe[4])   # RA")], ["C07"]),
 ("dqdt eval", [(SY, "dqdoe2*(psi[0][2]*ux_unit + psi[1][2]*uy_unit + psi[2][2]*uz_unit) +\\\n            dqdoe3*(psi[0][3]*ux_unit + psi[1][3]*uy_unit + psi[2][3]*uz_unit) +\\\n            dqdoe4*(psi[0][4]*ux_unit + psi[1][4]*uy_unit + psi[2][4]*uz_unit))", "dqdoe2*(psi[0][2]*ux_unit + psi[1][2]*uy_unit + psi[2][2]*uz_unit) +\\\n            dqdoe3*(psi[0][3]*ux_unit + psi[1][3]*uy_unit + psi[2][3]*uz_unit) +\\\n            dqdoe4*(psi[0][4]*ux_unit + psi[1][3]*uy_unit + psi[2][4]*uz_unit))")], ["C07"]),
 ("arg order lambdify", [(SY, "rpmin, m_petro, n_petro, r_petro, b_petro, k_petro, wp, woe], \n            dqdt, ", "rpmin, n_petro, m_petro, r_petro, b_petro, k_petro, wp, woe], \n            dqdt, ")], ["C07"]),
 ("psi evaluator", [(SY, "            psi, \n            \"numpy\"", "            [psi[0], psi[2], psi[1]], \n            \"numpy\"")], ["C07"]),
 ("rk4 half", [(IN, "k3 = rhs(t + 0.5 * h, y + h * 0.5 * k2, p)", "k3 = rhs(t + 0.5 * h, y + h * 0.5 * k1, p)")], ["C09"]),
 ("rk4 time", [(IN, "k4 = rhs(t + h, y + h * k3, p)", "k4 = rhs(t + 0.5*h, y + h * k3, p)")], ["C09"]),
 ("rk4 inplace", [(IN, "    return y + (h / 6.0)*(k1 + 2*k2 + 2*k3 + k4)", "    y += (h / 6.0)*(k1 + 2*k2 + 2*k3 + k4)\n    return y")], ["C09", "C22"]),
 ("rkf z", [(IN, "28561/56430*k4", "28561/54630*k4")], ["C09"]),
 ("rkf sixth", [(IN, "- 3544/2565*k3", "- 3544/2665*k3")], ["C09"]),
 ("rkf power", [(IN, "(tol/err)**(1/4)", "(tol/err)**(1/5)")], ["C09"]),
 ("rkf abs", [(IN, "err = np.linalg.norm(z_next - y_next)", "err = np.abs(z_next - y_next).sum()")], ["C09"]),
 ("rkf unguarded", [(IN, "(tol/err)**(1/4) if err != 0.0 else h", "(tol/err)**(1/4)")], ["C31"]),
 ("rkf shrink at zero", [(IN, "if err != 0.0 else h", "if err != 0.0 else 0.5*h")], ["C09"]),
 ("omega no guard", [(EL, "if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:", "if np.abs(la.norm(ndir)) >= 1e-12:")], ["C31"]),
 ("omega guard zero", [(EL, "if np.abs(la.norm(ndir)*la.norm(ecc)) >= 1e-12:", "if np.abs(la.norm(ndir)*la.norm(ecc)) >= 0.0:")], ["C31"]),
 ("battin ratio", [(PE, "F = q*((3 + 3*q + q**2)/(1 + np.sqrt(1+q)**3))", "F = q*(np.sqrt(1+q)**3 - 1)/q")], ["C31"]),
 ("battery step min", [(QL, "                t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]\n", "                pass\n            if duty:\n                t_left = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]\n                if t_left < t_step_local:\n                    t_step_local = t_left\n")], ["C31"]),
 ("ta2ea half angle", [(EL, "np.tan(ta/2)", "np.sin(ta)/(1 + np.cos(ta))")], ["C31"]),
 ("inc via unit", [(EL, "    inc = np.arccos(max(-1.0, min(1.0, h[2] / la.norm(h))))", "    hxy = np.sqrt(h[0]**2 + h[1]**2)\n    inc = np.pi/2 - np.arctan(h[2]/hxy)")], ["C31"]),
 ("beta arctan ratio", [(LY, "np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))", "np.arctan(-u[2]/np.sqrt(u[0]**2 + u[1]**2))")], ["C31"]),
 ("rkf returns z", [(IN, "return y_next, h_next", "return z_next, h_next")], []),
 ("rkf time", [(IN, "rhs(t + 3/8 * h, ", "rhs(t + 3/4 * h, ")], ["C09"]),
 ("conv strict", [(CO, "check_array[idx] = doe[idx] <= tol_oe[idx]\n\n    if np.sum(check_array)==len(tol_oe):\n        return True\n    else:\n        return False\n\n\n@njit\ndef check_convergence_mee", "check_array[idx] = doe[idx] < tol_oe[idx]\n\n    if np.sum(check_array)==len(tol_oe):\n        return True\n    else:\n        return False\n\n\n@njit\ndef check_convergence_mee")], ["C12"]),
 ("conv zero weight", [(CO, "if woe[idx] == 0.0:", "if woe[idx] <= 0.1:")], ["C12"]),
 ("conv raan plain", [(CO, "np.arccos(np.cos(oeT[3] - oe[3]))", "oeT[3] - oe[3]")], ["C12"]),
 ("conv any", [(CO, "    if np.sum(check_array)==len(tol_oe):\n        return True\n    else:\n        return False\n\n\n@njit\ndef elements", "    if np.sum(check_array)>=len(tol_oe)-1:\n        return True\n    else:\n        return False\n\n\n@njit\ndef elements")], ["C12"]),
 ("conv signed", [(CO, "doe = np.abs(oeT[0:5] - oe[0:5])", "doe = oeT[0:5] - oe[0:5]")], ["C12"]),
 ("conv om ra", [(CO, "np.arccos(np.cos(oeT[4] - oe[4]))", "np.arccos(np.cos(oeT[4] - oe[3]))")], ["C12"]),
 ("safety range", [(CO, "for idx in range(5):\n        oe_clean", "for idx in range(4):\n        oe_clean")], ["C27"]),
 ("safety 6", [(CO, "for idx in range(5):\n        oe_clean", "for idx in range(6):\n        oe_clean")], ["C27"]),
 ("safety alias", [(CO, "oe_clean = oe.copy()", "oe_clean = oe")], ["C27", "C22"]),
 ("wrap no shift", [(TR, "(alpha + np.pi) % (2.0 * np.pi) - np.pi", "alpha % (2.0 * np.pi) - np.pi")], ["C27"]),
 ("wrap fmod", [(TR, "(alpha + np.pi) % (2.0 * np.pi) - np.pi", "np.fmod(alpha + np.pi, 2.0 * np.pi) - np.pi")], ["C27"]),
 # --- propagation loop
 ("sundman period", [(QL, "t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period", "t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) % 1.0 * period")], ["C11"]),
 ("sundman ecc", [(QL, "ecc_iter = np.sqrt(oe_iter[1]**2 + oe_iter[2]**2)", "ecc_iter = np.sqrt(oe_iter[1]**2 + oe_iter[1]**2)")], ["C11"]),
 ("sundman E1", [(QL, "M1 = E1 - ecc_iter*np.sin(E1)", "M1 = E1 - ecc_iter*np.sin(E0)")], ["C11"]),
 ("sundman mu", [(QL, "period = 2*np.pi*np.sqrt(oe_iter[0]**3/self.mu)\n                elif", "period = 2*np.pi*np.sqrt(oe_iter[0]**3)\n                elif")], ["C11"]),
 ("sundman mee2ea arctan", [(EL, "np.arctan2(mee[2],mee[1])", "np.arctan(mee[2]/mee[1])")], ["C11"]),
 ("fixed step abs", [(QL, "                t_step_local = self.t_step\n", "                t_step_local = abs(self.t_step)\n")], ["C11", "C14"]),
 ("sundman off ignored", [(QL, "            if self.use_sundman:", "            if self.use_sundman or self.integrator == 'rkf45':")], ["C11"]),
 ("sundman stale elements", [(QL, "E0 = mee2ea(oe_iter)", "E0 = mee2ea(self.states[0])")], ["C11"]),
 ("sundman wrap", [(QL, "                E1 = E0 + self.t_step\n", "                E1 = wrap(E0 + self.t_step)\n")], ["C11"]),
 ("sundman only first", [(QL, "            if self.use_sundman:", "            if self.use_sundman and idx < 1000:")], ["C11"]),
 ("t_iter wrong place", [(QL, "                t_iter += t_step_local  # update time\n                if throttle == 1:\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n\n            elif", "                if throttle == 1:\n                    t_iter += t_step_local  # update time\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                else:\n                    t_iter += self.t_step\n                oe_iter = oe_next\n\n            elif")], ["C14"]),
 ("mass after nan", [(QL, "                    throttle = 0  # turn off\n                    u = np.array([0.0,0.0,0.0])", "                    u = np.array([0.0,0.0,0.0])")], ["C19"]),
 ("mass uses t_step", [(QL, "                if throttle == 1:\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n\n            elif", "                if throttle == 1:\n                    mass_iter -= self.mdot*self.t_step  # update mass\n                oe_iter = oe_next\n\n            elif")], ["C15"]),
 ("mass duty", [(QL, "                if throttle == 1:\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n                h_next", "                if duty:\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n                h_next")], ["C15"]),
 ("accel mass0", [(QL, "np.sign(t_step_local) * self.tmax/mass_iter", "np.sign(t_step_local) * self.tmax/self.mass0")], ["C15"]),
 ("accel sign", [(QL, "np.sign(t_step_local) * self.tmax/mass_iter", "np.sign(self.tf_max) * self.tmax/mass_iter")], ["C15"]),
 ("etas only if enabled", [(QL, "            self.etas.append([val_eta_a, val_eta_r])", "            if duty:\n                self.etas.append([val_eta_a, val_eta_r])")], ["C14"]),
 ("Qs skipped at end", [(QL, "            self.Qs.append(q)\n            self.dQdts.append(qdot_current)\n            self.battery.append(battery_iter)", "            self.battery.append(battery_iter)"), (QL, "            # index update\n", "            self.Qs.append(q)\n            self.dQdts.append(qdot_current)\n")], ["C14"]),
 ("psi order", [(QL, "ode_params = (self.mu, u, psi[0], psi[1], psi[2], ptrb_RTN)", "ode_params = (self.mu, u, psi[0], psi[2], psi[1], ptrb_RTN)")], ["C14"]),
 ("ptrb not applied while coasting", [(QL, "            # ODE parameters\n", "            if throttle == 0:\n                ptrb_RTN = np.zeros(3,)\n")], ["C14"]),
 ("ptrb time", [(QL, "get_perturbations_RTN(t_iter, oe_iter, self.elements_type)", "get_perturbations_RTN(self.times[0], oe_iter, self.elements_type)")], ["C14"]),
 ("rk4 from x0", [(QL, "                oe_next = rk4(\n                    self.eom, \n                    t_iter,\n                    t_step_local,\n                    oe_iter,", "                oe_next = rk4(\n                    self.eom, \n                    t_iter,\n                    self.t_step,\n                    oe_iter,")], ["C14"]),
 ("record before step", [(QL, "            self.states.append(oe_iter)", "            self.states.append(self.states[-1])")], ["C14"]),
 ("rkf h_next used", [(QL, "                h_next = max(self.step_min, min(self.step_max,h_next))", "                self.t_step = max(self.step_min, min(self.step_max,h_next))")], ["C11", "C14"]),
 ("nan counter reset", [(QL, "                else:\n                    u = accel_thrust*np.array([", "                else:\n                    n_nan_angles = 0\n                    u = accel_thrust*np.array([")], ["C13"]),
 ("nan strict", [(QL, "if n_nan_angles > self.nan_angles_threshold:", "if n_nan_angles >= self.nan_angles_threshold:")], ["C13"]),
 ("relaxed strict", [(QL, "if n_relaxed_cleared >= self.exit_at_relaxed:", "if n_relaxed_cleared > self.exit_at_relaxed:")], ["C13"]),
 ("relaxed consecutive", [(QL, "            # print progress\n", "            else:\n                n_relaxed_cleared = 0\n            # print progress\n")], ["C13"]),
 ("mass before conv", [(QL, "            # check convergence\n", "            if mass_iter <= self.mass_min:\n                self.exitcode = -1\n                break\n            # check convergence\n")], ["C13"]),
 ("no reset", [(QL, "        self.converge = False\n        self.exitcode = 0\n\n        # initialize values", "        # initialize values")], ["C13", "C22"]),
 ("conv wrong weights", [(QL, "if self.check_convergence(oe_next, self.oeT, self.woe, self.tol_oe) == True:", "if self.check_convergence(oe_next, self.oeT, np.ones(5), self.tol_oe) == True:")], ["C13"]),
 ("tf signed", [(QL, "while abs(self.times[-1]) < abs(self.tf_max):", "while self.times[-1] < self.tf_max:")], ["C13"]),
 ("relaxed tol", [(QL, "self.tol_oe_relaxed = relaxed_tol_factor*self.tol_oe", "self.tol_oe_relaxed = max(relaxed_tol_factor, 10)*self.tol_oe")], ["C13"]),
 # --- battery, duty cycle
 ("bat clip missing", [(QL, "                battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local,\n                                       self.battery_capacity[0], self.battery_capacity[1])", "                battery_iter = min(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local,\n                                       self.battery_capacity[0]+self.battery_capacity[1])")], ["C16"]),
 ("bat rates swapped", [(QL, "battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local", "battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[1]*t_step_local")], ["C16"]),
 ("bat t_step", [(QL, "battery_iter = np.clip(battery_iter-self.battery_charge_discharge_rate[1]*t_step_local", "battery_iter = np.clip(battery_iter-self.battery_charge_discharge_rate[1]*self.t_step")], ["C16"]),
 ("bat throttle", [(QL, "            # update battery\n            if duty:", "            # update battery\n            if duty and throttle == 1:")], ["C16"]),
 ("bat truncation always", [(QL, "(duty is True) and ((charging is False) or (self.require_full_recharge is False)):", "((charging is False) or (self.require_full_recharge is False)):")], ["C16"]),
 ("bat truncation dropped when charging", [(QL, "(duty is True) and ((charging is False) or (self.require_full_recharge is False)):", "(duty is True) and (charging is False):")], ["C16"]),
 ("bat no charging flag", [(QL, "                t_last_OFF = t_iter         # latest time when we turn off\n                charging = True", "                t_last_OFF = t_iter         # latest time when we turn off")], ["C16"]),
 ("bat no toff", [(QL, "                t_last_OFF = t_iter         # latest time when we turn off\n                charging = True", "                charging = True")], ["C16"]),
 ("bat recharge any", [(QL, "                (battery_iter < self.battery_capacity[1]):", "                (battery_iter < 0.5*self.battery_capacity[1]):")], ["C16"]),
 ("bat charging reset", [(QL, "                if battery_iter == self.battery_capacity[1]:\n                    charging = False", "                if battery_iter > self.battery_capacity[0]:\n                    charging = False")], ["C16"]),
 ("bat full ignored", [(QL, "if (self.require_full_recharge is True) and (charging is True) and", "if (self.require_full_recharge is True) and (charging is False) and")], ["C16"]),
 ("bat elif to if", [(QL, "            elif (battery_iter - self.battery_charge_discharge_rate[1]*t_step_local < self.battery_capacity[0]) and", "            if (battery_iter - self.battery_charge_discharge_rate[1]*self.t_step < self.battery_capacity[0]*1.01) and")], ["C16"]),
 ("duty abs missing", [(QL, "if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):", "if ((t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):")], ["C17"]),
 ("duty off abs missing", [(QL, "if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):", "if ((t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):")], ["C17"]),
 ("duty ge", [(QL, "if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):", "if (abs(t_iter - t_last_ON) >= self.duty_cycle[0]) and (duty is True):")], ["C17"]),
 ("duty last off from on", [(QL, "                t_last_OFF = t_iter     # latest time when we turn off\n            \n", "                t_last_OFF = t_last_ON + self.duty_cycle[0]\n            \n")], ["C17"]),
 ("duty on not reset", [(QL, "                t_last_ON = t_iter      # latest time when we turn on\n", "")], ["C17"]),
 ("duty off time both", [(QL, "if (abs(t_iter - t_last_OFF) > self.duty_cycle[1])", "if (abs(t_iter - t_last_OFF) > self.duty_cycle[0])")], ["C17"]),
 ("duty starts off", [(QL, "        duty = True\n        t_last_ON", "        duty = self.duty_cycle[1] == 0.0\n        t_last_ON")], ["C17"]),
 ("duty ignored for throttle", [(QL, "                u = np.zeros((3,))\n                throttle = 0  # turn off\n                # evaluate", "                u = np.zeros((3,))\n                # evaluate")], ["C17", "C29"]),
 # --- effectivity
 ("eff or->and", [(QL, "if val_eta_a < eta_a_current or val_eta_r < eta_r_current:", "if val_eta_a < eta_a_current and val_eta_r < eta_r_current:")], ["C18"]),
 ("eff activation and", [(QL, "if eta_r_current > 0 or eta_a_current > 0:", "if eta_r_current > 0 and eta_a_current > 0:")], ["C18"]),
 ("eff activation given", [(QL, "if eta_r_current > 0 or eta_a_current > 0:", "if eta_r_current > 0:")], ["C18"]),
 ("eff le", [(QL, "if val_eta_a < eta_a_current or val_eta_r < eta_r_current:", "if val_eta_a <= eta_a_current or val_eta_r < eta_r_current:")], ["C18"]),
 ("eff swapped extremes", [(QL, "return max(qdot_list, key=abs), min(qdot_list, key=abs)", "return min(qdot_list, key=abs), max(qdot_list, key=abs)")], ["C18"]),
 ("eff no abs key", [(QL, "return max(qdot_list, key=abs), min(qdot_list, key=abs)", "return max(qdot_list), min(qdot_list)")], ["C18"]),
 ("eff half rev", [(QL, "np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "np.linspace(oe[5], oe[5]+np.pi, self.anomaly_grid_size+1)[1:]")], ["C18"]),
 ("eff from zero", [(QL, "np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "np.linspace(0.0, 2*np.pi, self.anomaly_grid_size+1)[1:]")], ["C18"]),
 ("eff skip last", [(QL, "np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:-1]")], ["C18"]),
 ("eff relative formula", [(QL, "np.abs((qdot_current - qdot_max)/(qdot_min - qdot_max))", "np.abs((qdot_current - qdot_min)/(qdot_min - qdot_max))")], ["C18"]),
 ("eff callable args", [(QL, "eta_r_current = eta_r(t_iter, oe_iter, mass_iter, battery_iter)", "eta_r_current = eta_r(t_iter, oe_iter, battery_iter, mass_iter)")], ["C18"]),
 ("eff callable raw state", [(QL, "eta_a_current = eta_a(t_iter, oe_iter, mass_iter, battery_iter)", "eta_a_current = eta_a(t_iter, self.states[-1], mass_iter, battery_iter)")], ["C18"]),
 ("eff stored swapped", [(QL, "self.etas_bounds.append([eta_a_current, eta_r_current])", "self.etas_bounds.append([eta_r_current, eta_a_current])")], ["C18"]),
 ("eff callable cached", [(QL, "                    if isinstance(eta_r, float):        # `eta_r` is a float\n                        eta_r_current = eta_r\n", "                    if isinstance(eta_r, float) or callable(eta_a):\n                        eta_r_current = eta_r if isinstance(eta_r, float) else eta_r(0.0, oe_iter, mass_iter, battery_iter)\n")], ["C18"]),
 ("eff accel unsigned", [(QL, "                            oe_iter, accel_thrust\n", "                            oe_iter, self.tmax/mass_iter\n")], ["C18", "C08"]),
 ("eff mass0", [(QL, "                            oe_iter, accel_thrust\n", "                            oe_iter, accel_thrust*mass_iter/self.mass0\n")], ["C18", "C08"]),
 # --- applied control
 ("u transposed", [(QL, "                        np.cos(beta)*np.sin(alpha),\n                        np.cos(beta)*np.cos(alpha),", "                        np.cos(beta)*np.cos(alpha),\n                        np.cos(beta)*np.sin(alpha),")], ["C19"]),
 ("u kept when coasting", [(QL, "                            throttle = 0  # turn off\n                            u = np.zeros((3,))", "                            throttle = 0  # turn off")], ["C19"]),
 ("angles swapped in record", [(QL, "self.controls.append([alpha, beta, throttle])", "self.controls.append([beta, alpha, throttle])")], ["C19"]),
 ("accel half", [(QL, "u = accel_thrust*np.array([", "u = abs(accel_thrust)*np.array([")], ["C19"]),
 ("stale q while disabled", [(QL, "_, _, _, psi, q, qdot_current = lyapunov_control_angles(", "_, _, _, psi, _q, _qdot = lyapunov_control_angles("), (QL, "        charging = False\n        alpha", "        charging = False\n        q, qdot_current = 0.0, 0.0\n        alpha")], ["C19"]),
 ("q of next state", [(QL, "            self.Qs.append(q)", "            self.Qs.append(self.lyap_fun(self.mu, accel_thrust, oe_iter, self.oeT, self.rpmin, self.m_petro, self.n_petro, self.r_petro, self.b_petro, self.k_petro, self.wp, self.woe)[2])")], ["C19"]),
 ("law accel tmax", [(QL, "                    f=accel_thrust, \n                    oe=oe_iter, \n                    oeT=self.oeT, \n                    rpmin=self.rpmin, \n                    m_petro=self.m_petro, \n                    n_petro=self.n_petro, \n                    r_petro=self.r_petro, \n                    b_petro=self.b_petro, \n                    k_petro=self.k_petro, \n                    wp=self.wp, \n                    woe=self.woe,\n                )\n\n", "                    f=self.tmax, \n                    oe=oe_iter, \n                    oeT=self.oeT, \n                    rpmin=self.rpmin, \n                    m_petro=self.m_petro, \n                    n_petro=self.n_petro, \n                    r_petro=self.r_petro, \n                    b_petro=self.b_petro, \n                    k_petro=self.k_petro, \n                    wp=self.wp, \n                    woe=self.woe,\n                )\n\n")], ["C08"]),
 ("m n swapped in effectivity", [(QL, "self.rpmin, self.m_petro, self.n_petro, \n                    self.r_petro", "self.rpmin, self.n_petro, self.m_petro, \n                    self.r_petro")], ["C08"]),
 ("r b swapped in ctor", [(QL, "        self.r_petro = r_petro\n        self.b_petro = b_petro", "        self.r_petro = b_petro\n        self.b_petro = r_petro")], ["C08"]),
 ("lyap order", [(LY, "        f, \n        oe, \n        oeT, \n        rpmin, m_petro, n_petro, \n        r_petro, b_petro, k_petro, \n        wp, \n        woe\n    )", "        f, \n        oe, \n        oeT, \n        rpmin, m_petro, n_petro, \n        r_petro, k_petro, b_petro, \n        wp, \n        woe\n    )")], ["C08"]),
 ("woe default", [(QL, "self.woe = np.array([1.0,1.0,1.0,1.0,1.0])", "self.woe = np.array([1.0,1.0,1.0,1.0,0.0])")], ["C08"]),
 ("woe normalised", [(QL, "            self.woe = np.array(woe)", "            self.woe = np.array(woe)/max(woe)")], ["C08"]),
 ("oeT6", [(QL, "self.oeT = oeT[0:5]", "self.oeT = oeT[1:6]")], ["C08"]),
 ("tol default when given", [(QL, "            self.tol_oe = np.array(tol_oe)", "            self.tol_oe = np.maximum(np.array(tol_oe), 1e-6)")], ["C08"]),
 ("oe_max used as min", [(QL, "elements_safety(oe_iter, self.oe_min, self.oe_max)", "elements_safety(oe_iter, self.oe_max, self.oe_min)")], ["C08"]),
 ("p tb sign", [(PT, "(r + F*s)", "(r - F*s)")], ["C20"]),
 ("p tb q", [(PT, "q*((3 + 3*q + q**2)", "q*((3 + 2*q + q**2)")], ["C20"]),
 ("p tb sqrt", [(PT, "np.sqrt(1+q)**3", "np.sqrt(1+q)**2")], ["C20"]),
 ("p tb d", [(PT, "-mu_third/dnorm**3", "-mu_third/dnorm**2")], ["C20"]),
 ("p j2 sign", [(PT, "coeff = -3*mu", "coeff = 3*mu")], ["C20"]),
 ("p j2 z", [(PT, "(3 - 5*(rPA[2]/r)**2)", "(1 - 5*(rPA[2]/r)**2)")], ["C20"]),
 ("p j2 rot", [(PT, "return T_ECI2PA.T @ a_J2_PA", "return T_ECI2PA @ a_J2_PA")], ["C20"]),
 ("p srp pow", [(PT, "np.linalg.norm(r_sun2sc)**3", "np.linalg.norm(r_sun2sc)**2")], ["C20"]),
 ("p rtn cross", [(PT, "et = np.cross(en, er)", "et = np.cross(er, en)")], ["C20"]),
 ("p rtn norm", [(PT, "en = h / np.linalg.norm(h)", "en = h / np.linalg.norm(rECI)")], ["C20"]),
 ("p rtn vel", [(PT, "et = np.cross(en, er)", "et = vECI / np.linalg.norm(vECI)")], ["C20"]),
 ("pa et", [(PT, "et = self.et_ref + t * self.TU", "et = self.et_ref + t")], ["C21"]),
 ("pa unit gm", [(PT, "MU_REF = LU * VU**2", "MU_REF = LU**2 * VU**2")], ["C21"]),
 ("pa unit srp", [(PT, "(1e3 * LU/TU**2)", "(LU/TU**2)")], ["C21"]),
 ("pa unit pos", [(PT, "rv_ECI[0:3], pos3_km/self.LU, mu3", "rv_ECI[0:3], pos3_km, mu3")], ["C21"]),
 ("pa j2 et", [(PT, "spice.pxform(self.frame_qlaw, self.frame_PA, et)", "spice.pxform(self.frame_qlaw, self.frame_PA, self.et_ref)")], ["C21"]),
 ("pa frames", [(PT, "spice.pxform(self.frame_qlaw, self.frame_PA, et)", "spice.pxform(self.frame_PA, self.frame_qlaw, et)")], ["C21"]),
 ("pa obs", [(PT, 'spice.spkpos("10", et, self.frame_qlaw, "NONE", self.obs_id)', 'spice.spkpos("10", et, self.frame_qlaw, "NONE", "399")')], ["C21"]),
 ("pa frame", [(PT, "spice.spkpos(ID, et, self.frame_qlaw", "spice.spkpos(ID, et, 'J2000'")], ["C21"]),
 ("pa srp dir", [(PT, "rv_ECI[0:3] - pos_sun_km/self.LU", "pos_sun_km/self.LU - rv_ECI[0:3]")], ["C21"]),
 ("pa rtn", [(PT, "T_ECI2RTN @ acc_ptrb_ECI", "T_ECI2RTN.T @ acc_ptrb_ECI")], ["C21"]),
 ("pa J2 flag", [(PT, "        if self.use_SRP:\n", "        if self.use_J2:\n")], ["C21"]),
 ("pa Re", [(PT, "self.Re = Re_km / LU", "self.Re = 6378.0 / LU")], ["C21"]),
 ("pa gms", [(PT, "if (third_bodies_gms is None) and (third_bodies_names is not None):", "if third_bodies_names is not None:")], ["C21"]),
 ("pa zip", [(PT, "self.third_bodies_gms or [], self.third_bodies_names or []", "self.third_bodies_gms, self.third_bodies_names")], ["C21"]),
 ("pa shared acc", [(PT, "        acc_ptrb_ECI = np.zeros(3,)\n", "        acc_ptrb_ECI = self.acc\n"), (PT, "        self.use_SRP = use_SRP\n", "        self.use_SRP = use_SRP\n        self.acc = np.zeros(3,)\n")], ["C21"]),
 ("pa step time", [(QL, "get_perturbations_RTN(t_iter, oe_iter, self.elements_type)", "get_perturbations_RTN(t_iter + t_step_local, oe_iter, self.elements_type)")], ["C21"]),
 ("pa last only", [(PT, "            acc_ptrb_ECI += perturbation_third_body_battin(", "            acc_ptrb_ECI = perturbation_third_body_battin(")], ["C21"]),
 ("pa cached et", [(PT, "        et = self.et_ref + t * self.TU     # time to query spice ephemeris\n", "        if not hasattr(self, '_et'):\n            self._et = self.et_ref + t * self.TU\n        et = self._et\n")], ["C21"]),
 ("h anomaly wrapped in place", [(QL, "            # if using Sundman transformation, choose new time-step\n", "            oe_iter[5] = oe_iter[5] % (2*np.pi)\n            # if using Sundman transformation, choose new time-step\n")], ["C22"]),
 ("h buffer reused", [(QL, "            self.states.append(oe_iter)\n", "            buf[:] = oe_iter\n            self.states.append(buf)\n"), (QL, "        # iterate until nmax\n", "        buf = np.zeros(6)\n")], ["C22"]),
 ("h after append", [(QL, "            self.battery.append(battery_iter)\n", "            self.battery.append(battery_iter)\n            oe_next[5] = wrap(oe_next[5])\n")], ["C22"]),
 ("h input wrapped", [(QL, "        self.oe0   = oe0\n", "        oe0[5] = wrap(oe0[5])\n        self.oe0   = oe0\n")], ["C22"]),
 ("h woe normalised", [(QL, "            self.woe = np.array(woe)\n", "            self.woe = np.asarray(woe)\n            self.woe /= np.sum(self.woe)\n")], ["C22"]),
 ("h battery kept", [(QL, "        # check if exitcode hasn't been assigned yet\n", "        self.battery_initial = battery_iter\n")], ["C22"]),
 ("h mass0 kept", [(QL, "                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n\n            elif", "                    mass_iter -= self.mdot*t_step_local  # update mass\n                    self.mass0 = mass_iter\n                oe_iter = oe_next\n\n            elif")], ["C22"]),
 ("h step kept", [(QL, "# proposal only, step taken is t_step_local\n", "\n                self.t_step = h_next\n")], ["C22"]),
 ("h outcome kept", [(QL, "        self.converge = False\n        self.exitcode = 0\n\n        # initialize values", "        # initialize values")], ["C22"]),
 ("h nan count kept", [(QL, "        n_nan_angles = 0\n", "        n_nan_angles = getattr(self, '_n_nan', 0)\n"), (QL, "        # check if exitcode hasn't been assigned yet\n", "        self._n_nan = n_nan_angles\n")], ["C22"]),
 ("h list kept", [(QL, "        self.battery = [self.battery_initial,]\n", "        self.battery = getattr(self, 'battery', []) + [self.battery_initial,]\n")], ["C22"]),
 ("h clip in place", [(CO, "def elements_safety(oe, oe_min, oe_max):", "def elements_safety(oe, oe_min, oe_max):\n    oe[0] = max(oe[0], oe_min[0])")], ["C22"]),
 ("h recorded replaced", [(QL, "            # index update\n", "            self.masses[-2] = mass_iter\n")], ["C22"]),
 ("v mu abs", [(QL, "assert mu > 0, \"mu must be positive\"", "assert abs(mu) > 0, \"mu must be positive\"")], ["C23"]),
 ("v mu zero", [(QL, "assert mu > 0, \"mu must be positive\"", "assert mu >= 0, \"mu must be positive\"")], ["C23"]),
 ("v mu bypass", [(QL, "        # dynamics\n        self.mu = mu\n", "        # dynamics\n        self._mu = mu\n")], ["C23"]),
 ("v integ prefix", [(QL, "assert integrator in [\"rk4\", \"rkf45\"]", "assert integrator[:2] == \"rk\"")], ["C23"]),
 ("v elem lower", [(QL, "assert elements_type in [\"keplerian\", \"mee_with_a\"]", "assert elements_type.lower() in [\"keplerian\", \"mee_with_a\"]")], ["C23"]),
 ("v elem extra", [(QL, "assert elements_type in [\"keplerian\", \"mee_with_a\"]", "assert elements_type in [\"keplerian\", \"mee_with_a\", \"mee\"]")], ["C23"]),
 ("v relax", [(QL, "assert relaxed_tol_factor >= 1,", "assert relaxed_tol_factor > 0,")], ["C23"]),
 ("v relax valid", [(QL, "assert relaxed_tol_factor >= 1,", "assert relaxed_tol_factor > 1,")], ["C23"]),
 ("v tol len", [(QL, "assert len(tol_oe)==5,", "assert len(tol_oe)>=5,")], ["C23"]),
 ("v woe len", [(QL, "            assert len(woe)==5, \"woe must have 5 components\"\n", "")], ["C23"]),
 ("v woe len6", [(QL, "assert len(woe)==5,", "assert len(woe) in (5, 6),")], ["C23"]),
 ("v oe0 len", [(QL, "assert len(oe0)==6,", "assert len(oe0)>=5,")], ["C23"]),
 ("v mass", [(QL, "assert mass_min >= 1e-2,", "assert mass_min >= 1e-3,")], ["C23"]),
 ("v mass valid", [(QL, "assert mass_min >= 1e-2,", "assert mass_min > 1e-2,")], ["C23"]),
 ("v eta_r any", [(QL, "if not (isinstance(eta_r, float) or callable(eta_r)):", "if not (isinstance(eta_r, float) or callable(eta_a)):")], ["C23"]),
 ("v eta_a first", [(QL, "        else:\n            raise ValueError(\"Invalid type for `eta_a`. Expected float or callable function.\")\n        if not (isinstance(eta_r", "        elif eta_a is None:\n            raise ValueError(\"Invalid type for `eta_a`. Expected float or callable function.\")\n        if not (isinstance(eta_r")], ["C23"]),
 ("v ready early", [(QL, "        assert mass_min >= 1e-2, \"mass should be above 0.01 to avoid numerical difficulties\"\n", ""), (QL, "        self.require_full_recharge = require_full_recharge\n        return\n", "        self.require_full_recharge = require_full_recharge\n        assert mass_min >= 1e-2, \"mass should be above 0.01 to avoid numerical difficulties\"\n        return\n")], ["C23"]),
 ("v store first", [(QL, "        assert mu > 0, \"mu must be positive\"\n        self._mu = mu\n", "        self._mu = mu\n        assert mu > 0, \"mu must be positive\"\n")], ["C23"]),
 ("v int store", [(QL, "        self._integrator = integrator\n        return ", "        self._integrator = \"rk4\"\n        return ")], ["C23"]),
 ("x kep as mee", [(QL, "to_mee = kep2mee if self.elements_type == \"keplerian\" else mee_with_a2mee", "to_mee = mee_with_a2mee")], ["C24"]),
 ("x swapped conv", [(QL, "to_mee = kep2mee if self.elements_type == \"keplerian\" else mee_with_a2mee", "to_mee = kep2mee if self.elements_type != \"mee\" else mee_with_a2mee")], ["C24"]),
 ("x with a", [(QL, "to_mee = kep2mee if self.elements_type == \"keplerian\" else mee_with_a2mee", "to_mee = kep2mee if self.elements_type == \"keplerian\" else (lambda oe: list(oe))")], ["C24"]),
 ("x no pad copy", [(QL, "_controls = copy.deepcopy(self.controls)", "_controls = self.controls")], ["C24", "C26"]),
 ("x pad front", [(QL, "_controls.append([0,0,0])", "_controls.insert(0, [0,0,0])")], ["C24"]),
 ("x repeat last", [(QL, "_controls.append([0,0,0])   # final", "_controls.append(_controls[-1])   # final")], ["C24"]),
 ("x swap rt", [(QL, "np.stack((uR,uT,uN,taus)).T", "np.stack((uT,uR,uN,taus)).T")], ["C24"]),
 ("x uN", [(QL, "            uN = np.sin(betas)", "            uN = np.sin(betas)*taus")], ["C24"]),
 ("x inverse flag", [(QL, "        if save_control_angles:\n            initial", "        if not save_control_angles:\n            initial")], ["C24"]),
 ("x no encoder", [(QL, "json.dump(initial_guess, f, cls=NumpyEncoder, indent=4)", "json.dump(initial_guess, f, indent=4)")], ["C24"]),
 ("x masses first", [(QL, "list(to_mee(oe))+[m] for", "[m]+list(to_mee(oe)) for")], ["C24"]),
 ("x tf", [(QL, "\"tf\": self.times[-1],", "\"tf\": self.tf_max,")], ["C24"]),
 ("x write early", [(QL, "        if save_control_angles:\n            initial_guess[\"controls\"] = _controls\n        else:", "        if save_control_angles:\n            initial_guess[\"controls\"] = _controls\n            return initial_guess\n        else:")], ["C24"]),
 ("x encoder list", [(QL, "            return obj.tolist()", "            return obj.flatten().tolist()")], ["C24"]),
 ("x append mode", [(QL, "with open(filepath, 'w') as f:", "with open(filepath, 'a') as f:")], ["C24"]),
 ("x mass0", [(QL, "for (oe,m) in zip(self.states, self.masses)]", "for (oe,m) in zip(self.states, [self.mass0]*len(self.states))]")], ["C24"]),
 ("i swap ei", [(QL, "f_e = interp1d(self.times, state_matrix[1,:], kind=kind)", "f_e = interp1d(self.times, state_matrix[2,:], kind=kind)")], ["C25"]),
 ("i order", [(QL, "        return (f_a, f_e, f_i, f_r, f_o, f_t)", "        return (f_a, f_e, f_i, f_o, f_r, f_t)")], ["C25"]),
 ("i kind", [(QL, "f_t = interp1d(self.times, state_matrix[5,:], kind=kind)", "f_t = interp1d(self.times, state_matrix[5,:])")], ["C25"]),
 ("i kind pass", [(QL, "f_a, f_e, f_i, f_r, f_o, f_t = self.interpolate_states(kind=kind)", "f_a, f_e, f_i, f_r, f_o, f_t = self.interpolate_states()")], ["C25"]),
 ("i last col", [(QL, "            for idx in range(len(self.times)):\n                if self.elements_type==\"keplerian\":\n                    cart", "            for idx in range(len(self.times)-1):\n                if self.elements_type==\"keplerian\":\n                    cart")], ["C25"]),
 ("i controls len", [(QL, "            for idx in range(len(self.times)):\n                if self.elements_type==\"keplerian\":\n                    cart", "            for idx in range(len(self.controls)):\n                if self.elements_type==\"keplerian\":\n                    cart")], ["C25"]),
 ("i mu", [(QL, "cart[:,idx] = mee_with_a2sv(np.array(self.states[idx]), self.mu)", "cart[:,idx] = mee_with_a2sv(np.array(self.states[idx]), 1.0)")], ["C25"]),
 ("i interp raan", [(QL, "mee_with_a2sv(np.array([f_a(t), f_e(t), f_i(t), f_r(t), f_o(t), f_t(t)])", "mee_with_a2sv(np.array([f_a(t), f_e(t), f_i(t), f_o(t), f_r(t), f_t(t)])")], ["C25"]),
 ("i interp kep conv", [(QL, "cart[:,idx] = kep2sv(np.array([f_a(t),", "cart[:,idx] = mee_with_a2sv(np.array([f_a(t),")], ["C25"]),
 ("i t range", [(QL, "t_evals = np.linspace(self.times[0], self.times[-1], steps)", "t_evals = np.linspace(self.times[0], self.tf_max, steps)")], ["C25"]),
 ("i endpoint", [(QL, "t_evals = np.linspace(self.times[0], self.times[-1], steps)", "t_evals = np.linspace(self.times[0], self.times[-1], steps, endpoint=False)")], ["C25"]),
 ("i backward steps", [(QL, "steps = min(8000, abs(int(round(self.times[-1]/0.01))))", "steps = min(8000, int(round(self.times[-1]/0.01)))")], ["C25"]),
 ("i first state", [(QL, "        for idx,state in enumerate(self.states):\n            state_matrix[:,idx] = state", "        for idx,state in enumerate(self.states[1:]):\n            state_matrix[:,idx+1] = state")], ["C25"]),
    ("r cache cart", [(QL, "        cart = np.zeros((6, len(t_evals)))" if False else "        if get_t_evals:\n            return cart, t_evals\n        else:\n            return cart\n", "        self._cart = getattr(self, '_cart', cart)\n        return (self._cart, t_evals) if get_t_evals else self._cart\n")], ["C26"]),
    ("r cache interp", [(QL, "        return (f_a, f_e, f_i, f_r, f_o, f_t)", "        if not hasattr(self, '_interp'):\n            self._interp = (f_a, f_e, f_i, f_r, f_o, f_t)\n        return self._interp")], ["C26"]),
    ("r pretty sets", [(QL, "        print(f\"Integrator    : {self.integrator}\")", "        self.exit_at_relaxed = int(self.exit_at_relaxed)\n        self.element_names = [str(n) for n in self.element_names][:5]\n        print(f\"Integrator    : {self.integrator}\")")], ["C26"]),
    ("r ta mod inplace", [(PM, "wrap(np.array(self.states)[:,5])", "wrap(np.asarray(self.states[-1])[5]*np.ones(len(self.times)))"), (PM, "    alphas, betas, throttles = [], [], []\n", "    alphas, betas, throttles = [], [], []\n    for state in self.states:\n        state[5] = state[5] % (2*np.pi)\n")], ["C26"]),
    ("r oeT concat", [(PM, "            oe_T = mee_with_a2kep(np.concatenate((self.oeT,[0.0])))[0:5]", "            self.oeT = np.concatenate((self.oeT[0:5],[0.0]))\n            oe_T = mee_with_a2kep(self.oeT)[0:5]")], ["C26"]),
    ("r times TU", [(PM, "    fig, ax = plt.subplots(1,1,figsize=figsize)\n    ax.step(np.array(self.times[0:-1])*TU, np.array(self.Qs)", "    fig, ax = plt.subplots(1,1,figsize=figsize)\n    for i in range(len(self.times)):\n        self.times[i] *= TU\n    TU = 1\n    ax.step(np.array(self.times[0:-1])*TU, np.array(self.Qs)")], ["C26"]),
    ("r states append mass", [(QL, "\"states\": [list(to_mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],", "\"states\": self._rows(to_mee),"), (QL, "    def save_to_dict(", "    def _rows(self, to_mee):\n        rows = self.states\n        for k, m in enumerate(self.masses):\n            rows[k] = list(to_mee(rows[k]))+[m]\n        return rows\n\n    def save_to_dict(")], ["C26"]),
    ("r cart reverse", [(PM, "    # plot transfer\n    ax.plot(cart[0,:], cart[1,:], label=\"transfer\", c=\"crimson\", lw=0.4)", "    self.times.sort()\n    ax.plot(cart[0,:], cart[1,:], label=\"transfer\", c=\"crimson\", lw=0.4)")], ["C26"]),
    ("r qdot tol", [(QL, "        oe_safe = elements_safety" if False else "        etas = ", "        etas = ")], ["C26"]) if False else ("r battery inplace", [(PM, "    ax.axhline(np.array(self.battery_capacity[0])*BU", "    self.battery_capacity = (self.battery_capacity[0]*BU, self.battery_capacity[1]*BU)\n    BU = 1.0\n    ax.axhline(np.array(self.battery_capacity[0])*BU")], ["C26"]),
    ("r convert in place", [(EL, "    fac = 1-ecc" if False else "def mee_with_a2mee", "def mee_with_a2mee")], ["C26"]) if False else ("r kep2sv in place", [(QL, "                    cart[:,idx] = kep2sv(np.array(self.states[idx]), self.mu)", "                    s = self.states[idx]\n                    s[5] = wrap(s[5])\n                    cart[:,idx] = kep2sv(np.array(s), self.mu)"), (QL, "from ._plot_methods import", "from ._transformations import wrap\nfrom ._plot_methods import")], ["C26"]),
    ("v drop export", [(IN.replace("_integrate","__init__"), "    ta2ea,\n    mee2ea,\n", "    ta2ea,\n")], ["C30"]),
    ("v alias export", [(IN.replace("_integrate","__init__"), "    ta2ea,\n    mee2ea,\n", "    ta2ea,\n    ta2ea as mee2ea,\n")], ["C30"]),
    ("v elements times", [(PM, "        ax.plot(np.array(self.times)*TU, oes[idx,:]*multipliers[idx], label=labels[idx])", "        ax.plot(np.array(self.times), oes[idx,:]*multipliers[idx], label=labels[idx])")], ["C30"]),
    ("v conversion factor", [(PM, "            multipliers = [1,1,180/np.pi,180/np.pi,180/np.pi,180/np.pi]", "            multipliers = [1,1,180/np.pi,180/np.pi,np.pi/180,180/np.pi]")], ["C30"]),
    ("v target raw", [(PM, "            oe_T = mee_with_a2kep(np.concatenate((self.oeT,[0.0])))[0:5]", "            oe_T = self.oeT")], ["C30"]),
    ("v band narrow", [(PM, "(oe_T[idx]+self.tol_oe[idx])*multipliers[idx], ", "(oe_T[idx]+self.tol_oe[0])*multipliers[idx], ")], ["C30"]),
    ("v peri mee", [(PM, "eccs = np.sqrt(oes[1,:]**2 + oes[2,:]**2)", "eccs = np.sqrt(oes[1,:]**2 + oes[3,:]**2)")], ["C30"]),
    ("v peri apo", [(PM, "oes[0,:]*(1 - eccs)", "oes[0,:]*(1 + eccs)")], ["C30"]),
    ("v ta no wrap", [(PM, "(oes[5,:] % (2*np.pi))*180/np.pi, label=labels[5]", "(oes[5,:] % np.pi)*180/np.pi, label=labels[5]")], ["C30"]),
    ("v mass flag", [(PM, "    if plot_mass:\n", "    if not plot_mass:\n")], ["C30"]),
    ("v battery limits", [(PM, "ax.axhline(np.array(self.battery_capacity[1])*BU", "ax.axhline(np.array(self.battery_capacity[1])")], ["C30"]),
    ("v swap limits", [(PM, "linestyle='--', label=\"min capacity\"", "linestyle='--', label=\"max  capacity\"".replace("  ", " ")), (PM, "color='g', linestyle='--', label=\"max capacity\"", "color='g', linestyle='--', label=\"min capacity\"")], ["C30"]),
    ("v alpha beta", [(PM, "        alphas.append(control[0])\n        betas.append(control[1])", "        alphas.append(control[1])\n        betas.append(control[0])")], ["C30"]),
    ("v throttle", [(PM, "np.array(throttles)*100", "np.array(throttles)*180/np.pi")], ["C30"]),
    ("v last control", [(PM, "    for control in self.controls:\n", "    for control in self.controls[1:] + self.controls[-1:]:\n")], ["C30"]),
    ("v traj target", [(PM, "        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(np.concatenate((self.oeT[0:5],[0.0]))), self.mu)", "        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(self.states[-1]), self.mu)")], ["C30"]),
    ("v traj mu", [(PM, "        coord_orb0 = get_orbit_coordinates(mee_with_a2kep(self.oe0), self.mu)\n        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(np.concatenate((self.oeT, [0.0]))), \n", "        coord_orb0 = get_orbit_coordinates(self.oe0, self.mu)\n        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(np.concatenate((self.oeT, [0.0]))), \n")], ["C30"]),
    ("v traj plane", [(PM, "    ax.plot(cart[0,:], cart[1,:], label=\"transfer\", c=\"crimson\", lw=0.4)", "    ax.plot(cart[0,:], cart[2,:], label=\"transfer\", c=\"crimson\", lw=0.4)")], ["C30"]),
    ("v traj interp arg", [(PM, "    cart = self.get_cartesian_history(interpolate, steps)\n\n    fig = plt.figure(figsize=figsize)", "    cart = self.get_cartesian_history(True, steps)\n\n    fig = plt.figure(figsize=figsize)")], ["C30"]),
    ("v traj markers", [(PM, "    ax.scatter(cart[0,-1], cart[1,-1], cart[2,-1],", "    ax.scatter(cart[0,-1], cart[1,-1], cart[2,0],")], ["C30"]),
    ("v eta cols", [(PM, "np.array(self.etas_bounds)[:,1], label=\"eta_r_min\"", "np.array(self.etas_bounds)[:,0], label=\"eta_r_min\"")], ["C30"]),
    ("v q twice", [(PM, "np.array(self.dQdts), label", "np.gradient(np.array(self.Qs)), label")], ["C30"]),
    ("v q abs", [(PM, "np.array(self.Qs), label=\"Q\"", "np.array(self.Qs)/self.Qs[0], label=\"Q\"")], ["C30"]),
    ("v orbit half", [(EL, "tas = np.linspace(0.0, 2*np.pi, steps)", "tas = np.linspace(0.0, 2*np.pi, steps, endpoint=False)")], ["C30"]),
    ("v sphere", [(PH, "y_sphere = center[1] + radius*np.sin(u)*np.sin(v)", "y_sphere = center[0] + radius*np.sin(u)*np.sin(v)")], ["C30"]),
    ("v sphere flat", [(PH, "z_sphere = center[2] + radius*np.cos(v)", "z_sphere = center[2] + np.cos(v)")], ["C30"]),
    ("v ellipsoid", [(PH, "z_el = center[2] +rz * np.outer(np.ones_like(u), np.cos(v))", "z_el = center[2] +rx * np.outer(np.ones_like(u), np.cos(v))")], ["C30"]),
    ("v equal axis", [(PH, "ax.set_ylim(mid_y - max_range*scale, mid_y + max_range*scale)", "ax.set_ylim(mid_x - max_range*scale, mid_y + max_range*scale)")], ["C30"]),
    ("v lims", [(PM, "zlims = [min(cart[2,:]), max(cart[2,:])]", "zlims = [min(cart[1,:]), max(cart[1,:])]")], ["C30"]),
    ("v radius", [(PM, "plot_sphere_wireframe(ax, sphere_radius)", "plot_sphere_wireframe(ax, sphere_radius*scale)")], ["C30"]),
    ("u header", [(QL, "        if self.verbosity >= 2:\n            self.disable_tqdm = True\n            header", "        if self.verbosity > 2:\n            self.disable_tqdm = True\n            header")], ["C29"]),
    ("u alpha init", [(QL, "        alpha, beta = 0.0, 0.0\n\n        # iterate", "\n        # iterate")], ["C29"]),
    ("u eta init", [(QL, "            eta_a_current, eta_r_current = np.nan, np.nan\n            if duty:\n", "            if duty:\n                eta_a_current, eta_r_current = np.nan, np.nan\n")], ["C29"]),
    ("u ecc mee", [(QL, "                    ecc_iter = np.sqrt(oe_iter[1]**2 + oe_iter[2]**2)\n                    E0 = mee2ea(oe_iter)\n", "                    E0 = mee2ea(oe_iter)\n")], ["C29"]),
    ("u hold control", [(QL, "                u = np.zeros((3,))\n                throttle = 0  # turn off\n                # evaluate", "                u = np.zeros((3,))\n                throttle = 0  # turn off\n                alpha, beta = self.controls[-1][0], self.controls[-1][1]\n                # evaluate")], ["C29"]),
    ("u step back", [(QL, "            # check if mass is below threshold\n", "            if self.states[-2][0] == self.states[-3][0]:\n                break\n            # check if mass is below threshold\n")], ["C29"]),
    ("u psi off", [(QL, "                _, _, _, psi, q, qdot_current = lyapunov_control_angles(\n                    fun_lyapunov_control=self.lyap_fun,\n                    mu=self.mu, \n                    f=accel_thrust, \n                    oe=oe_iter, \n                    oeT=self.oeT, \n                    rpmin", "                _, _, _, psi, q, qdot_current = lyapunov_control_angles(\n                    fun_lyapunov_control=self.lyap_fun,\n                    mu=self.mu, \n                    accel=accel_thrust, \n                    oe=oe_iter, \n                    oeT=self.oeT, \n                    rpmin")], ["C29"]),
    ("u u off", [(QL, "            else:\n                u = np.zeros((3,))\n                throttle = 0  # turn off\n", "            else:\n                throttle = 0  # turn off\n")], ["C29"]),
    ("u charging", [(QL, "        charging = False\n        alpha", "        alpha")], ["C29"]),
    ("u hnext", [(IN, "    return x1, h_next", "    return x1")] , ["C29"]) if False else ("u rkf args", [(QL, "                    ode_params,\n                    self.ode_tol,\n                )", "                    ode_params,\n                    self.ode_tol,\n                    self.step_min,\n                )")], ["C29"]),
    ("u ptrb sig", [(PT, "def get_perturbations_RTN(self, t", "def get_perturbations_RTN(self, mu, t")], ["C29"]),
    ("u tol none", [(QL, "        self.tol_oe_relaxed = relaxed_tol_factor*self.tol_oe  # relaxed", "        self.tol_oe_relaxed = relaxed_tol_factor*np.array(tol_oe)  # relaxed")], ["C29"]),
    ("u report attr", [(PM, "    ax.grid(True, alpha=0.3)\n    ax.set(yscale=\"log\")", "    ax.grid(self.show_grid, alpha=0.3)\n    ax.set(yscale=\"log\")")], ["C29"]),
    ("u kep plot", [(PM, "        coord_orb0 = get_orbit_coordinates(self.oe0, self.mu)\n        coord_orbT = get_orbit_coordinates(np.concatenate((self.oeT,[0.0])), self.mu)\n    elif self.elements_type == \"mee_with_a\":\n        coord_orb0 = get_orbit_coordinates(mee_with_a2kep(self.oe0), self.mu)\n        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(np.concatenate((self.oeT[0:5],[0.0]))), self.mu)\n", "        coord_orb0 = get_orbit_coordinates(self.oe0, self.mu)\n    elif self.elements_type == \"mee_with_a\":\n        coord_orb0 = get_orbit_coordinates(mee_with_a2kep(self.oe0), self.mu)\n        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(np.concatenate((self.oeT[0:5],[0.0]))), self.mu)\n")], ["C29"]),
    ("u name typo", [(EL, "    sma, ecc, inc, raan, aop, _ = oe_kep\n    tas", "    sma, ecc, inc, raan, aop, _ = oe_kep\n    if sma <= 0:\n        raise ValueError(smaa)\n    tas")], ["C29"]),
    ("u self attr", [(QL, "                        self.exitcode = -3\n", "                        self.exitcode = -3\n                        self.logger.warning('nan')\n")], ["C29"]),
    ("u lyap args", [(LY, "        wp, \n        woe\n    )", "        wp\n    )")], ["C29"]),
    ("u print idx", [(QL, "        # iterate until nmax\n        idx = 0\n", "        # iterate until nmax\n"), (QL, "            # index update\n            idx += 1\n", "            idx = len(self.times)\n")], ["C29"]),
    ("u battery var", [(QL, "                if battery_iter == self.battery_capacity[1]:\n                    charging = False", "                    full = True\n                if battery_iter == self.battery_capacity[1]:\n                    charging = not full".replace("                    full = True\n", "                if self.require_full_recharge:\n                    full = True\n"))], ["C29"]),
    ("u min step", [(QL, "                h_next = max(self.step_min, min(self.step_max,h_next))", "                h_next = max(self.step_min, min(self.h_max,h_next))")], ["C29"]),
    ("u final msg", [(QL, "                print(\"Could not arrive to target elements within time\")", "                print(f\"Could not arrive to target elements within time, {oe_next}\")")], ["C29"]),
    ("verb header", [("_qlaw.py", "        if self.verbosity >= 2:\n            self.disable_tqdm = True", "        if self.verbosity == 2:\n            self.disable_tqdm = True")], ["C29"]),
    ("verb no mass", [("_qlaw.py", "            self.masses.append(mass_iter)\n", "            if self.verbosity < 3:\n                self.masses.append(mass_iter)\n            else:\n                self.masses.append(mass_iter*1.0 + 1e-9)\n")], ["C15"]),
    ("dt f32 cart", [("_qlaw.py", "            cart = np.zeros((6,len(self.times)))\n", "            cart = np.zeros((6,len(self.times)), dtype=np.float32)\n")], ["C25"]),
    ("dt int matrix", [("_qlaw.py", "        state_matrix = np.zeros((6,len(self.states)))\n", "        state_matrix = np.zeros_like([[0]*len(self.states)]*6)\n")], ["C25"]),
    ("dt f32 states", [("_qlaw.py", "            self.states.append(oe_iter)\n", "            self.states.append(np.asarray(oe_iter, dtype=\"float32\"))\n")], ["C14"]),
    ("dt f32 accel", [("_perturbations.py", "        acc_ptrb_ECI = np.zeros(3,)\n", "        acc_ptrb_ECI = np.zeros(3, dtype=np.float32)\n")], ["C21"]),
    ("dt int tol", [("_qlaw.py", "            self.tol_oe = np.array(tol_oe)\n", "            self.tol_oe = np.array(tol_oe).astype(int)\n")], ["C08"]),
    ("round epoch", [("_perturbations.py", "et = self.et_ref + t * self.TU ", "et = round(self.et_ref + t * self.TU, 1) ")], ["C21"]),
    ("cached obs", [("_perturbations.py", "    def get_perturbations_RTN(self, t, oe, elements_type):\n", "    @functools.lru_cache(maxsize=None)\n    def _k_srp_au(self):\n        return self.k_srp\n\n    def get_perturbations_RTN(self, t, oe, elements_type):\n"), ("_perturbations.py", "from numba import njit\n", "import functools\nfrom numba import njit\n"), ("_perturbations.py", "\"km\")/self.LU, self.k_srp)", "\"km\")/self.LU, self._k_srp_au())")], []),
    ("cached period", [("_qlaw.py", "    def solve(self, eta_a=0.0, eta_r=0.0):", "    @functools.lru_cache(maxsize=None)\n    def _tmax(self):\n        return self.tmax\n\n    def solve(self, eta_a=0.0, eta_r=0.0):"), ("_qlaw.py", "import copy\n", "import copy\nimport functools\n")], []),
    ("verb rounding", [("_qlaw.py", '                    print("\\n" + header)\n', '                    print("\\n" + header)\n                    oe_iter = np.round(oe_iter, 6)\n')], ["C14"]),
    ("verb relaxed", [("_qlaw.py", "                n_relaxed_cleared += 1\n", "                n_relaxed_cleared += 1 if self.verbosity < 4 else 2\n")], ["C13"]),
    ("verb mass stop", [("_qlaw.py", '                    print("Breaking as mass is now under mass_min")\n                self.exitcode = -1\n                break', '                    print("Breaking as mass is now under mass_min")\n                    self.exitcode = -1\n                    break')], ["C13"]),
    ("refused weights kept", [("_qlaw.py", "            assert len(woe)==5, \"woe must have 5 components\"\n            self.woe = np.array(woe)", "            self.woe = np.array(woe)\n            assert len(self.woe)==5, \"woe must have 5 components\"")], ["C23"]),
]
SAME = [
 ("ta2ea atan2", [(EL, "ea = 2*np.arctan(np.sqrt((1-ecc)/(1+ecc))*np.tan(ta/2))", "ea = np.arctan2(np.sqrt(1-ecc**2)*np.sin(ta), ecc + np.cos(ta))")], ["C01"]),
 ("ta2ea 2atan2", [(EL, "ea = 2*np.arctan(np.sqrt((1-ecc)/(1+ecc))*np.tan(ta/2))", "half = ta/2\n    ea = 2*np.arctan2(np.sqrt(1-ecc)*np.sin(half), np.sqrt(1+ecc)*np.cos(half))")], ["C01"]),
 ("mee2kep hyp", [(EL, "e = np.sqrt(f**2 + g**2)\n    i = np.arctan2(2*np.sqrt(h**2+k**2), 1-h**2-k**2)", "e = np.hypot(f, g)\n    i = 2*np.arctan(np.sqrt(h**2+k**2))")], ["C01"]),
 ("mee2kep om2", [(EL, "om = np.arctan2(g*h-f*k, f*h+g*k)", "om = np.arctan2(g, f) - raan")], ["C01"]),
 ("kep2mee lp", [(EL, "    f = e*np.cos(raan+om)\n    g = e*np.sin(raan+om)", "    lon = om + raan\n    f = e*(np.cos(raan)*np.cos(om) - np.sin(raan)*np.sin(om))\n    g = e*np.sin(lon)")], ["C01"]),
 ("kep2sv always rotate", [(EL, "if (aop != 0.0):", "if True:")], ["C02"]),
 ("kep2sv p", [(EL, "    h = np.sqrt(sma*mu*(1 - ecc**2))\n    rPF = h**2 / (mu*(1 + ecc*np.cos(ta))) *", "    h = np.sqrt(sma*mu*(1 - ecc**2))\n    p = sma*(1 - ecc**2)\n    rPF = p / (1 + ecc*np.cos(ta)) *")], ["C02"]),
 ("omega atan2", [(EL, "        omega = np.arccos(max(-1.0, min(1.0, np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)))))\n        if ecc[2] < 0:\n            omega = 2*np.pi - omega\n", "        omega = np.arctan2(np.dot(np.cross(ndir, ecc), h)/la.norm(h), np.dot(ndir, ecc))\n")], ["C02"]),
 ("sma visviva", [(EL, "    a = h**2 / (mu*(1 - e**2))", "    a = 1/(2/la.norm(r) - np.dot(v,v)/mu)")], ["C02"]),
 ("inc clip", [(EL, "inc = np.arccos(max(-1.0, min(1.0, h[2] / la.norm(h))))", "c = h[2]/la.norm(h)\n    if c > 1.0:\n        c = 1.0\n    elif c < -1.0:\n        c = -1.0\n    inc = np.arccos(c)")], ["C02","C03"]),
 ("outline loop", [(EL, "    for idx in range(steps):\n        coord[:,idx] = kep2sv(np.array([sma, ecc, inc, raan, aop, tas[idx]]), mu)", "    for idx, ta in enumerate(tas):\n        coord[:,idx] = kep2sv(np.array([sma, ecc, inc, raan, aop, ta]), mu)")], ["C02"]),
 ("ecc visviva", [(EL, "    ecc = (1/mu) * np.cross(v,h) - r/la.norm(r)\n    return ecc", "    rn = la.norm(r)\n    return ((np.dot(v,v) - mu/rn)*r - np.dot(r,v)*v)/mu")], ["C02"]),
 ("inc atan2", [(EL, "inc = np.arccos(max(-1.0, min(1.0, h[2] / la.norm(h))))", "inc = np.arctan2(np.sqrt(h[0]**2 + h[1]**2), h[2])")], ["C02","C03"]),
 ("conv wrap", [(CO, "np.arccos(np.cos(oeT[3] - oe[3])),", "np.arccos(np.cos(oe[3] - oeT[3])),")], ["C03","C12"]),
 ("omega clip", [(EL, "np.arccos(max(-1.0, min(1.0, np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)))))", "np.arccos(np.clip(np.dot(ndir,ecc) / (la.norm(ndir)*la.norm(ecc)), -1.0, 1.0))")], ["C02","C03"]),
 ("safe acos helper", [(EL, "@njit\ndef get_inclination", "@njit\ndef _safe_acos(c):\n    return np.arccos(min(max(c, -1.0), 1.0))\n\n\n@njit\ndef get_inclination"), (EL, "np.arccos(max(-1.0, min(1.0, h[2] / la.norm(h))))", "_safe_acos(h[2] / la.norm(h))")], ["C02","C03"]),
 ("eom matmul", [(EO, "    doe = np.dot(psi, u + ptrb_RTN) + np.array([0.0, 0.0, 0.0, 0.0, 0.0, h/r**2])", "    acc = u + ptrb_RTN\n    doe = psi @ acc\n    doe[5] += h/r**2")], ["C04"]),
 ("eom rates", [(EO, "np.sqrt(mu*p)*(w/p)**2])\n    return doe\n\n\n@njit\ndef eom_mee_with", "np.sqrt(mu/p**3)*w*w])\n    return doe\n\n\n@njit\ndef eom_mee_with")], ["C04"]),
 ("psi direct", [(SY, "2*a**2/ang_mom*e*sym.sin(ta), #", "2*a**2/ang_mom*(f*sym.sin(l) - g*sym.cos(l)), #")], ["C04"]),
 ("Q loop", [(SY, "        q = (1 + wp*p_rp) * (\n            woe[0]*soe[0]*(doe[0]/oedot[0])**2 +\n            woe[1]*soe[1]*(doe[1]/oedot[1])**2 + \n            woe[2]*soe[2]*(doe[2]/oedot[2])**2 +\n            woe[3]*soe[3]*(doe[3]/oedot[3])**2 +\n            woe[4]*soe[4]*(doe[4]/oedot[4])**2 \n        )", "        total = 0\n        for idx in range(5):\n            total += woe[idx]*soe[idx]*(doe[idx]/oedot[idx])**2\n        q = (1 + wp*p_rp) * total")], ["C06", "C07"]),
 ("Q abs", [(SY, "soe = [(1 + (sym.sqrt((a-aT)**2)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0", "soe = [(1 + (sym.Abs(a-aT)/(m_petro*aT))**n_petro)**(1/r_petro), 1.0, 1.0")], ["C06", "C07"]),
 ("Q atan2", [(SY, "sym.acos(sym.cos(ra - raT)),", "sym.atan2(sym.sin(ra - raT), sym.cos(ra - raT)),")], ["C06", "C07"]),
 ("Q rat", [(SY, "+ 1/27)", "+ sym.Rational(1,27))")], ["C06"]),
 ("Q rates fac", [(SY, "adot_xx = 2*accel*a*sym.sqrt(a/mu) * sym.sqrt((1 + sym.sqrt(f**2 + g**2)) / (1 - sym.sqrt(f**2 + g**2)))", "adot_xx = 2*accel*sym.sqrt(a**3*(1 + e)/(mu*(1 - e)))")], ["C06"]),
 ("angles helper", [(LY, "    alpha = np.arctan2(-u[0],-u[1])\n    beta = np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))", "    alpha = np.arctan2(-u_float[0],-u_float[1])\n    beta = np.arctan2(-u_float[2], np.hypot(u_float[0], u_float[1]))")], ["C07"]),
 ("beta as asin", [(LY, "np.arctan2(-u[2], np.sqrt(u[0]**2 + u[1]**2))", "np.arcsin(max(-1.0, min(1.0, -u[2])))")], []),
 ("norm", [(LY, "u_float_norm = np.sqrt( u_float[0]**2 + u_float[1]**2 + u_float[2]**2 )", "u_float_norm = np.linalg.norm(u_float)")], ["C07"]),
 ("dqdt dot", [(LY, "dqdt = np.array(dqdoe) @ np.array(psi).T @ (f * u)", "dqdt = f * np.dot(np.dot(np.array(psi), np.array(dqdoe)), u)")], ["C07"]),
 ("sym diff loop", [(SY, "dqdoe0 = sym.diff(q, oe[0])   # a\n        dqdoe1 = sym.diff(q, oe[1])   # e\n        dqdoe2 = sym.diff(q, oe[2])   # i \n        dqdoe3 = sym.diff(q, oe[3])   # RA\n        dqdoe4 = sym.diff(q, oe[4])   # om  --- FIXME\n        dqdoe = [dqdoe0, dqdoe1, dqdoe2, dqdoe3, dqdoe4]", "dqdoe = [sym.diff(q, x) for x in oe[0:5]]\n        dqdoe0, dqdoe1, dqdoe2, dqdoe3, dqdoe4 = dqdoe")], ["C07"]),
 ("q.diff", [(SY, "dqdoe0 = sym.diff(q, oe[0])   # a\n        dqdoe1 = sym.diff(q, oe[1])   # f", "dqdoe0 = q.diff(oe[0])\n        dqdoe1 = q.diff(f)")], ["C07"]),
 ("ux sum", [(SY, "ux = (psi[0][0]*dqdoe0 + psi[0][1]*dqdoe1 + psi[0][2]*dqdoe2 + psi[0][3]*dqdoe3 + psi[0][4]*dqdoe4)\n        uy = (psi[1][0]*dqdoe0 + psi[1][1]*dqdoe1 + psi[1][2]*dqdoe2 + psi[1][3]*dqdoe3 + psi[1][4]*dqdoe4)\n        uz = (psi[2][0]*dqdoe0 + psi[2][1]*dqdoe1 + psi[2][2]*dqdoe2 + psi[2][3]*dqdoe3 + psi[2][4]*dqdoe4)\n        \n", "ux, uy, uz = [sum(c*d for c, d in zip(col, dqdoe)) for col in psi]\n")], ["C07", "C04"]),
 ("dqdt umag", [(SY, "        dqdt = accel * (\n            dqdoe0*(psi[0][0]*ux_unit + psi[1][0]*uy_unit + psi[2][0]*uz_unit) +\\\n            dqdoe1*(psi[0][1]*ux_unit + psi[1][1]*uy_unit + psi[2][1]*uz_unit) +\\\n            dqdoe2*(psi[0][2]*ux_unit + psi[1][2]*uy_unit + psi[2][2]*uz_unit) +\\\n            dqdoe3*(psi[0][3]*ux_unit + psi[1][3]*uy_unit + psi[2][3]*uz_unit) +\\\n            dqdoe4*(psi[0][4]*ux_unit + psi[1][4]*uy_unit + psi[2][4]*uz_unit))", "        dqdt = accel * umag")], ["C07"]),
 ("rk4 scaled", [(IN, "    return y + (h / 6.0)*(k1 + 2*k2 + 2*k3 + k4)", "    slope = (k1 + 2*(k2 + k3) + k4)/6\n    return y + slope*h")], ["C09"]),
 ("rkf err direct", [(IN, "    h_next = h*0.84*(tol/err)**(1/4) if err != 0.0 else h", "    err = k1/360 - 128/4275*k3 - 2197/75240*k4 + k5/50 + 2/55*k6\n    h_next = 0.84*h*np.sqrt(np.sqrt(tol/np.linalg.norm(err))) if np.linalg.norm(err) > 0.0 else h")], ["C09", "C31"]),
 ("rk4 38", [(IN, "    k2 = rhs(t + 0.5 * h, y + h * 0.5 * k1, p)\n    k3 = rhs(t + 0.5 * h, y + h * 0.5 * k2, p)\n    k4 = rhs(t + h, y + h * k3, p)\n    return y + (h / 6.0)*(k1 + 2*k2 + 2*k3 + k4)", "    k2 = rhs(t + h/3, y + h*k1/3, p)\n    k3 = rhs(t + 2*h/3, y + h*(k2 - k1/3), p)\n    k4 = rhs(t + h, y + h*(k1 - k2 + k3), p)\n    return y + (h / 8.0)*(k1 + 3*k2 + 3*k3 + k4)")], ["C09"]),
 ("conv early return", [(CO, "    check_array = np.zeros(len(tol_oe),)\n    doe = np.abs(oeT[0:5] - oe[0:5])\n    for idx in range(len(tol_oe)):\n        if woe[idx] == 0.0:\n            check_array[idx] = 1        # consider converged\n        else:\n            check_array[idx] = doe[idx] <= tol_oe[idx]\n\n    if np.sum(check_array)==len(tol_oe):\n        return True\n    else:\n        return False", "    for idx in range(len(tol_oe)):\n        if woe[idx] != 0.0 and np.abs(oe[idx] - oeT[idx]) > tol_oe[idx]:\n            return False\n    return True")], ["C12"]),
 ("conv wrapped atan2", [(CO, "np.arccos(np.cos(oeT[3] - oe[3]))", "np.arctan2(np.sin(oeT[3] - oe[3]), np.cos(oeT[3] - oe[3]))"),(CO, "np.arccos(np.cos(oeT[4] - oe[4]))", "np.arctan2(np.sin(oeT[4] - oe[4]), np.cos(oeT[4] - oe[4]))")], ["C12"]),
 ("conv all", [(CO, "    if np.sum(check_array)==len(tol_oe):\n        return True\n    else:\n        return False\n\n\n@njit\ndef elements", "    return bool(np.all(check_array == 1))\n\n\n@njit\ndef elements")], ["C12"]),
 ("safety clip", [(CO, "        oe_clean[idx] = min(max(oe_min[idx], oe[idx]), oe_max[idx])", "        if oe[idx] < oe_min[idx]:\n            oe_clean[idx] = oe_min[idx]\n        elif oe[idx] > oe_max[idx]:\n            oe_clean[idx] = oe_max[idx]")], ["C27"]),
 ("safety build", [(CO, "    oe_clean = oe.copy()\n    for idx in range(5):\n        oe_clean[idx] = min(max(oe_min[idx], oe[idx]), oe_max[idx])\n    return oe_clean", "    return np.append(np.clip(oe[0:5], oe_min[0:5], oe_max[0:5]), oe[5])")], ["C27"]),
 ("wrap floor", [(TR, "return (alpha + np.pi) % (2.0 * np.pi) - np.pi", "turns = np.floor((alpha + np.pi)/(2*np.pi))\n\treturn alpha - 2*np.pi*turns")], ["C27"]),
 ("wrap mod", [(TR, "(alpha + np.pi) % (2.0 * np.pi) - np.pi", "np.mod(alpha + np.pi, 2*np.pi) - np.pi")], ["C27"]),
 ("sundman mean anomaly", [(QL, "                t_step_local = (M1/(2*np.pi) - M0/(2*np.pi)) * period\n", "                t_step_local = (M1 - M0)*np.sqrt(oe_iter[0]**3/self.mu)\n")], ["C11", "C14", "C15", "C13"]),
 ("sundman atan2", [(EL, "def mee2ea(mee):", "def mee2ea(mee):\n    e = np.sqrt(mee[1]**2 + mee[2]**2)\n    nu = mee[5] - np.arctan2(mee[2], mee[1])\n    return np.arctan2(np.sqrt(1-e**2)*np.sin(nu), e + np.cos(nu))\n\ndef _mee2ea(mee):")], ["C11", "C01"]),
 ("sundman helper", [(QL, "            if self.use_sundman:\n", "            if self.use_sundman:\n                t_step_local = self._sundman_step(oe_iter)\n            elif False:\n"), (QL, "    def evaluate_osculating_qdot(", "    def _sundman_step(self, oe):\n        if self.elements_type == 'keplerian':\n            e, E = oe[1], ta2ea(oe[5], oe[1])\n        else:\n            e, E = np.sqrt(oe[1]**2 + oe[2]**2), mee2ea(oe)\n        n = np.sqrt(self.mu/oe[0]**3)\n        dM = self.t_step - e*(np.sin(E + self.t_step) - np.sin(E))\n        return dM/n\n\n    def evaluate_osculating_qdot(")], ["C11", "C14", "C15"]),
 ("for else loop", [(QL, "        while abs(self.times[-1]) < abs(self.tf_max):", "        while True:\n            if abs(t_iter) >= abs(self.tf_max):\n                break\n")], ["C11", "C13", "C14", "C15"]),
 ("mass product", [(QL, "                if throttle == 1:\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n\n            elif", "                mass_iter = mass_iter - throttle*self.mdot*t_step_local\n                oe_iter = oe_next\n\n            elif")], ["C13", "C14", "C15"]),
 ("throttle bool-free", [(QL, "                    if eta_r_current > 0 or eta_a_current > 0:", "                    if not (eta_r_current <= 0 and eta_a_current <= 0):")], ["C13", "C14", "C15"]),
 ("merged integrator tail", [(QL, "                t_iter += t_step_local  # update time\n                if throttle == 1:\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n\n            elif", "\n            elif"), (QL, "                t_iter += t_step_local  # update time\n                if throttle == 1:\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n                h_next", "                h_next"), (QL, "            # update battery\n", "            t_iter = t_iter + t_step_local\n            mass_iter = mass_iter - self.mdot*t_step_local if throttle else mass_iter\n            oe_iter = oe_next\n            # update battery\n")], ["C13", "C14", "C15"]),
 ("conv helper", [(QL, "if self.check_convergence(oe_next, self.oeT, self.woe, self.tol_oe) == True:", "if self.check_convergence(self.states[-1], self.oeT, self.woe, self.tol_oe):")], ["C13"]),
 ("early relaxed", [(QL, "                n_relaxed_cleared += 1\n                if n_relaxed_cleared >= self.exit_at_relaxed:", "                n_relaxed_cleared = n_relaxed_cleared + 1\n                if not n_relaxed_cleared < self.exit_at_relaxed:")], ["C13"]),
 ("countdown nan", [(QL, "        n_nan_angles = 0\n", "        n_nan_left = self.nan_angles_threshold\n"), (QL, "                    n_nan_angles += 1\n                    if n_nan_angles > self.nan_angles_threshold:", "                    n_nan_left -= 1\n                    if n_nan_left < 0:")], ["C13"]),
 ("exit code local", [(QL, "                self.exitcode = 1\n                self.converge = True\n                break", "                code = 1\n                self.exitcode = code\n                self.converge = code > 0\n                break")], ["C13"]),
 ("bat clip minmax", [(QL, "                battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local,\n                                       self.battery_capacity[0], self.battery_capacity[1])", "                lo, hi = self.battery_capacity\n                battery_iter = min(hi, max(lo, battery_iter+self.battery_charge_discharge_rate[0]*t_step_local))")], ["C13", "C14", "C16", "C17"]),
 ("bat one clip", [(QL, "            if duty:\n                battery_iter = np.clip(battery_iter-self.battery_charge_discharge_rate[1]*t_step_local,\n                                       self.battery_capacity[0], self.battery_capacity[1])\n            else:\n                battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local,\n                                       self.battery_capacity[0], self.battery_capacity[1])\n                if battery_iter == self.battery_capacity[1]:\n                    charging = False        # turn OFF charging mode", "            rate = -self.battery_charge_discharge_rate[1] if duty else self.battery_charge_discharge_rate[0]\n            battery_iter = np.clip(battery_iter + rate*t_step_local, self.battery_capacity[0], self.battery_capacity[1])\n            if not duty and battery_iter == self.battery_capacity[1]:\n                charging = False")], ["C13", "C14", "C15", "C16", "C17"]),
 ("duty negated", [(QL, "        duty = True\n        t_last_ON", "        disabled = False\n        t_last_ON"), (QL, "and (duty is True):\n                duty = False ", "and not disabled:\n                disabled = True "), (QL, "and (duty is False):\n                duty = True ", "and disabled:\n                disabled = False "), (QL, "                duty = False                # turn off\n                t_last", "                disabled = True                # turn off\n                t_last"), (QL, "                (duty is True) and ((ch", "                (not disabled) and ((ch"), (QL, "                duty = False                # turn off\n\n            # compute inst", "                disabled = True                # turn off\n\n            # compute inst"), (QL, "            if duty:\n                # evaluate Ly", "            if not disabled:\n                # evaluate Ly"), (QL, "            # update battery\n            if duty:", "            # update battery\n            if not disabled:")], ["C13", "C16", "C17", "C18", "C15"]),
 ("duty nested", [(QL, "            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):", "            on_time, off_time = self.duty_cycle\n            if duty and abs(t_iter - t_last_ON) > on_time:"), (QL, "            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):", "            if not duty and abs(t_last_OFF - t_iter) > off_time:")], ["C16", "C17", "C13"]),
 ("duty method", [(QL, "            if (abs(t_iter - t_last_ON) > self.duty_cycle[0]) and (duty is True):\n                duty = False            # turn off duty cycle\n                t_last_OFF = t_iter     # latest time when we turn off\n            \n            if (abs(t_iter - t_last_OFF) > self.duty_cycle[1]) and (duty is False):\n                duty = True             # turn on duty cycle\n                t_last_ON = t_iter      # latest time when we turn on\n", "            duty, t_last_ON, t_last_OFF = self._cycle(t_iter, duty, t_last_ON, t_last_OFF)\n"), (QL, "    def evaluate_osculating_qdot(", "    def _cycle(self, t, duty, on, off):\n        if duty and abs(t - on) > self.duty_cycle[0]:\n            duty, off = False, t\n        if not duty and abs(t - off) > self.duty_cycle[1]:\n            duty, on = True, t\n        return duty, on, off\n\n    def evaluate_osculating_qdot(")], ["C16", "C17", "C13"]),
 ("eff sorted", [(QL, "        return max(qdot_list, key=abs), min(qdot_list, key=abs)", "        ranked = sorted(qdot_list, key=abs)\n        return ranked[-1], ranked[0]")], ["C18", "C08"]),
 ("eff endpoint", [(QL, "np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size, endpoint=False)")], ["C18", "C08"]),
 ("eff comprehension", [(QL, "eval_pts = np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "eval_pts = [oe[5] + 2*np.pi*(i+1)/self.anomaly_grid_size for i in range(self.anomaly_grid_size)]")], ["C18", "C08"]),
 ("eff not above", [(QL, "if val_eta_a < eta_a_current or val_eta_r < eta_r_current:", "if not (val_eta_a >= eta_a_current and val_eta_r >= eta_r_current):")], ["C18", "C19", "C15"]),
 ("eff helper", [(QL, "                    if isinstance(eta_a, float):        # `eta_a` is a float\n                        eta_a_current = eta_a\n                    elif callable(eta_a):               # `eta_a` is a callable function\n                        eta_a_current = eta_a(t_iter, oe_iter, mass_iter, battery_iter)\n\n                    if isinstance(eta_r, float):        # `eta_r` is a float\n                        eta_r_current = eta_r\n                    elif callable(eta_r):               # `eta_r` is a callable function\n                        eta_r_current = eta_r(t_iter, oe_iter, mass_iter, battery_iter)\n", "                    eta_a_current, eta_r_current = [eta(t_iter, oe_iter, mass_iter, battery_iter) if callable(eta) else eta for eta in (eta_a, eta_r)]\n")], ["C18", "C19"]),
 ("u helper", [(QL, "                    u = accel_thrust*np.array([\n                        np.cos(beta)*np.sin(alpha),\n                        np.cos(beta)*np.cos(alpha),\n                        np.sin(beta),\n                    ])", "                    direction = np.array([np.sin(alpha), np.cos(alpha), np.tan(beta)])*np.cos(beta)\n                    u = direction*accel_thrust")], ["C19", "C14"]),
 ("law once", [(QL, "                _, _, _, psi, q, qdot_current = lyapunov_control_angles(", "                a_, b_, u_, psi, q, qdot_current = lyapunov_control_angles(")], ["C19", "C08"]),
 ("u from throttle", [(QL, "            # ODE parameters\n", "            u = throttle*u\n")], ["C19", "C14"]),
 ("p tb direct", [(PT, "    q = np.dot(r, r - 2*s)/np.dot(s,s)\n    F = q*((3 + 3*q + q**2)/(1 + np.sqrt(1+q)**3))\n    return -mu_third/dnorm**3 * (r + F*s)", "    return -mu_third*(d/dnorm**3 + s/np.linalg.norm(s)**3)")], ["C20", "C21"]),
 ("p j2 other", [(PT, "    coeff = -3*mu*J2*Re**2/(2*r**5)\n    rPA = T_ECI2PA @ rECI\n    a_J2_PA = coeff * np.array([\n        (1 - 5*(rPA[2]/r)**2) * rPA[0],\n        (1 - 5*(rPA[2]/r)**2) * rPA[1],\n        (3 - 5*(rPA[2]/r)**2) * rPA[2]\n    ])", "    rPA = np.dot(T_ECI2PA, rECI)\n    sin2 = rPA[2]**2/np.dot(rPA, rPA)\n    fac = np.array([1.0, 1.0, 3.0]) - 5*sin2\n    a_J2_PA = -1.5*J2*mu/r**2*(Re/r)**2*fac*rPA/r")], ["C20", "C21"]),
 ("p rtn stack", [(PT, "    ECI2RTN = np.zeros((3,3))\n    ECI2RTN[0,:] = er\n    ECI2RTN[1,:] = et\n    ECI2RTN[2,:] = en\n    return ECI2RTN", "    return np.vstack((er, et, en))")], ["C20", "C21"]),
 ("p rtn gs", [(PT, "    et = np.cross(en, er)\n", "    vt = vECI - np.dot(vECI, er)*er\n    et = vt/np.linalg.norm(vt)\n")], ["C20"]),
 ("pa loop index", [(PT, "        for mu3,ID in zip(self.third_bodies_gms or [], self.third_bodies_names or []):\n            pos3_km,_ = spice.spkpos(ID, et, self.frame_qlaw, \"NONE\", self.obs_id)\n            acc_ptrb_ECI += perturbation_third_body_battin(rv_ECI[0:3], pos3_km/self.LU, mu3)", "        names = self.third_bodies_names if self.third_bodies_names is not None else []\n        for k in range(len(names)):\n            pos = spice.spkezr(names[k], et, self.frame_qlaw, \"NONE\", self.obs_id)[0][:3]\n            acc_ptrb_ECI = acc_ptrb_ECI + perturbation_third_body_battin(rv_ECI[0:3], pos/self.LU, self.third_bodies_gms[k])")], ["C21"]),
 ("pa helper", [(PT, "            pos_sun_km,_ = spice.spkpos(\"10\", et, self.frame_qlaw, \"NONE\", self.obs_id)\n            r_sun2sc = rv_ECI[0:3] - pos_sun_km/self.LU\n", "            r_sun2sc = rv_ECI[0:3] - self._body(\"SUN\", et)\n"), (PT, "    def get_perturbations_RTN(", "    def _body(self, ID, et):\n        pos, lt = spice.spkpos(ID, et, self.frame_qlaw, \"NONE\", self.obs_id)\n        return np.asarray(pos)/self.LU\n\n    def get_perturbations_RTN(")], ["C21"]),
 ("pa rtn sum", [(PT, "        acc_ptrb_RTN = T_ECI2RTN @ acc_ptrb_ECI\n", "        acc_ptrb_RTN = np.array([np.dot(row, acc_ptrb_ECI) for row in T_ECI2RTN])\n")], ["C21"]),
 ("pa gm store", [(PT, "[spice.bodvrd(ID, \"GM\", 1)[1][0]/MU_REF for ID in third_bodies_names]", "[self._gm(ID) for ID in third_bodies_names]"), (PT, "    def get_perturbations_RTN(", "    def _gm(self, ID):\n        _, values = spice.bodvrd(ID, \"GM\", 1)\n        return values[0] * self.TU**2 / self.LU**3\n\n    def get_perturbations_RTN(")], ["C21"]),
 ("h copies", [(QL, "        oe_iter = self.oe0\n", "        oe_iter = np.array(self.oe0, dtype=float)\n"), (QL, "        self.states = [oe_iter,]\n", "        self.states = [oe_iter.copy(),]\n"), (QL, "            self.states.append(oe_iter)\n", "            self.states.append(oe_iter.copy())\n")], ["C22", "C14"]),
 ("h workspace", [(QL, "            self.states.append(oe_iter)\n", "            buf[:] = oe_iter\n            self.states.append(buf.copy())\n"), (QL, "        # iterate until nmax\n", "        buf = np.zeros(6)\n")], ["C22", "C14"]),
 ("h counter", [(QL, "        n_nan_angles = 0\n", "        n_nan_angles = 0\n        self.n_steps = 0\n"), (QL, "            # index update\n", "            self.n_steps += 1\n")], ["C22", "C13"]),
 ("h run counter", [(QL, "        # check if exitcode hasn't been assigned yet\n", "        self.n_runs = getattr(self, 'n_runs', 0) + 1\n")], ["C22"]),
 ("v raise", [(QL, "        assert mu > 0, \"mu must be positive\"\n        self._mu = mu\n", "        if not mu > 0:\n            raise ValueError(\"mu must be positive\")\n        self._mu = mu\n")], ["C23", "C29"]),
 ("v const", [(QL, "assert elements_type in [\"keplerian\", \"mee_with_a\"]", "assert elements_type in VALID_ELEMENTS"), (QL, "class NumpyEncoder", "VALID_ELEMENTS = (\"keplerian\", \"mee_with_a\")\n\n\nclass NumpyEncoder")], ["C23"]),
 ("v helper", [(QL, "            assert len(tol_oe)==5, \"tol_oe must have 5 components\"\n            self.tol_oe = np.array(tol_oe)", "            self.tol_oe = _vec5(tol_oe, \"tol_oe\")"), (QL, "            assert len(woe)==5, \"woe must have 5 components\"\n            self.woe = np.array(woe)", "            self.woe = _vec5(woe, \"woe\")"), (QL, "class NumpyEncoder", "def _vec5(x, name):\n    assert len(x) == 5, f\"{name} must have 5 components\"\n    return np.array(x)\n\n\nclass NumpyEncoder")], ["C23"]),
 ("v shape", [(QL, "            assert len(woe)==5, \"woe must have 5 components\"\n            self.woe = np.array(woe)", "            self.woe = np.array(woe)\n            assert self.woe.shape[0] == 5, \"woe must have 5 components\"")], ["C23"]),
 ("v dict", [(QL, "assert integrator in [\"rk4\", \"rkf45\"]", "assert integrator in {\"rk4\": 4, \"rkf45\": 5}")], ["C23"]),
 ("v eta loop", [(QL, """        if isinstance(eta_a, float):
            # `eta_a` is a float
            pass
        elif callable(eta_a):
            # `eta_a` is a callable function
            pass
        else:
            raise ValueError("Invalid type for `eta_a`. Expected float or callable function.")
        if not (isinstance(eta_r, float) or callable(eta_r)):
            raise ValueError("Invalid type for `eta_r`. Expected float or callable function.")
""", """        for name, eta in (("eta_a", eta_a), ("eta_r", eta_r)):
            if not (isinstance(eta, float) or callable(eta)):
                raise ValueError(f"Invalid type for `{name}`. Expected float or callable function.")
""")], ["C23", "C18"]),
 ("v not ready", [(QL, "assert self.ready == True, \"Please first call `set_problem()`\"", "if not self.ready:\n            raise RuntimeError(\"Please first call `set_problem()`\")")], ["C23"]),
 ("x dumps", [(QL, "                json.dump(initial_guess, f, cls=NumpyEncoder, indent=4)", "                f.write(json.dumps(initial_guess, cls=NumpyEncoder, indent=4))")], ["C24"]),
 ("x stack", [(QL, "np.stack((uR,uT,uN,taus)).T", "np.column_stack([uR, uT, uN, taus])")], ["C24"]),
 ("x loop", [(QL, "            \"states\": [list(to_mee(oe))+[m] for (oe,m) in zip(self.states, self.masses)],\n        }\n", "        }\n        rows = []\n        for idx in range(len(self.times)):\n            row = list(to_mee(self.states[idx]))\n            row.append(self.masses[idx])\n            rows.append(row)\n        initial_guess[\"states\"] = rows\n")], ["C24"]),
 ("x concat", [(QL, "        _controls = copy.deepcopy(self.controls)\n        _controls.append([0,0,0])   # final step to match time-steps\n        _controls = np.array(_controls)\n", "        _controls = np.vstack((np.array(self.controls), np.zeros((1,3))))\n")], ["C24", "C26"]),
 ("x unpack", [(QL, "            alphas    = _controls[:,0]\n            betas     = _controls[:,1]\n            taus      = _controls[:,2]\n", "            alphas, betas, taus = _controls.T\n")], ["C24"]),
 ("x loop dir", [(QL, "            initial_guess[\"controls\"] = np.stack((uR,uT,uN,taus)).T", "            initial_guess[\"controls\"] = np.array([[uR[i], uT[i], uN[i], taus[i]] for i in range(len(taus))])")], ["C24"]),
 ("x copy times", [(QL, "            \"times\": self.times,\n", "            \"times\": list(self.times),\n")], ["C24"]),
 ("x listctl", [(QL, "        if save_control_angles:\n            initial_guess[\"controls\"] = _controls\n", "        if save_control_angles:\n            initial_guess[\"controls\"] = _controls.tolist()\n")], ["C24"]),
 ("i vec", [(QL, "        state_matrix = np.zeros((6,len(self.states)))\n        for idx,state in enumerate(self.states):\n            state_matrix[:,idx] = state\n", "        state_matrix = np.array(self.states).T\n")], ["C25"]),
 ("i loop", [(QL, """        f_a = interp1d(self.times, state_matrix[0,:], kind=kind)
        f_e = interp1d(self.times, state_matrix[1,:], kind=kind)
        f_i = interp1d(self.times, state_matrix[2,:], kind=kind)
        f_r = interp1d(self.times, state_matrix[3,:], kind=kind)
        f_o = interp1d(self.times, state_matrix[4,:], kind=kind)
        f_t = interp1d(self.times, state_matrix[5,:], kind=kind)
        return (f_a, f_e, f_i, f_r, f_o, f_t)""", "        return tuple(interp1d(self.times, row, kind=kind) for row in state_matrix)")], ["C25"]),
 ("i conv once", [(QL, """            for idx, t in enumerate(t_evals):
                if self.elements_type=="keplerian":
                    cart[:,idx] = kep2sv(np.array([f_a(t), f_e(t), f_i(t), f_r(t), f_o(t), f_t(t)]), self.mu)
                elif self.elements_type=="mee_with_a":
                    cart[:,idx] = mee_with_a2sv(np.array([f_a(t), f_e(t), f_i(t), f_r(t), f_o(t), f_t(t)]), self.mu)
""", """            to_sv = kep2sv if self.elements_type == "keplerian" else mee_with_a2sv
            oes = np.array([f(t_evals) for f in (f_a, f_e, f_i, f_r, f_o, f_t)])
            for idx in range(steps):
                cart[:,idx] = to_sv(oes[:,idx], self.mu)
""")], ["C25"]),
 ("i states loop", [(QL, """            for idx in range(len(self.times)):
                if self.elements_type=="keplerian":
                    cart[:,idx] = kep2sv(np.array(self.states[idx]), self.mu)
                elif self.elements_type=="mee_with_a":
                    cart[:,idx] = mee_with_a2sv(np.array(self.states[idx]), self.mu)
""", """            for idx, oe in enumerate(self.states):
                cart[:,idx] = self._to_sv(np.array(oe))
"""), (QL, "    def interpolate_states(self", "    def _to_sv(self, oe):\n        if self.elements_type == \"keplerian\":\n            return kep2sv(oe, self.mu)\n        return mee_with_a2sv(oe, self.mu)\n\n\n    def interpolate_states(self")], ["C25"]),
 ("i via kep", [(QL, "cart[:,idx] = mee_with_a2sv(np.array(self.states[idx]), self.mu)", "cart[:,idx] = kep2sv(mee_with_a2kep(np.array(self.states[idx])), self.mu)")], ["C25"]),
 ("i returns", [(QL, "        if get_t_evals:\n            return cart, t_evals\n        else:\n            return cart\n", "        return (cart, t_evals) if get_t_evals else cart\n")], ["C25"]),
    ("r local names", [(QL, "        print(f\"Integrator    : {self.integrator}\")", "        lines = []\n        lines.append(f\"Integrator    : {self.integrator}\")\n        for l in lines:\n            print(l)")], ["C26"]),
    ("r copies", [(QL, "            \"times\": self.times,\n", "            \"times\": copy.copy(self.times),\n")], ["C26"]),
    ("r sorted copy", [(PM, "    # plot transfer\n    ax.plot(cart[0,:], cart[1,:], label=\"transfer\", c=\"crimson\", lw=0.4)", "    ts = list(self.times)\n    ts.sort()\n    cart = cart.copy()\n    ax.plot(cart[0,:], cart[1,:], label=\"transfer\", c=\"crimson\", lw=0.4)")], ["C26"]),
    ("r last figure", [(PM, "    ax.set(yscale=\"log\")\n", "    ax.set(yscale=\"log\")\n    self.last_figure = fig\n")], ["C26"]),
    ("v loop", [(PM, "    alphas, betas, throttles = [], [], []\n    for control in self.controls:\n        alphas.append(control[0])\n        betas.append(control[1])\n        throttles.append(control[2])\n", "    history = np.array(self.controls)\n    alphas, betas, throttles = history[:,0], history[:,1], history[:,2]\n")], ["C30", "C26"]),
    ("v deg", [(PM, "np.array(alphas)*180/np.pi", "np.rad2deg(alphas)"), (PM, "np.array(betas)*180/np.pi", "np.degrees(np.array(betas))")], ["C30", "C26"]),
    ("v times once", [(PM, "    fig, axs = plt.subplots(2,1,figsize=figsize)\n    axs[0].plot(np.array(self.times[0:-1])*TU,", "    t = [x*TU for x in self.times[:-1]]\n    fig, (ax0, ax1) = plt.subplots(2,1,figsize=figsize)\n    axs = [ax0, ax1]\n    axs[0].plot(t,")], ["C30", "C26"]),
    ("v order", [(PM, "    ax.plot(coord_orb0[0,:], coord_orb0[1,:], label=\"Initial\", c=\"darkblue\")\n    ax.plot(coord_orbT[0,:], coord_orbT[1,:], label=\"Final\", c=\"forestgreen\")\n", "    for c, l, col in ((coord_orb0, \"Initial\", \"darkblue\"), (coord_orbT, \"Final\", \"forestgreen\")):\n        ax.plot(*c[0:2,:], label=l, c=col)\n")], ["C30", "C26"]),
    ("v helper", [(PM, "def plot_trajectory_2d(", "def _orbit_kep(self, oe):\n    oe = np.concatenate((oe[0:5], [0.0]))\n    if self.elements_type == \"keplerian\":\n        return oe\n    return mee_with_a2kep(oe)\n\n\ndef plot_trajectory_2d("), (PM, "        coord_orbT = get_orbit_coordinates(\n            mee_with_a2kep(np.concatenate((self.oeT[0:5],[0.0]))), self.mu)\n", "        coord_orbT = get_orbit_coordinates(_orbit_kep(self, self.oeT), self.mu)\n")], ["C30", "C26"]),
    ("v list comp", [(PM, "    oes = np.zeros((6,len(self.times)))\n", "    ts = TU*np.array(self.times)\n    oes = np.zeros((6,len(ts)))\n"), (PM, "        ax.plot(np.array(self.times)*TU, oes[idx,:]*multipliers[idx], label=labels[idx])", "        ax.plot(ts, [m*multipliers[idx] for m in oes[idx]], label=labels[idx])")], ["C30", "C26"]),
    ("v hypot", [(PM, "eccs = np.sqrt(oes[1,:]**2 + oes[2,:]**2)", "eccs = np.hypot(oes[1,:], oes[2,:])")], ["C30", "C26"]),
    ("v sin order", [(PH, "    x_sphere = center[0] + radius*np.cos(u)*np.sin(v)\n", "    rho = radius*np.sin(v)\n    x_sphere = center[0] + rho*np.cos(u)\n")], ["C30"]),
    ("v lim loop", [(PM, "        xlims = [min(cart[0,:]), max(cart[0,:])]\n        ylims = [min(cart[1,:]), max(cart[1,:])]\n        zlims = [min(cart[2,:]), max(cart[2,:])]\n", "        xlims, ylims, zlims = [[np.min(c), np.max(c)] for c in cart[0:3,:]]\n")], ["C30", "C26"]),
    ("u guarded", [(QL, "            # check if mass is below threshold\n", "            if idx > 0 and self.verbosity > 3:\n                print(self.states[-2][0] - self.states[-3][0])\n            # check if mass is below threshold\n")], ["C29"]),
    ("u len guard", [(QL, "            # check if mass is below threshold\n", "            if len(self.controls) >= 2 and self.verbosity > 1:\n                print(self.controls[-2][0])\n            # check if mass is below threshold\n")], ["C29"]),
    ("u late init", [(QL, "        alpha, beta = 0.0, 0.0\n\n        # iterate", "\n        # iterate"), (QL, "                u = np.zeros((3,))\n                throttle = 0  # turn off\n                # evaluate", "                u = np.zeros((3,))\n                throttle = 0  # turn off\n                if idx == 0:\n                    alpha, beta = 0.0, 0.0\n                # evaluate")], ["C29"]),
    ("u header late", [(QL, "            header = \" iter ", "            self.header = header = \" iter ")], ["C29"]),
    ("u helper", [(QL, "    def solve(self, eta_a=0.0, eta_r=0.0):", "    def _report(self, text, level=1):\n        if self.verbosity >= level:\n            print(text)\n\n    def solve(self, eta_a=0.0, eta_r=0.0):"), (QL, "                if self.verbosity > 0:\n                    print(\"Breaking as mass is now under mass_min\")\n", "                self._report(\"Breaking as mass is now under mass_min\")\n")], ["C29"]),
]

BUGS += [
    ("pr woe", [(QL, "(weight: {self.woe[2]:2.2f})", "(weight: {self.woe[1]:2.2f})")], ["C32"]),
    ("pr target", [(QL, "{self.oe0[3]:1.4e} -> {self.oeT[3]:1.4e}", "{self.oe0[3]:1.4e} -> {self.oe0[3]:1.4e}")], ["C32"]),
    ("pr first state", [(QL, "{self.states[-1][1]:1.4e} (error", "{self.states[0][1]:1.4e} (error")], ["C32"]),
    ("pr error", [(QL, "(error: {abs(self.states[-1][4]-self.oeT[4]):1.4e})", "(error: {abs(self.states[-1][4]-self.oe0[4]):1.4e})")], ["C32"]),
    ("pr error sign", [(QL, "(error: {abs(self.states[-1][4]-self.oeT[4]):1.4e})", "(error: {self.states[-1][4]-self.oeT[4]:1.4e})")], ["C32"]),
    ("pr mass", [(QL, "Final mass    : {self.masses[-1]}", "Final mass    : {self.masses[0]-self.mdot*self.times[-1]}")], ["C32"]),
    ("pr tof", [(QL, "Transfer time : {self.times[-1]}", "Transfer time : {self.times[-2]}")], ["C32"]),
    ("pr tol", [(QL, "Relaxed tolerance : {self.tol_oe_relaxed}", "Relaxed tolerance : {self.tol_oe}")], ["C32"]),
    ("pr swap labels", [(QL, "print(f\"Exit code : {self.exitcode}\")", "print(f\"Converge  : {self.exitcode}\")"), (QL, "print(f\"Converge  : {self.converge}\")", "print(f\"Exit code : {self.converge}\")")], ["C32"]),
    ("pr progress target", [(QL, "{oe_next[1]-self.oeT[1]: 1.4e} |", "{oe_next[1]-self.oe0[1]: 1.4e} |")], ["C32"]),
    ("pr progress time", [(QL, "| {t_iter: 1.3e} |", "| {t_iter - self.t_step: 1.3e} |")], ["C32"]),
    ("pr quiet", [(QL, "            if self.verbosity > 0:\n                print(\"Could not arrive", "            if self.verbosity >= 0:\n                print(\"Could not arrive")], ["C32"]),
    ("pr always fail", [(QL, "        elif self.converge == True:\n            if self.verbosity > 0:\n", "        else:\n            if self.verbosity > 0:\n")], ["C32"]),
    ("pr verbose step", [(QL, "            # print progress\n", "            if self.verbosity >= 2:\n                oe_iter = np.array(list(oe_next[0:5]) + [np.mod(oe_next[5], 2*np.pi)])\n            # print progress\n")], ["C32"]),
    ("pr points", [(QL, "print(f\"Using {steps} steps for evaluation\")", "print(f\"Using {steps + 1} steps for evaluation\")")], ["C32"]),
    ("pr mass message", [(QL, "                if self.verbosity > 0:\n                    print(\"Breaking as mass is now under mass_min\")\n                self.exitcode = -1\n                break", "                if self.verbosity > 0:\n                    print(\"Breaking as mass is now under mass_min\")\n                    self.exitcode = -1\n                break")], ["C32", "C13"]),
]
SAME += [
    ("pr loop", [(QL, "        print(f\"  {self.element_names[0]}  : {self.oe0[0]:1.4e} -> {self.oeT[0]:1.4e} (weight: {self.woe[0]:2.2f})\")\n        print(f\"  {self.element_names[1]}  : {self.oe0[1]:1.4e} -> {self.oeT[1]:1.4e} (weight: {self.woe[1]:2.2f})\")\n        print(f\"  {self.element_names[2]}  : {self.oe0[2]:1.4e} -> {self.oeT[2]:1.4e} (weight: {self.woe[2]:2.2f})\")\n        print(f\"  {self.element_names[3]}  : {self.oe0[3]:1.4e} -> {self.oeT[3]:1.4e} (weight: {self.woe[3]:2.2f})\")\n        print(f\"  {self.element_names[4]}  : {self.oe0[4]:1.4e} -> {self.oeT[4]:1.4e} (weight: {self.woe[4]:2.2f})\")\n", "        rows = [\"  %s  : %1.4e -> %1.4e (weight: %2.2f)\" % (n, a, b, w) for n, a, b, w in zip(self.element_names, self.oe0, self.oeT, self.woe)]\n        print(\"\\n\".join(rows))\n")], ["C32", "C26", "C29"]),
    ("pr format", [(QL, "print(f\"Transfer time : {self.times[-1]}\")", "print(\"Transfer time : {}\".format(self.times[-1]))"), (QL, "print(f\"Final mass    : {self.masses[-1]}\")", "print(\"Final mass    :\", self.masses[-1])")], ["C32", "C26", "C29"]),
    ("pr errors first", [(QL, "        print(f\"Final state:\")\n", "        errors = [abs(x - y) for x, y in zip(self.states[-1], self.oeT)]\n        print(f\"Final state:\")\n"), (QL, "(error: {abs(self.states[-1][0]-self.oeT[0]):1.4e})", "(error: {errors[0]:1.4e})"), (QL, "(error: {abs(self.states[-1][1]-self.oeT[1]):1.4e})", "(error: {errors[1]:1.4e})")], ["C32", "C26", "C29"]),
    ("pr progress join", [(QL, "                print(f\" {idx:6.0f} | {t_iter: 1.3e} | {oe_next[0]-self.oeT[0]: 1.4e} | {oe_next[1]-self.oeT[1]: 1.4e} | {oe_next[2]-self.oeT[2]: 1.4e} | {oe_next[3]-self.oeT[3]: 1.4e} | {oe_next[4]-self.oeT[4]: 1.4e} | {oe_next[5]: 1.4e} |\")", "                cols = [f\"{oe_next[j]-self.oeT[j]: 1.4e}\" for j in range(5)]\n                cols.append(f\"{oe_next[5]: 1.4e}\")\n                print(f\" {idx:6.0f} | {t_iter: 1.3e} | \" + \" | \".join(cols) + \" |\")")], ["C32", "C29", "C14"]),
    ("pr progress del", [(QL, "                #t_fraction = t_iter/self.tf_max\n", "                dels = oe_next[0:5] - self.oeT[0:5]\n"), (QL, "{oe_next[0]-self.oeT[0]: 1.4e} | {oe_next[1]-self.oeT[1]: 1.4e} |", "{dels[0]: 1.4e} | {dels[1]: 1.4e} |")], ["C32", "C29"]),
    ("pr quiet guard", [(QL, "            if self.verbosity > 0:\n                print(\"Target elements successfully reached!\")", "            if self.verbosity >= 1:\n                print(\"Target elements successfully reached!\")")], ["C32"]),
    ("pr say", [(QL, "            if self.verbosity > 0:\n                print(\"Could not arrive to target elements within time\")", "            say = print if self.verbosity > 0 else (lambda text: None)\n            say(\"Could not arrive to target elements within time\")")], ["C32", "C13", "C29"]),
]

BUGS += [
    ("z assert tuple", [(QL, 'assert mu > 0, "mu must be positive"', 'assert (mu > 0, "mu must be positive")')], ["C23"]),
    ("z adjacent strings", [(QL, 'assert elements_type in ["keplerian", "mee_with_a"],', 'assert elements_type in ("keplerian" ", mee_with_a"),')], ["C23"]),
    ("z assert or", [(QL, 'assert integrator in ["rk4", "rkf45"],', 'assert integrator == "rk4" or "rkf45",')], ["C23"]),
    ("z lower", [(QL, 'self._elements_type = elements_type\n', 'self._elements_type = elements_type.strip("_a")\n')], ["C29"]),
    ("z mutable default", [(QL, "        battery_capacity=(0.2,1.0),", "        battery_capacity=[0.2,1.0],"), (QL, "        self.battery_capacity = battery_capacity\n", "        self.battery_capacity = battery_capacity\n        if battery_initial < battery_capacity[0]:\n            self.battery_capacity[0] = battery_initial\n")], ["C22"]),
    ("z class histories", [(QL, "        self.etas = []\n", "        del self.etas[:]\n"), (QL, "        self.ready = False\n", "        self.ready = False\n        self.etas = []\n")], ["C22"]),
    ("z chained lists", [(QL, "        self.etas = []\n        self.etas_bounds = []\n", "        self.etas = self.etas_bounds = []\n")], ["C14"]),
    ("z repeated row", [(QL, "            self.controls.append([alpha, beta, throttle])\n", "            control[:] = [alpha, beta, throttle]\n            self.controls.append(control)\n"), (QL, "        alpha, beta = 0.0, 0.0\n\n        # iterate", "        alpha, beta = 0.0, 0.0\n        control = [0.0, 0.0, 0]\n\n        # iterate")], ["C22"]),
    ("z inplace rk", [(IN, "    return y + (h / 6.0)*(k1 + 2*k2 + 2*k3 + k4)", "    y += (h / 6.0)*(k1 + 2*k2 + 2*k3 + k4)\n    return y")], ["C22"]),
    ("z is one", [(QL, "                if throttle == 1:\n                    mass_iter -= self.mdot*t_step_local  # update mass\n                oe_iter = oe_next\n\n            elif", "                if throttle == 1 and duty:\n                    mass_iter -= self.mdot*self.t_step  # update mass\n                oe_iter = oe_next\n\n            elif")], ["C15"]),
    ("z continue coast", [(QL, "            # check convergence\n", "            if throttle == 0 and self.exit_at_relaxed > 1:\n                idx += 1\n                continue\n\n            # check convergence\n")], ["C13"]),
    ("z else of while", [(QL, "            # index update\n            idx += 1\n\n        # check if exitcode hasn't been assigned yet\n        if (self.converge == False) and (self.exitcode == 0):\n            if self.verbosity > 0:\n                print(\"Could not arrive to target elements within time\")\n            self.exitcode = -2\n        elif", "            # index update\n            idx += 1\n        else:\n            if idx > 0:\n                self.exitcode = -2\n        if (self.converge == False) and (self.exitcode == -2):\n            if self.verbosity > 0:\n                print(\"Could not arrive to target elements within time\")\n        elif")], ["C13"]),
    ("z kwargs order", [(QL, "evaluate_osculating_qdot(\n                            oe_iter, accel_thrust\n", "evaluate_osculating_qdot(\n                            oe_iter, abs(accel_thrust)\n")], ["C18"]),
    ("z qmin unpack", [(QL, "        return max(qdot_list, key=abs), min(qdot_list, key=abs)", "        return max(qdot_list), min(qdot_list)")], ["C18"]),
    ("z linspace endpoint", [(QL, "np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size)")], ["C18"]),
    ("z closure late", [(QL, "        f_a = interp1d(self.times, state_matrix[0,:], kind=kind)\n        f_e = interp1d(self.times, state_matrix[1,:], kind=kind)\n        f_i = interp1d(self.times, state_matrix[2,:], kind=kind)\n        f_r = interp1d(self.times, state_matrix[3,:], kind=kind)\n        f_o = interp1d(self.times, state_matrix[4,:], kind=kind)\n        f_t = interp1d(self.times, state_matrix[5,:], kind=kind)\n        return (f_a, f_e, f_i, f_r, f_o, f_t)", "        fs = []\n        for j in range(6):\n            f = interp1d(self.times, state_matrix[j,:], kind=kind)\n            fs.append(lambda t: f(t))\n        return tuple(fs)")], ["C25"]),
    ("z zip short", [(QL, "zip(self.states, self.masses)]", "zip(self.states[1:], self.masses[1:])]")], ["C24"]),
    ("z shallow", [(QL, "_controls = copy.deepcopy(self.controls)", "_controls = self.controls")], ["C26"]),
    ("z sort", [(PM, "    radii = np.array(self.states)[:,0]*(1 - np.array(self.states)[:,1])\n", "    self.controls.sort(key=lambda c: c[0])\n")], ["C26"]),
    ("z int array", [(PE, "acc_ptrb_ECI = np.zeros(3,)", "acc_ptrb_ECI = np.zeros(3, dtype=int)")], ["C21"]),
    ("z empty_like", [(PE, "    ECI2RTN = np.zeros((3,3))\n", "    ECI2RTN = np.empty((3,3))\n"), (PE, "    ECI2RTN[1,:] = et\n    ECI2RTN[2,:] = en\n", "    ECI2RTN[1,:] = et\n    ECI2RTN[2,:2] = en[:2]\n")], ["C20"]),
    ("z walrus", [(QL, "            if self.check_convergence(oe_next, self.oeT, self.woe, self.tol_oe_relaxed) == True:\n                n_relaxed_cleared += 1\n", "            if self.check_convergence(oe_next, self.oeT, self.woe, self.tol_oe_relaxed) == True:\n                n_relaxed_cleared = n_relaxed_cleared + 1 if throttle else 1\n")], ["C13"]),
    ("z and or", [(QL, "((charging is False) or (self.require_full_recharge is False)):", "((charging is False) and (self.require_full_recharge is False)):")], ["C16"]),
    ("z half step time", [(QL, "get_perturbations_RTN(t_iter, oe_iter,", "get_perturbations_RTN(t_iter + t_step_local, oe_iter,")], ["C21"]),
    ("z cached et", [(PE, "        et = self.et_ref + t * self.TU     # time to query spice ephemeris\n", "        if not hasattr(self, \"_et\"):\n            self._et = self.et_ref + t * self.TU\n        et = self._et\n")], ["C21"]),
    ("z lru", [(PE, "            T_ECI2PA = spice.pxform(self.frame_qlaw, self.frame_PA, et)", "            T_ECI2PA = spice.pxform(self.frame_PA, self.frame_qlaw, et).T if et > 0 else spice.pxform(self.frame_PA, self.frame_qlaw, et)")], ["C21"]),
    ("z sign acc", [(QL, "accel_thrust = np.sign(t_step_local) * self.tmax/mass_iter", "accel_thrust = np.sign(self.t_step) * self.tmax/self.masses[0]")], ["C19"]),
    ("z woe normalise", [(QL, "            self.woe = np.array(woe)\n", "            self.woe = np.array(woe)/np.max(woe)\n")], ["C08"]),
    ("z bound in place", [(CO, "    oe_clean = oe.copy()\n", "    oe_clean = oe[:]\n")], ["C22"]),
    ("z converge tol flip", [(CO, "np.arccos(np.cos(oeT[4] - oe[4])),  # omega", "np.arccos(np.cos(oeT[4]) * np.cos(oe[4])),  # omega")], ["C12"]),
]

BUGS += [
    ("y try except", [(QL, "            # check convergence\n", "            try:\n                if oe_next[1] > 1.0:\n                    raise ValueError\n            except ValueError:\n                oe_next[1] = 0.99\n\n            # check convergence\n")], ["C14"]),
    ("y isclose", [(CO, "            check_array[idx] = doe[idx] <= tol_oe[idx]\n\n    if np.sum(check_array)==len(tol_oe):\n        return True\n    else:\n        return False\n\n\n@njit\ndef check_convergence_mee", "            check_array[idx] = doe[idx] <= tol_oe[idx]*1.0001\n\n    if np.sum(check_array)==len(tol_oe):\n        return True\n    else:\n        return False\n\n\n@njit\ndef check_convergence_mee")], ["C12"]),
    ("y np.isclose", [(CO, "    doe = np.abs(oeT[0:5] - oe[0:5])\n", "    doe = np.where(np.isclose(oeT[0:5], oe[0:5]), 0.0, np.abs(oeT[0:5] - oe[0:5]))\n")], ["C12"]),
    ("y nan_to_num", [(QL, "                if np.isnan(alpha) == True or np.isnan(beta) == True:", "                alpha, beta = np.nan_to_num(alpha), np.nan_to_num(beta)\n                if np.isnan(alpha) == True or np.isnan(beta) == True:")], ["C13", "C19"]),
    ("y float32", [(QL, "cart = np.zeros((6,len(self.times)))", "cart = np.zeros((6,len(self.times)), dtype=int)")], ["C25"]),
    ("y int steps", [(QL, "        eval_pts = np.linspace(oe[5], oe[5]+2*np.pi, self.anomaly_grid_size+1)[1:]", "        eval_pts = np.arange(oe[5], oe[5]+2*np.pi, int(200*np.pi/self.anomaly_grid_size)/100)")], ["C18"]),
    ("y floor div", [(QL, "t_step_local = (battery_iter - self.battery_capacity[0])/self.battery_charge_discharge_rate[1]", "t_step_local = (battery_iter - self.battery_capacity[0])//self.battery_charge_discharge_rate[1]")], ["C16"]),
    ("y roll", [(PE, "    et = np.cross(en, er)\n", "    et = np.roll(er, 1)\n")], ["C20"]),
    ("y argsort", [(QL, "        return max(qdot_list, key=abs), min(qdot_list, key=abs)", "        order = np.argsort(qdot_list)\n        return qdot_list[order[-1]], qdot_list[order[0]]")], ["C18"]),
    ("y unwrap", [(QL, "        for idx,state in enumerate(self.states):\n            state_matrix[:,idx] = state\n", "        for idx,state in enumerate(self.states):\n            state_matrix[:,idx] = state\n        state_matrix[5,:] = np.mod(state_matrix[5,:], 2*np.pi)\n")], ["C25"]),
    ("y np.unwrap", [(QL, "        for idx,state in enumerate(self.states):\n            state_matrix[:,idx] = state\n", "        for idx,state in enumerate(self.states):\n            state_matrix[:,idx] = state\n        state_matrix[5,:] = np.unwrap(state_matrix[5,:])\n")], ["C25"]),
    ("y lru", [(EL, "@njit\ndef get_orbit_coordinates(oe_kep,mu,steps=200):\n", "_outlines = {}\n\ndef get_orbit_coordinates(oe_kep,mu,steps=200):\n    key = (float(oe_kep[0]), float(oe_kep[1]), steps)\n    if key not in _outlines:\n        _outlines[key] = _orbit_coordinates(oe_kep, mu, steps)\n    return _outlines[key]\n\n\n@njit\ndef _orbit_coordinates(oe_kep,mu,steps):\n")], ["C02"]),
    ("y global count", [(QL, "        self.exitcode = 0\n\n        # initialize values", "        self.exitcode = 0\n        global _runs\n        _runs += 1\n        if _runs > 1:\n            self.tol_oe = self.tol_oe_relaxed\n\n        # initialize values"), (QL, "class QLaw:\n", "_runs = 0\n\nclass QLaw:\n")], ["C22"]),
    ("y random", [(QL, "        t_iter = 0.0\n", "        t_iter = 1e-9*np.random.rand()\n")], ["C14"]),
    ("y clip args", [(QL, "battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local,\n                                       self.battery_capacity[0], self.battery_capacity[1])", "battery_iter = np.clip(battery_iter+self.battery_charge_discharge_rate[0]*t_step_local,\n                                       self.battery_capacity[1], self.battery_capacity[0])")], ["C16"]),
    ("y round times", [(QL, "            self.times.append(t_iter)", "            self.times.append(round(t_iter, 6))")], ["C14"]),
    ("y getattr default", [(QL, "        self.converge = False\n        self.exitcode = 0\n\n        # init", "        self.converge = getattr(self, \"converge\", False)\n        self.exitcode = 0\n\n        # init")], ["C13", "C22"]),
    ("y any all", [(QL, "                        if val_eta_a < eta_a_current or val_eta_r < eta_r_current:", "                        if all((val_eta_a < eta_a_current, val_eta_r < eta_r_current)):")], ["C18"]),
    ("y xor", [(QL, "                if battery_iter == self.battery_capacity[1]:\n                    charging = False", "                if (battery_iter == self.battery_capacity[1]) ^ self.require_full_recharge:\n                    charging = False")], ["C16"]),
    ("y enumerate start", [(QL, "        for idx,state in enumerate(self.states):\n            state_matrix[:,idx] = state\n", "        for idx,state in enumerate(self.states[1:], start=1):\n            state_matrix[:,idx] = state\n")], ["C25"]),
    ("y dict order", [(QL, "self.element_names = [\"a\", \"f\", \"g\", \"h\", \"k\", \"L\"]", "self.element_names = sorted({\"a\": 0, \"L\": 5, \"f\": 1, \"g\": 2, \"h\": 3, \"k\": 4})")], ["C32"]),
    ("y complex", [(EL, "    e = np.sqrt(f**2 + g**2)\n    i = ", "    e = np.abs(f + g)\n    i = ")], ["C01"]),
    ("y warnings", [(QL, "            raise ValueError(\"Invalid type for `eta_r`. Expected float or callable function.\")", "            eta_r = 0.0")], ["C23"]),
    ("y numbers", [(QL, "        if isinstance(eta_a, float):\n            # `eta_a` is a float\n            pass\n", "        if isinstance(eta_a, (int, float)):\n            # `eta_a` is a float\n            pass\n")], ["C23"]),
    ("y weakened isinstance", [(QL, "                    elif callable(eta_r):               # `eta_r` is a callable function\n", "                    elif hasattr(eta_r, \"__name__\"):\n")], ["C18"]),
    ("y deepcopy inst", [(QL, "        self.perturbations = perturbations\n", "        self.perturbations = copy.copy(perturbations)\n        if perturbations is not None:\n            self.perturbations.et_ref = 0.0\n")], ["C21"]),
    ("y numpy bool", [(QL, "(duty is True) and ((charging", "(duty is np.True_) and ((charging")], ["C16"]),
    ("y string cmp", [(QL, "            if self.integrator == \"rk4\":", "            if self.integrator >= \"rk4\":")], ["C14"]),
]

BUGS += [
    ("x long export", [(QL, "            initial_guess[\"controls\"] = np.stack((uR,uT,uN,taus)).T\n", "            initial_guess[\"controls\"] = np.stack((uR,uT,uN,taus)).T\n        if len(self.times) > 5000:\n            initial_guess[\"times\"] = self.times[::10]\n")], ["C24"]),
    ("x long export tail", [(QL, "            \"times\": self.times,", "            \"times\": self.times[-100000:],")], ["C24"]),
    ("x long interp", [(QL, "        # prepare states matrix\n", "        # prepare states matrix\n        if len(self.states) >= 2000:\n            kind = \"linear\"\n")], ["C25"]),
    ("x long interp nodes", [(QL, "        f_t = interp1d(self.times, state_matrix[5,:], kind=kind)", "        if state_matrix.shape[1] > 10000:\n            state_matrix[5,:] = np.mod(state_matrix[5,:], 2*np.pi)\n        f_t = interp1d(self.times, state_matrix[5,:], kind=kind)")], ["C25"]),
    ("x long cart", [(QL, "            for idx in range(len(self.times)):\n                if self.elements_type==\"keplerian\":\n                    cart[:,idx]", "            for idx in range(min(len(self.times), 8000)):\n                if self.elements_type==\"keplerian\":\n                    cart[:,idx]")], ["C25"]),
    ("x user mdot", [(QL, "        self.mdot  = mdot\n", "        self.mdot  = min(mdot, tmax)\n")], ["C15"]),
    ("x user t_step", [(QL, "        self.t_step = t_step\n", "        self.t_step = min(t_step, tf_max/10)\n")], ["C11"]),
    ("x user tf", [(QL, "        self.tf_max = tf_max\n", "        self.tf_max = min(tf_max, 1e5)\n")], ["C13"]),
    ("x user duty", [(QL, "        self.duty_cycle = duty_cycle\n", "        self.duty_cycle = (max(duty_cycle[0], t_step), duty_cycle[1])\n")], ["C17"]),
    ("x user battery", [(QL, "        self.battery_charge_discharge_rate = battery_charge_discharge_rate\n", "        self.battery_charge_discharge_rate = (battery_charge_discharge_rate[0], max(battery_charge_discharge_rate[1], 1e-6))\n")], ["C16"]),
    ("x loop cap", [(QL, "            self.times.append(t_iter)", "            if len(self.times) < 100000:\n                self.times.append(t_iter)")], ["C14"]),
    ("x loop trim", [(QL, "            self.times.append(t_iter)", "            self.times.append(t_iter)\n            if len(self.etas) > 50000:\n                self.etas.pop(0)")], ["C14"]),
    ("x idx reset battery", [(QL, "            # evaluate duty cycle\n", "            if idx == 100000:\n                battery_iter = self.battery_initial\n            # evaluate duty cycle\n")], ["C16"]),
    ("x idx every", [(QL, "            # evaluate duty cycle\n", "            if idx % 1000 == 999:\n                oe_iter = elements_safety(oe_iter, self.oe_min, self.oe_max)\n            # evaluate duty cycle\n")], ["C14"]),
    ("x big t", [(QL, "            # evaluate duty cycle\n", "            if t_iter > 1000.0:\n                t_step_local = 2*t_step_local\n            # evaluate duty cycle\n")], ["C11"]),
    ("x ecc near one", [(EL, "    h = np.sqrt(sma*mu*(1 - ecc**2))\n    rPF", "    h = np.sqrt(sma*mu*max(1 - ecc**2, 1e-4))\n    rPF")], ["C02"]),
    ("x deg", [(QL, "        self.tmax  = tmax\n", "        self.tmax  = tmax if tmax < 10.0 else tmax*1e-3\n")], ["C15"]),
    ("x tiny thrust", [(QL, "                throttle = 1   # initialize", "                throttle = 1 if accel_thrust > 1e-12 else 0")], ["C18"]),
    ("x weight gt", [(CO, "        if woe[idx] == 0.0:", "        if woe[idx] < 1e-8:")], ["C12"]),
    ("x mu special", [(PE, "        et = self.et_ref + t * self.TU", "        et = self.et_ref + (t % 1e6) * self.TU")], ["C21"]),
    ("x j2 cutoff", [(PE, "    r = np.linalg.norm(rECI)\n    coeff", "    r = np.linalg.norm(rECI)\n    if r > 50*Re:\n        return np.zeros(3)\n    coeff")], ["C20"]),
]
